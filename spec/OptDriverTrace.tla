--------------------------- MODULE OptDriverTrace ---------------------------
(***************************************************************************)
(* Recorded runs of the real driver with the real passes (some of them     *)
(* made to fail) as behaviours of the driver of OptDriver: what a pass     *)
(* does is read off the recording, what the driver makes of it is not.     *)
(* A graph is a number that stands for its complete contents.              *)
(***************************************************************************)
EXTENDS Naturals, Sequences, TLC, Json
CONSTANT File
Cases == JsonDeserialize(File)  \* [id, np, start, final, log : <<[p, r, in, ok, out, rep]>>]

VARIABLES c, k, round, i, cur, changed, status
vars == <<c, k, round, i, cur, changed, status>>
Log == Cases[c].log

Init == /\ c \in 1..Len(Cases) /\ k = 1 /\ round = 1 /\ i = 1 /\ changed = FALSE /\ status = "running"
        /\ cur = Cases[c].start

Say(what) == PrintT("BAD|" \o ToString(Cases[c].id) \o "|" \o what)
Stop(what) == /\ Say(what) /\ status' = "bad" /\ UNCHANGED <<c, k, round, i, cur, changed>>

Run == /\ status = "running" /\ i <= Cases[c].np
       /\ IF k > Len(Log) \/ (k <= Len(Log) /\ (Log[k].p # i \/ Log[k].r # round))
          THEN Stop("a pass did not run in its turn in round " \o ToString(round))
          ELSE IF Log[k].in # cur
          THEN Stop("pass " \o ToString(i) \o " in round " \o ToString(round) \o " was not given the graph the passes before it left")
          ELSE /\ IF Log[k].ok THEN cur' = Log[k].out /\ changed' = (changed \/ Log[k].rep) ELSE UNCHANGED <<cur, changed>>
               /\ k' = k + 1 /\ i' = i + 1 /\ UNCHANGED <<c, round, status>>
RoundEnd == /\ status = "running" /\ i = Cases[c].np + 1
            /\ IF changed THEN round' = round + 1 /\ i' = 1 /\ changed' = FALSE /\ UNCHANGED <<c, k, cur, status>>
               ELSE IF k <= Len(Log) THEN Stop("passes run after a round that changed nothing")
               ELSE IF Cases[c].final # cur THEN Stop("the result is not the graph the passes left")
               ELSE /\ status' = "done" /\ PrintT("DONE|" \o ToString(Cases[c].id)) /\ UNCHANGED <<c, k, round, i, cur, changed>>
Next == Run \/ RoundEnd
Spec == Init /\ [][Next]_vars
=============================================================================
