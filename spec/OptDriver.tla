------------------------------ MODULE OptDriver ------------------------------
(***************************************************************************)
(* The driver of the optimization passes.                                  *)
(*                                                                         *)
(* A pass is known by what its k-th run does:                              *)
(*   idle   nothing               edit   edits and reports a change        *)
(*   quiet  edits, no report      claim  no edit, reports a change         *)
(*   ctor / fail0 / failmid / failend: raises when created, before, amid   *)
(*   or after its edits (having reported a change)                         *)
(* The graph is abstracted to the sequence of edits it carries.            *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json

CONSTANT File
Cases == JsonDeserialize(File)      \* [id, catch, plan : pass -> sequence of outcomes]

Failing == {"ctor", "fail0", "failmid", "failend"}
Editing == {"edit", "quiet"}
Reporting == {"edit", "claim"}

VARIABLES c, round, i, store, changed, log, status
vars == <<c, round, i, store, changed, log, status>>

Plan == Cases[c].plan
NP == Len(Plan)
Outcome(p, k) == IF k <= Len(Plan[p]) THEN Plan[p][k] ELSE "idle"

Init == /\ c \in 1..Len(Cases)
        /\ round = 1 /\ i = 1 /\ store = <<>> /\ changed = FALSE /\ log = <<>> /\ status = "running"

\* one pass runs on the graph as it stands; what it does counts only if it returns
Run == /\ status = "running" /\ i <= NP
       /\ LET o == Outcome(i, round)
          IN /\ log' = Append(log, <<i, round, store>>)
             /\ IF o \in Failing
                THEN /\ status' = IF Cases[c].catch THEN "running" ELSE "raised"
                     /\ UNCHANGED <<store, changed>>
                ELSE /\ store' = IF o \in Editing THEN Append(store, <<i, round>>) ELSE store
                     /\ changed' = (changed \/ o \in Reporting)
                     /\ UNCHANGED status
       /\ i' = i + 1
       /\ UNCHANGED <<c, round>>

RoundEnd == /\ status = "running" /\ i = NP + 1
            /\ IF changed THEN /\ round' = round + 1 /\ i' = 1 /\ changed' = FALSE /\ UNCHANGED status
                          ELSE /\ status' = "done" /\ UNCHANGED <<round, i, changed>>
            /\ UNCHANGED <<c, store, log>>

Report == /\ status \in {"done", "raised"}
          /\ PrintT(ToJson([id |-> Cases[c].id, log |-> log, store |-> store, status |-> status]))
          /\ status' = status \o "."
          /\ UNCHANGED <<c, round, i, store, changed, log>>

Next == Run \/ RoundEnd \/ Report
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

(* what has to hold of every behaviour *)
Good(l) == SelectSeq([k \in 1..Len(l) |-> <<l[k][1], l[k][2]>>], LAMBDA x : Outcome(x[1], x[2]) \in Editing)
\* the graph carries exactly the edits of the passes that did not fail, in the order they ran
NoDamage == store = Good(log)
\* passes run in order, every one of them in every round
InOrder == \A k \in 1..Len(log) : log[k][1] = ((k - 1) % NP) + 1 /\ log[k][2] = ((k - 1) \div NP) + 1
\* stops exactly after the first round in which nothing was reported; raises exactly when a pass failed and errors are not caught
Ends == /\ status \in {"done", "done."} =>
             /\ Len(log) = NP * round
             /\ \A p \in 1..NP : Outcome(p, round) \notin Reporting
             /\ \A r \in 1..(round - 1) : \E p \in 1..NP : Outcome(p, r) \in Reporting
             /\ Cases[c].catch \/ \A k \in 1..Len(log) : Outcome(log[k][1], log[k][2]) \notin Failing
        /\ status \in {"raised", "raised."} => ~Cases[c].catch /\ Outcome(log[Len(log)][1], log[Len(log)][2]) \in Failing
Terminates == <>(status \in {"done.", "raised."})
=============================================================================
