----------------------------- MODULE NamesTrace -----------------------------
(***************************************************************************)
(* Recorded histories of real name generation: names come into use by      *)
(* loading ("load", names), by generation ("gen", name) and by making      *)
(* nodes ("use", names); a generated name must be new.                     *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json
CONSTANT File
Cases == JsonDeserialize(File)          \* [id, log : <<[k, n : <<name>>]>>]
VARIABLES c, i, used, pc
vars == <<c, i, used, pc>>
Log == Cases[c].log
Names(s) == {s[j] : j \in DOMAIN s}
Init == c \in 1..Len(Cases) /\ i = 1 /\ used = {} /\ pc = "run"
Step == /\ pc = "run" /\ i <= Len(Log)
        /\ IF Log[i].k = "gen" /\ Log[i].n[1] \in used
           THEN PrintT("BAD|" \o Cases[c].id \o "|" \o Log[i].n[1]) /\ pc' = "bad" /\ UNCHANGED <<c, i, used>>
           ELSE used' = used \cup Names(Log[i].n) /\ i' = i + 1 /\ UNCHANGED <<c, pc>>
End == /\ pc = "run" /\ i > Len(Log) /\ PrintT("OK|" \o Cases[c].id) /\ pc' = "done" /\ UNCHANGED <<c, i, used>>
Next == Step \/ End
=============================================================================
