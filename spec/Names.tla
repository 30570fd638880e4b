------------------------------- MODULE Names -------------------------------
(***************************************************************************)
(* Generated names. A name is a stem with a number, <<s, k>>, k = 0 for    *)
(* names without one. Loading a model makes its names used; the counter    *)
(* moves past every number that occurs in them.                            *)
(***************************************************************************)
EXTENDS Naturals, FiniteSets
CONSTANTS Stems, MaxNum, Careful        \* Careful = FALSE: a counter that does not look at loaded names
VARIABLES used, counter, last, clash
vars == <<used, counter, last, clash>>
Names == Stems \X (0..MaxNum)
Top(S) == IF S = {} THEN 0 ELSE CHOOSE k \in {n[2] : n \in S} : \A m \in S : m[2] <= k
Init == used = {} /\ counter = 0 /\ last = <<"", 0>> /\ clash = FALSE
Load == \E S \in SUBSET Names : /\ S # {} /\ Cardinality(S) <= 2
                                /\ used' = used \cup S
                                /\ counter' = IF Careful /\ Top(S) > counter THEN Top(S) ELSE counter
                                /\ UNCHANGED <<last, clash>>
Generate == \E s \in Stems : /\ counter < MaxNum
                             /\ last' = <<s, counter + 1>> /\ counter' = counter + 1
                             /\ clash' = (clash \/ last' \in used)
                             /\ used' = used \cup {last'}
Next == Load \/ Generate
Fresh == ~clash
\* every number above the counter is free for every stem, however many names follow
Room == \A n \in used : n[2] <= counter
=============================================================================
