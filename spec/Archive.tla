------------------------------- MODULE Archive -------------------------------
(***************************************************************************)
(* Export with external tensor storage as a state machine: the constants   *)
(* of a model (in a main graph and its bodies, several of which may have   *)
(* one name or names that become equal when unusual characters are         *)
(* replaced) are visited one by one; one with more than Limit elements is   *)
(* written to a new file and the model refers to it, others stay inline.   *)
(* Checked by TLC for every list of constants over the given bounds:       *)
(* reading the archive gives every constant back, files and references     *)
(* agree.  Fresh = FALSE names files by the node alone, which TLC refutes. *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC
CONSTANTS Stems, MaxConsts, Limit, Fresh
Kinds == {"raw", "typed", "string"}
Consts == [stem : Stems, size : {Limit - 1, Limit, Limit + 1}, kind : Kinds]
VARIABLES model, i, ref, files, counter
vars == <<model, i, ref, files, counter>>
TypeOK == i \in 1..(Len(model) + 1)
Clean(s) == IF s = "a:b" THEN "a_b" ELSE s                       \* replacement of characters
FileName(c) == IF Fresh THEN <<Clean(c.stem), counter>> ELSE <<Clean(c.stem)>>
Large(c) == c.size > Limit /\ c.kind # "string"
(* the value of constant j is j itself: distinct constants have distinct values *)
Init == /\ model \in UNION {[1..n -> Consts] : n \in 0..MaxConsts}
        /\ i = 1 /\ ref = <<>> /\ files = <<>> /\ counter = 0
Visit == /\ i <= Len(model)
         /\ IF Large(model[i])
            THEN /\ ref' = Append(ref, [ext |-> TRUE, at |-> FileName(model[i])])
                 /\ files' = (FileName(model[i]) :> i) @@ files
                 /\ counter' = counter + 1
            ELSE ref' = Append(ref, [ext |-> FALSE, at |-> i]) /\ UNCHANGED <<files, counter>>
         /\ i' = i + 1 /\ UNCHANGED model
Next == Visit \/ (i > Len(model) /\ UNCHANGED vars)
Read(j) == IF ref[j].ext THEN files[ref[j].at] ELSE ref[j].at
Done == i > Len(model)
RoundTrip == Done => \A j \in DOMAIN model : Read(j) = j
Exact == Done => DOMAIN files = {ref[j].at : j \in {k \in DOMAIN ref : ref[k].ext}}
Once == Done => Cardinality(DOMAIN files) = Cardinality({j \in DOMAIN model : Large(model[j])})
=============================================================================
