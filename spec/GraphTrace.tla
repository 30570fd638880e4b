----------------------------- MODULE GraphTrace -----------------------------
(* Histories of editing calls recorded on real graphs, checked step by step *)
(* against GraphIR: verdict of the call, its result, and every query after. *)
EXTENDS GraphIR, Json
CONSTANT File
Cases == JsonDeserialize(File)
VARIABLES c, k, gs
vars == <<c, k, gs>>
Init == c \in 1..Len(Cases) /\ k = 1 /\ gs = [x \in {"0"} |-> NewGraph]
Out(v, s) == PrintT(v \o "|" \o ToString(Cases[c].id) \o "|" \o ToString(k) \o "|" \o s)
Step == /\ k <= Len(Cases[c].steps)
        /\ LET s == Cases[c].steps[k]
               r == Apply(gs, s)
               d == IF r.err # s.err THEN (IF s.err THEN "call raised" ELSE "call should be rejected")
                    ELSE IF r.ret # "-" /\ r.ret # s.ret THEN "result of the call"
                    ELSE IF r.rs # {"-"} /\ r.rs # Range(s.rs) THEN "nodes returned by the call"
                    ELSE Disagreement(r.gs, s.obs)
           IN IF d = "" THEN /\ gs' = r.gs /\ k' = k + 1
                             /\ (k = Len(Cases[c].steps) => Out("DONE", ""))
              ELSE /\ Out("BAD", s.op \o "|" \o d)
                   /\ k' = Len(Cases[c].steps) + 1 /\ gs' = gs
        /\ UNCHANGED c
Next == Step
=============================================================================
