----------------------------- MODULE RegistryMC -----------------------------
(* All short histories of registrations and requests over a small universe; what follows from the definitions. *)
EXTENDS Registry
CONSTANTS Ops, Doms, Vers, MaxRegs
VARIABLES reg, n, last
vars == <<reg, n, last>>
Reqs == [onnx : Vers, extra : UNION {[D -> Vers] : D \in SUBSET (Doms \ {Onnx})}, cust : {<<>>} \cup [{"a"} -> {99}]]
Init == reg = <<>> /\ n = 0 /\ last = <<>>
Register == /\ n < MaxRegs /\ n' = n + 1
            /\ \E d \in Doms, v \in Vers, O \in (SUBSET Ops) \ {{}} : reg' = RegisterIn(reg, d, O, v, n + 1)
            /\ UNCHANGED last
Request == \E q \in Reqs : last' = [o \in Ops |-> Choices(reg, q, o)] /\ last # last' /\ UNCHANGED <<reg, n>>
Next == Register \/ Request
\* a handler newer than asked for is never chosen; an older one only if there is no newer one that may be used
Newest == \A q \in Reqs, o \in Ops : \A h \in Choices(reg, q, o) : h # None /\ h # 99 =>
            \E d \in Doms, v \in Vers : /\ <<d, o, v>> \in DOMAIN reg /\ reg[<<d, o, v>>] = h
                                        /\ v <= IF d = Onnx THEN q.onnx ELSE q.extra[d]
                                        /\ \A w \in Vers : <<d, o, w>> \in DOMAIN reg => w <= v \/ w > IF d = Onnx THEN q.onnx ELSE q.extra[d]
\* an operator is unsupported exactly if no requested domain has a handler old enough
Unsupported == \A q \in Reqs, o \in Ops : (None \in Choices(reg, q, o)) <=>
                 /\ o \notin DOMAIN q.cust
                 /\ \A v \in Vers : v <= q.onnx => <<Onnx, o, v>> \notin DOMAIN reg
                 /\ \A d \in DOMAIN q.extra, v \in Vers : v <= q.extra[d] => <<d, o, v>> \notin DOMAIN reg
\* asking for a newer version never loses an operator
Monotone == \A q \in Reqs, o \in Ops, v \in Vers : v >= q.onnx /\ None \in Choices(reg, [q EXCEPT !.onnx = v], o) => None \in Choices(reg, q, o)
=============================================================================
