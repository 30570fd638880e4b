------------------------------ MODULE TFTrace ------------------------------
(***************************************************************************)
(* Machine that executes source programs operator by operator, following a *)
(* recorded execution, and the acceptance rule for the ONNX models         *)
(* converted from them.                                                    *)
(*   [id, g: [in, out, nodes], runs: <<[ins, vals, obs]>>]                 *)
(* vals: recorded result of every tensor of the program; each step of the  *)
(* machine is checked against it (disagreement: SPEC, an error of the      *)
(* specification, or a program whose recorded run is not TensorFlow's).    *)
(* obs: [k, err, outs] - what a converted model answered.                  *)
(***************************************************************************)
EXTENDS TFControl, Json, IOUtils, TLCExt

CONSTANT File
Cases == JsonDeserialize(File)
VARIABLES c, r, pc, env, nd
vars == <<c, r, pc, env, nd>>

Init == /\ c \in 1..Len(Cases)
        /\ r \in 1..Len(Cases[c].runs)
        /\ pc = 1
        /\ nd = 0
        /\ env = BindAll(<<>>, Cases[c].g.in, Cases[c].runs[r].ins, 1)

Code(u) == IF u >= Opaque THEN u ELSE 1050000000 + 1000 * MaxI(-450, MinI(450, u))
Near(u, v, t) == \/ u = v
                 \/ /\ IsFloat(t) /\ u < 2000000000 /\ v < 2000000000 /\ (u >= Opaque \/ v >= Opaque)
                    /\ AbsI(Code(u) - Code(v)) <= 2 + AbsI(Code(v) - 1050000000) \div 20000
                 \/ IsFloat(t) /\ AbsI(u) > 1000000 /\ AbsI(v) > 1000000 /\ u < 500000000 /\ v < 500000000 /\ AbsI(u - v) <= AbsI(v) \div 100000
Clause(e, x) ==
  IF x.t # e.t THEN "dtype"
  ELSE IF x.s # e.s THEN "shape"
  ELSE IF \A k \in 1..Len(e.d) : Near(e.d[k], x.d[k], e.t) THEN "ok" ELSE "value"

\* what the specification decides, completed by what was recorded
Merge(op, e, rec) ==
  IF IsUndef(e) THEN rec
  ELSE IF e.t # rec.t \/ e.s # rec.s \/ op \in TFMove THEN e
  ELSE T(e.t, e.s, Force([k \in 1..Len(e.d) |-> IF IsOp(e.d[k]) THEN rec.d[k] ELSE e.d[k]]))
Decided(op, e) == IF IsUndef(e) THEN FALSE ELSE op \in TFMove \/ \A k \in 1..Len(e.d) : ~IsOp(e.d[k])

Note(k, s) == PrintT(k \o "|" \o ToString(Cases[c].id) \o "|" \o ToString(r) \o s)

Step ==
  /\ pc <= Len(Cases[c].g.nodes)
  /\ LET n == Cases[c].g.nodes[pc]
         xs == Force([i \in 1..Len(n.in) |-> env[n.in[i]]])
         nout == Len(n.out)
         rec == Force([i \in 1..nout |-> IF n.op = "Const" THEN n.a["value"] ELSE Cases[c].runs[r].vals[n.out[i]]])
         ys == Eval(n.op, xs, n.a, nout)
         ms == Force([i \in 1..nout |-> Merge(n.op, ys[i], rec[i])])
         bad == {i \in 1..nout : Clause(ms[i], rec[i]) # "ok"}
     IN IF bad # {} THEN /\ Note("SPEC", "|" \o n.op \o "|" \o ToString(pc) \o "|" \o Clause(ms[CHOOSE i \in bad : TRUE], rec[CHOOSE i \in bad : TRUE]))
                         /\ pc' = Len(Cases[c].g.nodes) + 2
                         /\ UNCHANGED <<env, nd>>
        ELSE /\ env' = BindAll(env, n.out, ms, 1)
             /\ pc' = pc + 1
             /\ nd' = nd + (IF n.op = "Const" THEN 0 ELSE Cardinality({i \in 1..nout : Decided(n.op, ys[i])}))
  /\ UNCHANGED <<c, r>>

Fails(o) ==
  LET want == Cases[c].g.out
  IN IF o.err # "" THEN <<<<0, o.err>>>>
     ELSE IF Len(o.outs) # Len(want) THEN <<<<0, "count">>>>
     ELSE SelectSeq(Force([i \in 1..Len(want) |-> <<i, Clause(env[want[i]], o.outs[i])>>]), LAMBDA f : f[2] # "ok")

Judge ==
  /\ pc = Len(Cases[c].g.nodes) + 1
  /\ LET ob == Cases[c].runs[r].obs
     IN /\ \A j \in 1..Len(ob) :
             LET f == Fails(ob[j])
             IN IF f = <<>> THEN TRUE ELSE Note("BAD", "|" \o ob[j].k \o "|" \o ToString(f[1][1]) \o "|" \o f[1][2])
        /\ Note("DONE", "|" \o ToString(nd))
  /\ pc' = pc + 1
  /\ UNCHANGED <<c, r, env, nd>>

Next == Step \/ Judge
=============================================================================
