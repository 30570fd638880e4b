------------------------------ MODULE OptTrace ------------------------------
(***************************************************************************)
(* Abstract machine that executes source models node by node, and the      *)
(* acceptance rule for every model derived from them (optimized, exported, *)
(* re-loaded ...): each derived model must show the outputs the machine    *)
(* computed for the source.                                                *)
(*                                                                         *)
(* The cases are read from a JSON file recorded by the driver:             *)
(*   [id, opset, g, runs: <<[ins, obs: <<[k, err, outs]>>]>>]              *)
(* obs[1] is the source model itself executed by the runtime; it anchors   *)
(* the specification: where machine and runtime disagree on the source the *)
(* case is reported as SPEC (a modelling error), never as a violation.     *)
(***************************************************************************)
EXTENDS OnnxSem, Json, IOUtils, TLCExt

CONSTANT File
Cases == JsonDeserialize(File)

VARIABLES c,    \* case
          r,    \* run (input vector) of the case
          pc,   \* next node
          env   \* name -> tensor
vars == <<c, r, pc, env>>

Init == /\ c \in 1..Len(Cases)
        /\ r \in 1..Len(Cases[c].runs)
        /\ pc = 1
        /\ env = BindAll(<<>>, Cases[c].g.in, Cases[c].runs[r].ins, 1)

\* one node of the source model fires
Step == /\ pc <= Len(Cases[c].g.nodes)
        /\ env' = StepNode(Cases[c].g.nodes[pc], env, Cases[c].opset)
        /\ pc' = pc + 1
        /\ UNCHANGED <<c, r>>

\* opaque code of an integer value, and tolerance of float comparison (relative 5e-5)
Code(u) == IF u >= Opaque THEN u ELSE 1050000000 + 1000 * MaxI(-450, MinI(450, u))
Near(u, v, t) == \/ u = v
                 \/ /\ IsFloat(t) /\ u < 2000000000 /\ v < 2000000000 /\ (u >= Opaque \/ v >= Opaque)
                    /\ AbsI(Code(u) - Code(v)) <= 2 + AbsI(Code(v) - 1050000000) \div 20000
SameData(a, b, t) == \A k \in 1..Len(a) : Near(a[k], b[k], t)
\* the clause by which observed output x fails to be the expected tensor e, or "ok"
Clause(e, x) ==
  IF x.t # e.t THEN "dtype"
  ELSE IF x.s # e.s THEN "shape"
  ELSE IF SameData(e.d, x.d, e.t) THEN "ok" ELSE "value"

ClauseAt(i, src, x) ==
  LET v == Lookup(env, Cases[c].g.out[i])
  IN IF IsFree(v) THEN IF x.t # src[i].t THEN "dtype" ELSE IF x.d # <<>> THEN "value" ELSE "ok"
     ELSE Clause(IF IsUndef(v) THEN src[i] ELSE v, x)
Fails(o, src) ==
  IF o.err # "" THEN <<<<0, o.err>>>>
  ELSE IF Len(o.outs) # Len(src) THEN <<<<0, "count">>>>
  ELSE SelectSeq(Force([i \in 1..Len(src) |-> <<i, ClauseAt(i, src, o.outs[i])>>]), LAMBDA f : f[2] # "ok")

\* an empty tensor of rank 2 or more (set aside where the property speaks about non-empty tensors)
IsEmptyT(x) == Len(x.s) >= 2 /\ \E i \in 1..Len(x.s) : x.s[i] = 0

Defined == Cardinality({i \in 1..Len(Cases[c].g.out) : ~IsUndef(Lookup(env, Cases[c].g.out[i]))})

Judge ==
  /\ pc = Len(Cases[c].g.nodes) + 1
  /\ LET ob == Cases[c].runs[r].obs
         src == ob[1].outs
         f0 == Fails(ob[1], src)
     IN IF \E nm \in DOMAIN env : IsInv(env[nm]) \/ (Cases[c].noempty /\ IsEmptyT(env[nm]))
        THEN PrintT("SKIP|" \o ToString(Cases[c].id) \o "|" \o ToString(r))
        ELSE IF f0 # <<>>
        THEN PrintT("SPEC|" \o ToString(Cases[c].id) \o "|" \o ToString(r) \o "|" \o ToString(f0[1][1]) \o "|" \o f0[1][2])
        ELSE /\ \A j \in 2..Len(ob) :
                  LET f == Fails(ob[j], src)
                  IN IF f = <<>> THEN TRUE ELSE PrintT("BAD|" \o ToString(Cases[c].id) \o "|" \o ToString(r) \o "|" \o ob[j].k \o "|" \o
                                        ToString(f[1][1]) \o "|" \o f[1][2])
             /\ PrintT("DONE|" \o ToString(Cases[c].id) \o "|" \o ToString(r) \o "|" \o ToString(Defined) \o "|" \o ToString(Len(src)))
  /\ pc' = pc + 1
  /\ UNCHANGED <<c, r, env>>

Next == Step \/ Judge
Spec == Init /\ [][Next]_vars
=============================================================================
