------------------------------ MODULE RoundTrip ------------------------------
(***************************************************************************)
(* Loading a model into the graph representation and exporting it again is *)
(* the identity on models, up to what no output depends on and up to where *)
(* constants are kept.  A model is a tree of graphs                        *)
(*   [ins, outs : <<[n, t, d, init]>>, consts : <<[n, v]>>,                *)
(*    nodes : <<[op, dom, ins, outs, attrs : <<[n, v]>>,                   *)
(*               bodies : <<[n, g]>>]>>]                                   *)
(* Values are opaque (fingerprints made by the harness); -1 in d is an     *)
(* unknown dimension, t = "0" is "not declared", d of unknown rank is <<-2>>.*)
(* The specification gives, for a source model, the set of exported models *)
(* it allows; every exported model recorded from the code must be in it.   *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANT File
Cases == JsonDeserialize(File)   \* [id, src : model, res : <<[k, err, m : model]>>]
Elems(s) == {s[j] : j \in DOMAIN s}

(* what a graph (with its bodies) uses from outside *)
RECURSIVE Free(_)
NodeUses(n) == (Elems(n.ins) \ {""}) \cup UNION {Free(b.g) : b \in Elems(n.bodies)}
Names(g) == {x.n : x \in Elems(g.ins)} \cup {x.n : x \in Elems(g.consts)} \cup UNION {Elems(n.outs) : n \in Elems(g.nodes)}
Free(g) == ({o.n : o \in Elems(g.outs)} \cup UNION {NodeUses(n) : n \in Elems(g.nodes)}) \ Names(g)

(* least sets closed under "an output depends on it", bodies pruned likewise *)
RECURSIVE Close(_, _), LiveFree(_)
LiveUses(n) == (Elems(n.ins) \ {""}) \cup UNION {LiveFree(b.g) : b \in Elems(n.bodies)}
Close(g, T) == LET U == T \cup UNION {LiveUses(n) : n \in {m \in Elems(g.nodes) : Elems(m.outs) \cap T # {}}}
               IN IF U = T THEN T ELSE Close(g, U)
Need(g) == Close(g, {o.n : o \in Elems(g.outs)})
LiveFree(g) == Need(g) \ Names(g)
LiveNodes(g) == LET T == Need(g) IN {n \in Elems(g.nodes) : Elems(n.outs) \cap T # {}}

KeyOf(n) == n.outs
(* the graph class gives every output a node of its own: out = Identity(raw), raw a new name, and whoever used out  *)
(* uses raw. Undone here: raw is called out again, here and in the bodies.                                          *)
RECURSIVE Renamed(_, _, _), Undo(_, _, _)
Ren(x, a, b) == IF x = a THEN b ELSE x
RenSeq(s, a, b) == [k \in DOMAIN s |-> Ren(s[k], a, b)]
RenNode(n, a, b) == [n EXCEPT !.ins = RenSeq(n.ins, a, b), !.outs = RenSeq(n.outs, a, b),
                              !.bodies = [k \in DOMAIN n.bodies |-> [n.bodies[k] EXCEPT !.g = Renamed(n.bodies[k].g, a, b)]]]
Renamed(g, a, b) == IF a \notin Free(g) THEN g
                    ELSE [g EXCEPT !.nodes = [k \in DOMAIN g.nodes |-> RenNode(g.nodes[k], a, b)],
                                   !.outs = [k \in DOMAIN g.outs |-> [g.outs[k] EXCEPT !.n = Ren(@, a, b)]]]
OpOf(g, t) == LET ns == {n \in Elems(g.nodes) : t \in Elems(n.outs)} IN IF ns = {} THEN <<>> ELSE LET n == CHOOSE n \in ns : TRUE IN <<n.op, n.ins, CHOOSE k \in DOMAIN n.outs : n.outs[k] = t>>
Undo(g, s, old) ==
  LET made == UNION {Elems(n.outs) : n \in Elems(g.nodes)} \cup {x.n : x \in Elems(g.consts)}
      ids == {k \in DOMAIN g.nodes : g.nodes[k].op = "Identity" /\ g.nodes[k].dom = "" /\ Len(g.nodes[k].ins) = 1
                                     /\ g.nodes[k].ins[1] \notin old /\ g.nodes[k].ins[1] \in made
                                     /\ g.nodes[k].outs[1] \in old /\ OpOf(s, g.nodes[k].outs[1]) = OpOf(g, g.nodes[k].ins[1])}
  IN IF ids = {} THEN g
     ELSE LET k == CHOOSE k \in ids : TRUE
              a == g.nodes[k].ins[1]
              b == g.nodes[k].outs[1]
              rest == SelectSeq([j \in DOMAIN g.nodes |-> [i |-> j, n |-> g.nodes[j]]], LAMBDA x : x.i # k)
          IN Undo([g EXCEPT !.nodes = [j \in DOMAIN rest |-> RenNode(rest[j].n, a, b)],
                            !.consts = [j \in DOMAIN g.consts |-> [g.consts[j] EXCEPT !.n = Ren(@, a, b)]]], s, old)
(* declared dimensions stay, undeclared ones may be filled in *)
DimsOk(a, b) == \/ a = <<-2>>
                \/ b # <<-2>> /\ Len(a) = Len(b) /\ \A k \in DOMAIN a : a[k] = -1 \/ a[k] = b[k]
InSame(a, b) == a.n = b.n /\ (a.t = "0" \/ a.t = b.t) /\ (a.d = <<-2>> \/ DimsOk(a.d, b.d))
IOSame(p, q) == Len(p) = Len(q) /\ \A k \in DOMAIN p : InSame(p[k], q[k])
Required(s) == SelectSeq(s, LAMBDA x : ~x.init)

RECURSIVE Differs(_, _, _)       \* "" or what is wrong with the exported graph x of source s; old: all names of the source
NodeDiffers(a, b, old) ==
  IF a.op # b.op \/ a.dom # b.dom THEN "operator of " \o a.op
  ELSE IF a.ins # b.ins THEN "inputs of " \o a.op
  ELSE IF Elems(a.attrs) # Elems(b.attrs) THEN "attributes of " \o a.op
  ELSE IF {x.n : x \in Elems(a.bodies)} # {x.n : x \in Elems(b.bodies)} THEN "bodies of " \o a.op
  ELSE LET bad == {d \in {Differs(x.g, (CHOOSE y \in Elems(b.bodies) : y.n = x.n).g, old) : x \in Elems(a.bodies)} : d # ""}
       IN IF bad = {} THEN "" ELSE "body of " \o a.op \o ": " \o CHOOSE d \in bad : TRUE
Differs(s, x0, old) ==
  LET r == Undo(x0, s, old)
      live == LiveNodes(s)
      need == Need(s)
      rk == [n \in Elems(r.nodes) |-> KeyOf(n)]
      sk == {KeyOf(n) : n \in Elems(s.nodes)}
      missing == {n \in live : KeyOf(n) \notin {rk[m] : m \in DOMAIN rk}}
      extra == {n \in Elems(r.nodes) : KeyOf(n) \notin sk}
      nodebad == {NodeDiffers(CHOOSE a \in Elems(s.nodes) : KeyOf(a) = KeyOf(n), n, old) : n \in Elems(r.nodes) \ extra} \ {""}
      cmiss == {x \in Elems(s.consts) : x.n \in need /\ ~\E y \in Elems(r.consts) : y.n = x.n}
      cbad == {y \in Elems(r.consts) : ~\E x \in Elems(s.consts) : x.n = y.n /\ x.v = y.v}
  IN IF ~IOSame(Required(s.ins), Required(r.ins)) THEN "inputs"
     ELSE IF ~IOSame(s.outs, r.outs) THEN "outputs"
     ELSE IF missing # {} THEN "lost a node: " \o (CHOOSE n \in missing : TRUE).op
     ELSE IF extra # {} THEN "new node: " \o (CHOOSE n \in extra : TRUE).op
     ELSE IF Cardinality(DOMAIN rk) # Len(r.nodes) THEN "node twice"
     ELSE IF nodebad # {} THEN CHOOSE d \in nodebad : TRUE
     ELSE IF cmiss # {} THEN "lost a constant"
     ELSE IF cbad # {} THEN "value of a constant"
     ELSE IF Cardinality({x.n : x \in Elems(r.consts)}) # Len(r.consts) THEN "constant twice"
     ELSE ""
RECURSIVE AllNames(_)
AllNames(g) == Names(g) \cup UNION {UNION {AllNames(b.g) : b \in Elems(n.bodies)} : n \in Elems(g.nodes)}
Verdict(s, r) == IF Elems(s.imports) # Elems(r.imports) THEN "opset imports" ELSE Differs(s.g, r.g, AllNames(s.g))

VARIABLES c, i
vars == <<c, i>>
Init == c \in 1..Len(Cases) /\ i = 1
Next == /\ i <= Len(Cases[c].res)
        /\ LET o == Cases[c].res[i]
               v == IF o.err # "" THEN o.err ELSE Verdict(Cases[c].src, o.m)
           IN IF v = "" THEN PrintT("OK|" \o Cases[c].id \o "|" \o o.k) ELSE PrintT("BAD|" \o Cases[c].id \o "|" \o o.k \o "|" \o v)
        /\ i' = i + 1 /\ UNCHANGED c
=============================================================================
