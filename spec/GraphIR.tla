------------------------------ MODULE GraphIR ------------------------------
(***************************************************************************)
(* The converter's graph container as an abstract data type.               *)
(*                                                                         *)
(* State: a family of graphs, each a set of nodes with ordered inputs,     *)
(* outputs and nested bodies, plus what is known about shape and element   *)
(* type of its tensors.  There are no indexes in this state: every query   *)
(* (producer, consumers, shape, ...) is a definition over the nodes, which *)
(* is what the redundant indexes of tf2onnx/graph.py must agree with.      *)
(*                                                                         *)
(* Every public editing call is an operator Apply(gs, call).               *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC

Range(s) == {s[k] : k \in DOMAIN s}
Empty == [x \in {} |-> ""]
Without(f, S) == [x \in (DOMAIN f) \ S |-> f[x]]
Put(f, k, v) == [x \in (DOMAIN f) \cup {k} |-> IF x = k THEN v ELSE f[x]]

NewGraph == [nodes |-> {}, outs |-> <<>>, ins |-> <<>>, sh |-> Empty, dt |-> Empty, parent |-> ""]

\* --------------------------------------------------------------- queries
Named(gs, g, nm) == {n \in gs[g].nodes : n.n = nm}
HasName(gs, g, nm) == Named(gs, g, nm) # {}
Node(gs, g, nm) == CHOOSE n \in gs[g].nodes : n.n = nm
Producers(gs, g, t) == {n \in gs[g].nodes : t \in Range(n.o)}
HasProd(gs, g, t) == t # "" /\ Producers(gs, g, t) # {}
Bodies(gs, g) == UNION {Range(n.b) : n \in gs[g].nodes}

\* the producer of a tensor visible in graph g: in g itself or the nearest enclosing graph that has one
RECURSIVE Prod(_, _, _)
Prod(gs, g, t) == IF HasProd(gs, g, t) THEN <<g, (CHOOSE n \in Producers(gs, g, t) : TRUE).n>>
                  ELSE IF gs[g].parent = "" THEN <<"", "">> ELSE Prod(gs, gs[g].parent, t)

\* all consumers of a tensor visible in g, down to nested bodies that do not have an own tensor of that name
RECURSIVE Cons(_, _, _)
Cons(gs, g, t) == {<<g, n.n>> : n \in {m \in gs[g].nodes : t \in Range(m.i)}}
                  \cup UNION {IF HasProd(gs, b, t) THEN {} ELSE Cons(gs, b, t) : b \in Bodies(gs, g)}

ShapeOf(gs, g, t) == LET p == Prod(gs, g, t) IN IF p[1] = "" \/ t \notin DOMAIN gs[p[1]].sh THEN "null" ELSE gs[p[1]].sh[t]
DtypeOf(gs, g, t) == LET p == Prod(gs, g, t) IN IF p[1] = "" \/ t \notin DOMAIN gs[p[1]].dt THEN "null" ELSE gs[p[1]].dt[t]

\* tensors a node uses: its inputs and everything its bodies take from outside themselves
RECURSIVE Captured(_, _)
Captured(gs, g) == {t \in UNION {Range(n.i) \cup UNION {Captured(gs, b) : b \in Range(n.b)} : n \in gs[g].nodes} :
                      t # "" /\ ~HasProd(gs, g, t)}
Uses(gs, n) == Range(n.i) \cup UNION {Captured(gs, b) : b \in Range(n.b)}

\* nodes of g that some of the named tensors depend on (within g)
RECURSIVE Closure(_, _, _)
Closure(gs, g, S) == LET T == S \cup UNION {UNION {Producers(gs, g, t) : t \in Uses(gs, n) \ {""}} : n \in S}
                     IN IF T = S THEN S ELSE Closure(gs, g, T)
Needed(gs, g, outs) == Closure(gs, g, UNION {Producers(gs, g, t) : t \in outs \ {""}})

\* the same, not going through the nodes named in R
RECURSIVE ClosureX(_, _, _, _)
ClosureX(gs, g, S, R) == LET T == S \cup {n \in UNION {UNION {Producers(gs, g, t) : t \in Uses(gs, n) \ {""}} : n \in S} : n.n \notin R}
                         IN IF T = S THEN S ELSE ClosureX(gs, g, T, R)
NeededX(gs, g, outs, R) == ClosureX(gs, g, {n \in UNION {Producers(gs, g, t) : t \in outs \ {""}} : n.n \notin R}, R)

\* ----------------------------------------------------------------- edits
SetG(gs, g, r) == [gs EXCEPT ![g] = r]
Ok(gs) == [gs |-> gs, err |-> FALSE, ret |-> "-", rs |-> {"-"}]
Ret(gs, r) == [gs |-> gs, err |-> FALSE, ret |-> r, rs |-> {"-"}]
RetSet(gs, S) == [gs |-> gs, err |-> FALSE, ret |-> "-", rs |-> S]
Reject(gs) == [gs |-> gs, err |-> TRUE, ret |-> "-", rs |-> {"-"}]

PutNode(gs, g, n) == SetG(gs, g, [gs[g] EXCEPT !.nodes = {m \in gs[g].nodes : m.n # n.n} \cup {n}])

SetShape(gs, g, t, v) == LET p == Prod(gs, g, t)[1] IN [gs EXCEPT ![p].sh = Put(gs[p].sh, t, v)]
SetDtype(gs, g, t, v) == LET p == Prod(gs, g, t)[1] IN [gs EXCEPT ![p].dt = Put(gs[p].dt, t, v)]

RECURSIVE SetAll(_, _, _, _, _, _)
SetAll(gs, g, outs, shs, dts, k) ==
  IF k > Len(outs) THEN gs
  ELSE LET a == IF shs = <<>> THEN gs ELSE SetShape(gs, g, outs[k], shs[k])
           b == IF dts = <<>> THEN a ELSE SetDtype(a, g, outs[k], dts[k])
       IN SetAll(b, g, outs, shs, dts, k + 1)

RECURSIVE Adopt(_, _, _, _)
Adopt(gs, g, bs, k) == IF k > Len(bs) THEN gs ELSE Adopt([gs EXCEPT ![bs[k]].parent = g], g, bs, k + 1)

CanMake(gs, g, nm, outs) == ~HasName(gs, g, nm) /\ \A k \in 1..Len(outs) : ~HasProd(gs, g, outs[k])
Make(gs, g, nm, ty, ins, outs, bs, shs, dts) ==
  LET a == PutNode(gs, g, [n |-> nm, t |-> ty, i |-> ins, o |-> outs, b |-> bs])
  IN SetAll(Adopt(a, g, bs, 1), g, outs, shs, dts, 1)

Remove(gs, g, nm) ==
  LET n == Node(gs, g, nm)
  IN SetG(gs, g, [gs[g] EXCEPT !.nodes = {m \in gs[g].nodes : m.n # nm},
                               !.ins = SelectSeq(gs[g].ins, LAMBDA x : x # nm),
                               !.sh = Without(gs[g].sh, Range(n.o)), !.dt = Without(gs[g].dt, Range(n.o))])

RECURSIVE RemoveAll(_, _, _)
RemoveAll(gs, g, S) == IF S = {} THEN gs ELSE LET x == CHOOSE x \in S : TRUE IN RemoveAll(Remove(gs, g, x), g, S \ {x})

SubstAll(s, old, new) == [k \in 1..Len(s) |-> IF s[k] = old THEN new ELSE s[k]]
\* rewires the named consumers in g (all of them if all) and every consumer in bodies
RECURSIVE Rewire(_, _, _, _, _, _)
RECURSIVE RewireBodies(_, _, _, _)
RewireBodies(gs, bs, old, new) ==
  IF bs = {} THEN gs
  ELSE LET b == CHOOSE b \in bs : TRUE
       IN RewireBodies(IF HasProd(gs, b, old) THEN gs ELSE Rewire(gs, b, old, new, TRUE, {}), bs \ {b}, old, new)
Rewire(gs, g, old, new, all, names) ==
  LET a == SetG(gs, g, [gs[g] EXCEPT !.nodes = {IF all \/ n.n \in names THEN [n EXCEPT !.i = SubstAll(n.i, old, new)] ELSE n : n \in gs[g].nodes}])
  IN RewireBodies(a, Bodies(gs, g), old, new)
Circle(gs, g, old, new, all, names) == \E n \in gs[g].nodes : (all \/ n.n \in names) /\ old \in Range(n.i) /\ new \in Range(n.o)

Ren(map, t) == IF t \in DOMAIN map THEN map[t] ELSE t
RenSeq(map, s) == [k \in 1..Len(s) |-> Ren(map, s[k])]
RenFun(map, f) == [x \in {Ren(map, k) : k \in DOMAIN f} |-> f[CHOOSE k \in DOMAIN f : Ren(map, k) = x]]
RECURSIVE RenameBodies(_, _, _)
RECURSIVE RenameIn(_, _, _)
RenameIn(gs, g, map) ==
  RenameBodies(SetG(gs, g, [gs[g] EXCEPT !.nodes = {[n EXCEPT !.i = RenSeq(map, n.i), !.o = RenSeq(map, n.o)] : n \in gs[g].nodes},
                                         !.outs = RenSeq(map, gs[g].outs), !.sh = RenFun(map, gs[g].sh), !.dt = RenFun(map, gs[g].dt)]),
               Bodies(gs, g), map)
RenameBodies(gs, bs, map) ==
  IF bs = {} THEN gs
  ELSE LET b == CHOOSE b \in bs : TRUE
           own == {t \in DOMAIN map : HasProd(gs, b, t)}
       IN RenameBodies(RenameIn(gs, b, Without(map, own)), bs \ {b}, map)

\* pruning: bodies first, then the nodes outside that nothing needs
RECURSIVE Prune(_, _, _)
RECURSIVE PruneBodies(_, _)
PruneBodies(gs, bs) == IF bs = {} THEN gs ELSE LET b == CHOOSE b \in bs : TRUE IN PruneBodies(Prune(gs, b, Range(gs[b].outs)), bs \ {b})
InputTensors(gs, g) == UNION {Range(n.o) : n \in {m \in gs[g].nodes : m.n \in Range(gs[g].ins)}}
Prune(gs, g, outs) ==
  IF outs = {} THEN gs
  ELSE LET a == PruneBodies(gs, Bodies(gs, g))
           keep == Needed(a, g, outs \cup InputTensors(a, g))
           dead == UNION {Range(n.o) : n \in a[g].nodes \ keep}
       IN SetG(a, g, [a[g] EXCEPT !.nodes = keep, !.sh = Without(a[g].sh, dead), !.dt = Without(a[g].dt, dead)])

\* ------------------------------------------------- the editing interface
FirstAt(s, x) == CHOOSE k \in 1..Len(s) : s[k] = x /\ \A j \in 1..(k - 1) : s[j] # x
DropAt(s, k) == SubSeq(s, 1, k - 1) \o SubSeq(s, k + 1, Len(s))
Count(s, x) == Cardinality({k \in 1..Len(s) : s[k] = x})
MapOf(prs) == [x \in {prs[k][1] : k \in 1..Len(prs)} |-> (CHOOSE k \in 1..Len(prs) : prs[k][1] = x) ]
RenMap(prs) == LET m == MapOf(prs) IN [x \in DOMAIN m |-> prs[m[x]][2]]

Apply(gs, s) ==
  LET g == s.g IN
  CASE s.op = "new_graph" -> Ok(Put(gs, s.g, NewGraph))
    [] s.op = "make_node" ->
         IF CanMake(gs, g, s.name, s.outs) THEN Ok(Make(gs, g, s.name, s.type, s.ins, s.outs, s.bodies, s.shapes, s.dtypes)) ELSE Reject(gs)
    [] s.op = "add_graph_input" ->
         IF CanMake(gs, g, s.name, <<s.t>>)
         THEN LET a == Make(gs, g, s.name, "Placeholder", <<>>, <<s.t>>, <<>>, <<s.shape>>, <<s.dtype>>) IN Ok([a EXCEPT ![g].ins = Append(@, s.name)])
         ELSE Reject(gs)
    [] s.op = "add_graph_input_with_default" ->   \* the default value's tensor is given a name of its own
         LET b == PutNode(gs, g, [Node(gs, g, s.const) EXCEPT !.o = <<s.ct>>])
             a == Make(b, g, s.name, "PlaceholderWithDefault", <<s.ct>>, <<s.t>>, <<>>, <<s.shape>>, <<s.dtype>>)
         IN Ok([a EXCEPT ![g].ins = Append(@, s.name)])
    [] s.op = "add_graph_output" ->
         IF ~HasProd(gs, g, s.t) \/ s.t \in Range(gs[g].outs) THEN Reject(gs)
         ELSE LET sh == IF s.shape = "null" THEN ShapeOf(gs, g, s.t) ELSE s.shape
                  dt == IF s.dtype = "null" THEN DtypeOf(gs, g, s.t) ELSE s.dtype
              IN IF sh = "null" \/ dt = "null" THEN Reject(gs)
                 ELSE LET a == SetDtype(SetShape(gs, g, s.t, sh), g, s.t, dt) IN Ok([a EXCEPT ![g].outs = Append(@, s.t)])
    [] s.op = "remove_node" -> IF HasName(gs, g, s.name) THEN Ok(Remove(gs, g, s.name)) ELSE Reject(gs)
    [] s.op = "replace_input" ->
         LET n == Node(gs, g, s.name)
         IN IF s.idx = 0
            THEN Ret(PutNode(gs, g, [n EXCEPT !.i = SubstAll(n.i, s.old, s.new)]), IF s.old \in Range(n.i) THEN "True" ELSE "False")
            ELSE IF n.i[s.idx] # s.old THEN Reject(gs)
            ELSE Ret(PutNode(gs, g, [n EXCEPT !.i[s.idx] = s.new]), "True")
    [] s.op = "replace_inputs" -> Ok(PutNode(gs, g, [Node(gs, g, s.name) EXCEPT !.i = s.ins]))
    [] s.op = "remove_input" ->
         LET n == Node(gs, g, s.name)
         IN IF s.idx # 0 THEN Ok(PutNode(gs, g, [n EXCEPT !.i = DropAt(n.i, s.idx)]))
            ELSE IF s.old \notin Range(n.i) THEN Ok(gs)
            ELSE IF Count(n.i, s.old) > 1 THEN Reject(gs)
            ELSE Ok(PutNode(gs, g, [n EXCEPT !.i = DropAt(n.i, FirstAt(n.i, s.old))]))
    [] s.op = "replace_all_inputs" ->
         IF s.old = s.new THEN Ok(gs)
         ELSE IF Circle(gs, g, s.old, s.new, s.all, Range(s.names)) THEN Reject(gs)
         ELSE Ok(Rewire(gs, g, s.old, s.new, s.all, Range(s.names)))
    [] s.op = "insert_new_node_on_input" ->
         LET o == s.name2 \o ":0"
         IN IF ~CanMake(gs, g, s.name2, <<o>>) THEN Reject(gs)
            ELSE LET a == Make(gs, g, s.name2, s.type, s.ins, <<o>>, <<>>, <<>>, <<>>)
                     n == Node(a, g, s.name)
                 IN IF s.idx # 0 THEN Ok(PutNode(a, g, [n EXCEPT !.i[s.idx] = o]))
                    ELSE IF s.ins[1] \in Range(n.i) THEN Ok(PutNode(a, g, [n EXCEPT !.i[FirstAt(n.i, s.ins[1])] = o]))
                    ELSE Ok(a)
    [] s.op = "insert_new_node_on_output" ->
         LET o == s.name2 \o ":0"
         IN IF ~CanMake(gs, g, s.name2, <<o>>) THEN Reject(gs)
            ELSE LET a == Make(gs, g, s.name2, s.type, s.ins, <<o>>, <<>>, <<>>, <<>>)
                 IN Ok(Rewire(a, g, s.t, o, FALSE, {n.n : n \in a[g].nodes} \ {s.name2}))
    [] s.op = "insert_node_on_output" ->
         LET n == Node(gs, g, s.name) IN Ok(Rewire(gs, g, s.t, n.o[1], FALSE, {m.n : m \in gs[g].nodes} \ {s.name}))
    [] s.op = "rename_tensors" -> Ok(RenameIn(gs, g, RenMap(s.map)))
    [] s.op = "change_node_name" ->
         IF HasName(gs, g, s.name2) THEN Reject(gs)
         ELSE LET n == Node(gs, g, s.name)
                  no == [k \in 1..Len(n.o) |-> s.name2 \o ":" \o ToString(k - 1)]
                  m == [x \in Range(n.o) |-> no[FirstAt(n.o, x)]]
                  a == Make(Remove(gs, g, s.name), g, s.name2, n.t, n.i, no, n.b,
                            [k \in 1..Len(n.o) |-> ShapeOf(gs, g, n.o[k])], [k \in 1..Len(n.o) |-> DtypeOf(gs, g, n.o[k])])
                  RECURSIVE rw(_, _)
                  rw(x, k) == IF k > Len(n.o) THEN x ELSE rw(Rewire(x, g, n.o[k], no[k], TRUE, {}), k + 1)
              IN Ok([rw(a, 1) EXCEPT ![g].outs = RenSeq(m, @)])
    [] s.op = "set_outputs" -> Ok(PutNode(gs, g, [Node(gs, g, s.name) EXCEPT !.o = s.outs]))
    [] s.op = "set_body" ->
         LET n == Node(gs, g, s.name) IN Ok([PutNode(gs, g, [n EXCEPT !.b = Append(n.b, s.body)]) EXCEPT ![s.body].parent = g])
    [] s.op = "set_shape" -> IF Prod(gs, g, s.t)[1] = "" THEN Reject(gs) ELSE Ok(SetShape(gs, g, s.t, s.v))
    [] s.op = "set_dtype" -> IF Prod(gs, g, s.t)[1] = "" THEN Reject(gs) ELSE Ok(SetDtype(gs, g, s.t, s.v))
    [] s.op = "copy_shape" ->
         LET v == ShapeOf(gs, g, s.old)
         IN IF v = "null" THEN Ok(gs) ELSE IF Prod(gs, g, s.t)[1] = "" THEN Reject(gs) ELSE Ok(SetShape(gs, g, s.t, v))
    [] s.op = "safe_remove_nodes" ->
         LET D == Range(s.names)
             safe == {x \in D : \A t \in Range(Node(gs, g, x).o) : Cons(gs, g, t) \subseteq {<<g, y>> : y \in D}}
         IN Ok(RemoveAll(gs, g, safe))
    [] s.op = "is_safe_to_remove_nodes" ->
         LET D == Range(s.names)
         IN Ret(gs, IF \A x \in D : \A t \in Range(Node(gs, g, x).o) \ Range(s.ignore) : Cons(gs, g, t) \subseteq {<<g, y>> : y \in D} THEN "True" ELSE "False")
    [] s.op = "safe_to_remove_nodes" ->
         LET D == Range(s.names)
         IN RetSet(gs, {x \in D : \A t \in Range(Node(gs, g, x).o) : Cons(gs, g, t) \subseteq {<<g, y>> : y \in D}})
    [] s.op = "extract_sub_graph_nodes" ->
         RetSet(gs, {n.n : n \in NeededX(gs, g, Range(s.outs) \cup (IF s.keepins THEN InputTensors(gs, g) ELSE {}), Range(s.refuse))})
    [] s.op = "delete_unused_nodes" -> Ok(Prune(gs, g, Range(s.outs)))
    [] s.op = "set_graph_outputs" -> Ok([gs EXCEPT ![g].outs = s.outs])
    [] s.op = "topological_sort" -> Ok(gs)
    [] s.op = "reset_nodes" -> Ok(gs)

\* ------------------------------------------------------ what is observed
\* every query on the real graph next to the definition it has to match; "" or the query that disagrees
NodeView(n) == [n |-> n.n, t |-> n.t, i |-> n.i, o |-> n.o, b |-> n.b]
Disagreement(gs, ob) ==
  LET bad(q) ==
        LET g == q.g IN
        IF Cardinality(gs[g].nodes) # Len(q.nodes) \/ {NodeView(n) : n \in gs[g].nodes} # Range(q.nodes) THEN "nodes of graph"
        ELSE IF gs[g].outs # q.outs THEN "outputs"
        ELSE IF gs[g].ins # q.ins THEN "inputs"
        ELSE IF \E k \in 1..Len(q.byname) : q.byname[k][2] # (IF HasName(gs, g, q.byname[k][1]) THEN q.byname[k][1] ELSE "") THEN "node by name"
        ELSE IF \E k \in 1..Len(q.ts) : Prod(gs, g, q.ts[k].t) # q.ts[k].p THEN "producer"
        ELSE IF \E k \in 1..Len(q.ts) : LET S == Cons(gs, g, q.ts[k].t) IN S # Range(q.ts[k].c) \/ Cardinality(S) # Len(q.ts[k].c) THEN "consumers"
        ELSE IF \E k \in 1..Len(q.ts) : ShapeOf(gs, g, q.ts[k].t) # q.ts[k].s THEN "shape"
        ELSE IF \E k \in 1..Len(q.ts) : DtypeOf(gs, g, q.ts[k].t) # q.ts[k].d THEN "dtype"
        ELSE ""
      B == {k \in 1..Len(ob) : bad(ob[k]) # ""}
  IN IF B = {} THEN "" ELSE bad(ob[CHOOSE k \in B : TRUE])
=============================================================================
