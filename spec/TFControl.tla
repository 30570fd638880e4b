------------------------------ MODULE TFControl ------------------------------
(***************************************************************************)
(* Denotation of TensorFlow's structured control flow: loops with state    *)
(* variables, arrays read and written and an iteration limit; conditionals *)
(* and case distinctions; map, scan and fold; calls of functions.          *)
(* A sub-program is [in: formals, nodes, out]; the tensors it uses of the  *)
(* scopes around it are named by a["caps"] and are the operator's last     *)
(* inputs.  A tensor array is the tensor of its elements; elements never   *)
(* written are zero.                                                       *)
(***************************************************************************)
EXTENDS TFSem

Control == {"While", "Cond", "Switch", "MapFn", "ScanFn", "Foldl", "Call", "TARead", "TAWrite"}
MaxSteps == 40

RowOf(x, i) == LET m == SizeOf(Tail(x.s)) IN T(x.t, Tail(x.s), SubSeq(x.d, i * m + 1, (i + 1) * m))
SetRow(x, i, v) == LET m == SizeOf(Tail(x.s)) IN T(x.t, x.s, Force([k \in 1..Len(x.d) |-> IF k > i * m /\ k <= (i + 1) * m THEN v.d[k - i * m] ELSE x.d[k]]))
StackRows(t, s, rows) == IF Len(rows) = 0 THEN T(t, <<0>> \o s, <<>>)
                         ELSE T(rows[1].t, <<Len(rows)>> \o rows[1].s, FoldLeft(LAMBDA acc, q : acc \o q.d, <<>>, rows))
Group(xs, cnt, j) == LET b == FoldLeft(LAMBDA acc, k : acc + cnt[k], 0, Force([k \in 1..(j - 1) |-> k])) IN SubSeq(xs, b + 1, b + cnt[j])
Undefs(n) == Force([i \in 1..n |-> Undef])
HasUndef(q) == \E i \in 1..Len(q) : IsUndef(q[i])

RECURSIVE Eval(_, _, _, _)
RECURSIVE RunNodes(_, _, _)
RECURSIVE Iterate(_, _, _, _, _, _, _)

RunNodes(ns, k, env) ==
  IF k > Len(ns) THEN env
  ELSE LET n == ns[k]
           xs == Force([i \in 1..Len(n.in) |-> env[n.in[i]]])
           ys == IF HasUndef(xs) THEN Undefs(Len(n.out)) ELSE Eval(n.op, xs, n.a, Len(n.out))
       IN RunNodes(ns, k + 1, BindAll(env, n.out, ys, 1))
RunSub(g, args, cn, cv) ==
  LET env == RunNodes(g.nodes, 1, BindAll(BindAll(<<>>, cn, cv, 1), g.in, args, 1))
  IN Force([i \in 1..Len(g.out) |-> env[g.out[i]]])

\* state st = variables \o arrays written
Iterate(a, nv, st, reads, caps, k, mx) ==
  LET vars == SubSeq(st, 1, nv)
      c == RunSub(a["cond"], vars, a["caps"], caps)[1]
  IN IF IsUndef(c) \/ k > MaxSteps THEN Undefs(Len(st))
     ELSE IF IsOp(c.d[1]) THEN Undefs(Len(st))
     ELSE IF c.d[1] = 0 \/ (mx >= 0 /\ k >= mx) THEN st
     ELSE LET o == RunSub(a["body"], vars \o reads \o SubSeq(st, nv + 1, Len(st)), a["caps"], caps)
          IN IF \E i \in 1..Len(o) : IsUndef(o[i]) THEN Undefs(Len(st)) ELSE Iterate(a, nv, o, reads, caps, k + 1, mx)

\* state, elements so far -> state, elements: folds the body over the rows of xs
RECURSIVE OverRows(_, _, _, _, _, _)
OverRows(a, xs, order, st, outs, caps) ==
  IF order = <<>> THEN <<st, outs>>
  ELSE LET es == Force([j \in 1..Len(xs) |-> RowOf(xs[j], Head(order))])
           o == RunSub(a["body"], st \o es, a["caps"], caps)
       IN OverRows(a, xs, Tail(order), o, outs \o <<o>>, caps)
Rev(q) == Force([i \in 1..Len(q) |-> q[Len(q) + 1 - i]])

Eval(op, xs, a, nout) ==
  CASE op = "While" ->
         LET c == a["cnt"]
             vs == Group(xs, c, 1) rs == Group(xs, c, 2) sz == Group(xs, c, 3) mx == Group(xs, c, 4) cp == Group(xs, c, 5)
             ws == Force([j \in 1..Len(sz) |-> T(a["elems"][j].t, <<sz[j].d[1]>> \o a["elems"][j].s, Const(sz[j].d[1] * SizeOf(a["elems"][j].s), 0))])
         IN Iterate(a, Len(vs), vs \o ws, rs, cp, 0, IF mx = <<>> THEN -1 ELSE mx[1].d[1])
    [] op = "Cond" ->
         LET cp == Group(xs, a["cnt"], 2)
         IN IF IsOp(xs[1].d[1]) THEN Undefs(nout) ELSE RunSub(IF xs[1].d[1] = 1 THEN a["then"] ELSE a["else"], <<>>, a["caps"], cp)
    [] op = "Switch" ->
         LET cp == Group(xs, a["cnt"], 2)
             n == Len(a["n"])
             i == xs[1].d[1]
             k == IF i < 0 \/ i >= n THEN n - 1 ELSE i
         IN IF IsOp(i) THEN Undefs(nout) ELSE RunSub(a[a["n"][k + 1]], <<>>, a["caps"], cp)
    [] op = "MapFn" ->
         LET es == Group(xs, a["cnt"], 1)
             n == es[1].s[1]
             rs == Force([i \in 1..n |-> RunSub(a["body"], Force([j \in 1..Len(es) |-> RowOf(es[j], i - 1)]), a["caps"], Group(xs, a["cnt"], 2))])
         IN IF \E i \in 1..n : HasUndef(rs[i]) THEN Undefs(nout)
            ELSE Force([j \in 1..nout |-> StackRows(a["elems"][j].t, a["elems"][j].s, Force([i \in 1..n |-> rs[i][j]]))])
    [] op \in {"ScanFn", "Foldl"} ->
         LET es == Group(xs, a["cnt"], 1)
             init == Group(xs, a["cnt"], 2)
             n == es[1].s[1]
             order == IF a["reverse"] = 1 THEN Rev(Iota(n)) ELSE Iota(n)
             r == OverRows(a, es, order, init, <<>>, Group(xs, a["cnt"], 3))
             q == IF a["reverse"] = 1 THEN Rev(r[2]) ELSE r[2]
         IN IF HasUndef(r[1]) THEN Undefs(nout)
            ELSE IF op = "Foldl" THEN r[1]
            ELSE Force([j \in 1..nout |-> StackRows(init[j].t, init[j].s, Force([i \in 1..n |-> q[i][j]]))])
    [] op = "Call" -> RunSub(a["body"], Group(xs, a["cnt"], 1), <<>>, <<>>)
    [] op = "TARead" -> <<RowOf(xs[1], xs[2].d[1])>>
    [] op = "TAWrite" -> <<SetRow(xs[1], xs[2].d[1], xs[3])>>
    [] op = "Const" -> <<a["value"]>>
    [] OTHER -> TFApply(op, xs, a, nout)
=============================================================================
