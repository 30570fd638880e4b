------------------------------ MODULE OnnxSem ------------------------------
(***************************************************************************)
(* Denotation of ONNX operators and graphs over integer tensors.           *)
(*                                                                         *)
(* A node is [op, in, out, a]: operator type, input names ("" = omitted),  *)
(* output names, attribute record (only the attributes present in the      *)
(* model).  A graph is [in, out, nodes].  Where the operator's definition  *)
(* depends on the opset (attribute or input form), both forms are given.   *)
(* A result the integer fragment cannot express is Undef and is contagious.*)
(***************************************************************************)
EXTENDS Tensor

Undef == [t |-> "undef", s |-> <<>>, d |-> <<>>]
Inv == [t |-> "undef", s |-> <<1>>, d |-> <<>>]   \* an input the operator does not accept; also contagious
IsInv(x) == x.t = "undef" /\ x.s = <<1>>
Free == [t |-> "undef", s |-> <<0>>, d |-> <<>>]  \* an empty tensor whose further dimensions ONNX leaves open: scan output of no iterations
IsFree(x) == x.t = "undef" /\ x.s = <<0>>
None == [t |-> "none", s |-> <<>>, d |-> <<>>]
IsNone(x) == x.t = "none"
IsUndef(x) == x.t = "undef"
AnyUndef(xs) == \E i \in 1..Len(xs) : xs[i].t = "undef"

Opaque == 500000000         \* float values >= this are codes of non-integers (or NaN/Inf)
HasOpaque(xs) == \E i \in 1..Len(xs) : \E k \in 1..Len(xs[i].d) : AbsI(xs[i].d[k]) >= Opaque

Has(a, k) == k \in DOMAIN a
Opt(a, k, dflt) == IF k \in DOMAIN a THEN a[k] ELSE dflt
Arg(xs, i) == IF i <= Len(xs) THEN xs[i] ELSE None
\* axes given as attribute (old opsets) or as input
AxesOf(xs, a, pos, dflt) ==
  IF Has(a, "axes") THEN a["axes"]
  ELSE IF ~IsNone(Arg(xs, pos)) THEN xs[pos].d ELSE dflt

RoundHalfEven(n, den) ==  \* n / den, den > 0
  LET q == FDiv(n, den)
      r2 == 2 * (n - q * den)
  IN IF r2 < den THEN q ELSE IF r2 > den THEN q + 1 ELSE IF q % 2 = 0 THEN q ELSE q + 1
Saturate(v, t) == CASE t = "u8" -> MaxI(0, MinI(255, v)) [] t = "i8" -> MaxI(-128, MinI(127, v)) [] OTHER -> v

\* per-tensor or per-axis parameter broadcast against x
AxisParam(p, x, axis) ==
  IF Len(p.d) = 1 THEN BroadcastT(ReshapeTo(p, <<>>), x.s)
  ELSE LET r == Len(x.s)
           ax == NormAxis(axis, r) + 1
       IN BroadcastT(ReshapeTo(p, Force([i \in 1..r |-> IF i = ax THEN Len(p.d) ELSE 1])), x.s)

ReshapeOp(x, shp, allowzero) ==
  LET d0 == Force([i \in 1..Len(shp) |-> IF shp[i] = 0 /\ ~allowzero THEN x.s[i] ELSE shp[i]])
  IN ReshapeTo(x, FillMinus1(SizeOf(x.s), d0))

\* ONNX Slice: clamp rules
SliceOp(x, starts, ends, axes, steps) ==
  LET r == Len(x.s)
      At0(i) == \E k \in 1..Len(axes) : NormAxis(axes[k], r) + 1 = i
      K(i) == CHOOSE k \in 1..Len(axes) : NormAxis(axes[k], r) + 1 = i
      Clamp(v, lo, hi) == MaxI(lo, MinI(hi, v))
      St(i) == IF At0(i) THEN steps[K(i)] ELSE 1
      Beg(i) == IF ~At0(i) THEN 0
                ELSE LET n == x.s[i]
                         b == IF starts[K(i)] < 0 THEN starts[K(i)] + n ELSE starts[K(i)]
                     IN IF St(i) > 0 THEN Clamp(b, 0, n) ELSE Clamp(b, 0, n - 1)
      En(i) == IF ~At0(i) THEN x.s[i]
               ELSE LET n == x.s[i]
                        e == IF ends[K(i)] < 0 THEN ends[K(i)] + n ELSE ends[K(i)]
                    IN IF St(i) > 0 THEN Clamp(e, 0, n) ELSE Clamp(e, -1, n - 1)
      N(i) == MaxI(0, CDiv(En(i) - Beg(i), St(i)))
  IN StrideSliceT(x, Force([i \in 1..r |-> Beg(i)]), Force([i \in 1..r |-> St(i)]), Force([i \in 1..r |-> N(i)]))

\* spatial padding of Conv/Pool: <<begin, end>> per spatial dim
SpatialPads(a, xs_, ks, strides, dil) ==
  LET sp == Len(ks)
      ap == Opt(a, "auto_pad", "NOTSET")
      Tot(i) == MaxI(0, (CDiv(xs_[i + 2], strides[i]) - 1) * strides[i] + (ks[i] - 1) * dil[i] + 1 - xs_[i + 2])
  IN IF ap \in {"SAME_UPPER", "SAME_LOWER"}
     THEN <<Force([i \in 1..sp |-> IF ap = "SAME_UPPER" THEN Tot(i) \div 2 ELSE Tot(i) - Tot(i) \div 2]),
            Force([i \in 1..sp |-> IF ap = "SAME_UPPER" THEN Tot(i) - Tot(i) \div 2 ELSE Tot(i) \div 2])>>
     ELSE LET p == Opt(a, "pads", Const(2 * sp, 0)) IN <<SubSeq(p, 1, sp), SubSeq(p, sp + 1, 2 * sp)>>

ReduceFn(op, q) ==
  CASE op = "ReduceSum" -> SumS(q)
    [] op = "ReduceMax" -> MaxQ(q)
    [] op = "ReduceMin" -> MinQ(q)
    [] op = "ReduceProd" -> ProdS(q)
    [] op = "ReduceSumSquare" -> SumS([i \in 1..Len(q) |-> MulS(q[i], q[i])])
    [] op = "ReduceL1" -> SumS([i \in 1..Len(q) |-> AbsI(q[i])])
    [] op = "ReduceMean" -> FDiv(SumS(q), Len(q))
ReduceOps == {"ReduceSum", "ReduceMax", "ReduceMin", "ReduceProd", "ReduceSumSquare", "ReduceL1", "ReduceMean"}

UnaryFn(op, v) ==
  CASE op = "Neg" -> -v [] op = "Abs" -> AbsI(v) [] op = "Relu" -> MaxI(0, v) [] op = "Sign" -> SignI(v)
    [] op = "Not" -> 1 - v [] op \in {"Identity", "Floor", "Ceil", "Round"} -> v
UnaryOps == {"Neg", "Abs", "Relu", "Sign", "Not", "Identity", "Floor", "Ceil", "Round"}
BinFn(op, u, v) ==
  CASE op = "Add" -> AddS(u, v) [] op = "Sub" -> AddS(u, -v) [] op = "Mul" -> MulS(u, v)
    [] op = "Max" -> MaxI(u, v) [] op = "Min" -> MinI(u, v)
    [] op = "Sum" -> AddS(u, v)
    [] op = "Equal" -> B2I(u = v) [] op = "Greater" -> B2I(u > v) [] op = "Less" -> B2I(u < v)
    [] op = "GreaterOrEqual" -> B2I(u >= v) [] op = "LessOrEqual" -> B2I(u <= v)
    [] op = "And" -> B2I(u # 0 /\ v # 0) [] op = "Or" -> B2I(u # 0 \/ v # 0) [] op = "Xor" -> B2I((u # 0) # (v # 0))
    [] op = "PRelu" -> IF u < 0 THEN MulS(u, v) ELSE u
BinOps == {"Add", "Sub", "Mul", "Equal", "Greater", "Less", "GreaterOrEqual", "LessOrEqual", "And", "Or", "Xor", "PRelu"}
CmpOps == {"Equal", "Greater", "Less", "GreaterOrEqual", "LessOrEqual", "And", "Or", "Xor"}
VarOps == {"Max", "Min", "Sum"}
\* operators that only move values around: fine on opaque floats
MoveOps == {"Identity", "Transpose", "Reshape", "Squeeze", "Unsqueeze", "Concat", "Split", "Slice", "Gather", "Tile",
            "Expand", "Pad", "Shape", "Size", "Where", "Flatten", "Constant", "DepthToSpace", "SpaceToDepth"}

Quant(x, sc, zp, axis) ==
  LET s == AxisParam(sc, x, axis)
      z == IF IsNone(zp) THEN None ELSE AxisParam(zp, x, axis)
      t == IF IsNone(zp) THEN "u8" ELSE zp.t
  IN T(t, x.s, Force([k \in 1..Len(x.d) |->
        Saturate(RoundHalfEven(x.d[k], s.d[k]) + (IF IsNone(zp) THEN 0 ELSE z.d[k]), t)]))
Dequant(x, sc, zp, axis) ==
  LET s == AxisParam(sc, x, axis)
      z == IF IsNone(zp) THEN None ELSE AxisParam(zp, x, axis)
  IN T("f32", x.s, Force([k \in 1..Len(x.d) |-> (x.d[k] - (IF IsNone(zp) THEN 0 ELSE z.d[k])) * s.d[k]]))

RECURSIVE FoldBin(_, _, _)
FoldBin(op, acc, xs) == IF xs = <<>> THEN acc
                        ELSE FoldBin(op, Map2(acc.t, acc, xs[1], LAMBDA u, v : BinFn(op, u, v)), Tail(xs))

\* one-hot softmax: exact when the maximum is unique and the others are >= 50 below it
SoftRow(op, q) ==
  LET m == MaxQ(q)
  IN IF op = "Softmax" THEN Force([i \in 1..Len(q) |-> B2I(q[i] = m)]) ELSE Force([i \in 1..Len(q) |-> q[i] - m])
SoftOk(q) == LET m == MaxQ(q) IN Cardinality({i \in 1..Len(q) : q[i] = m}) = 1 /\ \A i \in 1..Len(q) : q[i] = m \/ m - q[i] >= 50

(***************************************************************************)
(* The operator denotation: a sequence of output tensors.                  *)
(***************************************************************************)
ApplyOp(op, xs, a, nout, opset) ==
  LET x == Arg(xs, 1)
      y == Arg(xs, 2)
      r == Len(x.s)
  IN
  CASE op \in UnaryOps -> <<Map1(x.t, x, LAMBDA v : UnaryFn(op, v))>>
    [] op \in BinOps -> <<Map2(IF op \in CmpOps THEN "b" ELSE x.t, x, y, LAMBDA u, v : BinFn(op, u, v))>>
    [] op \in VarOps -> <<FoldBin(op, x, Tail(xs))>>
    [] op = "Div" -> IF IsFloat(x.t)
                     THEN LET ok == Map2("b", x, y, LAMBDA u, v : B2I(v # 0 /\ (IF v = 0 THEN FALSE ELSE TMod(u, v) = 0)))
                          IN IF \A k \in 1..Len(ok.d) : ok.d[k] = 1 THEN <<Map2(x.t, x, y, TDiv)>> ELSE <<Undef>>
                     ELSE <<Map2(x.t, x, y, TDiv)>>
    [] op = "Mean" -> <<Undef>>
    [] op = "LeakyRelu" -> IF Has(a, "alpha_i") THEN <<Map1(x.t, x, LAMBDA v : IF v < 0 THEN MulS(v, a["alpha_i"]) ELSE v)>> ELSE <<Undef>>
    [] op = "Clip" -> LET lo == IF Has(a, "min") THEN <<a["min"]>> ELSE IF IsNone(y) THEN <<>> ELSE y.d
                          hi == IF Has(a, "max") THEN <<a["max"]>> ELSE IF IsNone(Arg(xs, 3)) THEN <<>> ELSE xs[3].d
                      IN <<Map1(x.t, x, LAMBDA v : LET v1 == IF lo = <<>> THEN v ELSE MaxI(v, lo[1])
                                                   IN IF hi = <<>> THEN v1 ELSE MinI(v1, hi[1]))>>
    [] op = "Table" -> \* an elementwise function given by its graph over a window of integers (uninterpreted in the specification)
         IF \A k \in 1..Len(x.d) : x.d[k] >= a["lo"] /\ x.d[k] < a["lo"] + Len(a["tab"])
         THEN <<Map1(x.t, x, LAMBDA v : a["tab"][v - a["lo"] + 1])>>
         ELSE <<Undef>>
    [] op = "Cast" -> <<Map1(a["to"], x, LAMBDA v : CastV(v, a["to"]))>>
    [] op = "Where" -> <<WhereT(x, y, xs[3])>>
    [] op = "Transpose" -> <<TransposeT(x, Opt(a, "perm", RevQ(Iota(r))))>>
    [] op = "Reshape" -> <<ReshapeOp(x, y.d, Opt(a, "allowzero", 0) = 1)>>
    [] op = "Flatten" -> LET ax == NormAxis(Opt(a, "axis", 1), r)
                         IN <<ReshapeTo(x, <<SizeOf(SubSeq(x.s, 1, ax)), SizeOf(SubSeq(x.s, ax + 1, r))>>)>>
    [] op = "Squeeze" -> LET ax == AxesOf(xs, a, 2, <<-99>>) IN IF ax = <<-99>> THEN <<SqueezeAllT(x)>> ELSE <<SqueezeT(x, ax)>>
    [] op = "Unsqueeze" -> <<UnsqueezeT(x, AxesOf(xs, a, 2, <<>>))>>
    [] op = "Concat" -> <<ConcatT(xs, NormAxis(a["axis"], r) + 1)>>
    [] op = "Split" -> LET ax == NormAxis(Opt(a, "axis", 0), r) + 1
                           n == x.s[ax]
                           even == CDiv(n, nout)
                           sizes == IF Has(a, "split") THEN a["split"] ELSE IF ~IsNone(y) THEN y.d
                                    ELSE Force([i \in 1..nout |-> IF i < nout THEN even ELSE n - even * (nout - 1)])
                       IN SplitT(x, ax, sizes)
    [] op = "Slice" -> IF Has(a, "starts")
                       THEN <<SliceOp(x, a["starts"], a["ends"], Opt(a, "axes", Iota(Len(a["starts"]))), Const(Len(a["starts"]), 1))>>
                       ELSE LET n == Len(y.d)
                            IN <<SliceOp(x, y.d, xs[3].d, IF IsNone(Arg(xs, 4)) THEN Iota(n) ELSE xs[4].d,
                                         IF IsNone(Arg(xs, 5)) THEN Const(n, 1) ELSE xs[5].d)>>
    [] op = "Gather" -> <<GatherT(x, y, NormAxis(Opt(a, "axis", 0), r) + 1)>>
    [] op = "Pad" -> LET pads == IF Has(a, "pads") THEN a["pads"] ELSE y.d
                         v == IF Has(a, "value") THEN a["value"] ELSE IF IsNone(Arg(xs, 3)) THEN 0 ELSE xs[3].d[1]
                         axs == IF IsNone(Arg(xs, 4)) THEN Iota(r) ELSE NormAxes(xs[4].d, r)
                         n == Len(axs)
                         P(i, off) == IF \E k \in 1..n : axs[k] = i - 1
                                      THEN pads[off + (CHOOSE k \in 1..n : axs[k] = i - 1)] ELSE 0
                         mode == Opt(a, "mode", "constant")
                     IN IF \/ mode = "reflect" /\ \E i \in 1..r : P(i, 0) >= x.s[i] \/ P(i, n) >= x.s[i]
                           \/ mode # "constant" /\ \E i \in 1..r : P(i, 0) < 0 \/ P(i, n) < 0 \/ x.s[i] = 0
                        THEN <<Inv>>
                        ELSE <<PadT(x, Force([i \in 1..r |-> P(i, 0)]), Force([i \in 1..r |-> P(i, n)]), mode, v)>>
    [] op = "Tile" -> <<TileT(x, y.d)>>
    [] op = "Expand" -> <<BroadcastT(x, BShape(x.s, y.d))>>
    [] op = "Shape" -> LET st == Opt(a, "start", 0)
                           en == Opt(a, "end", r)
                           C(v) == MaxI(0, MinI(r, IF v < 0 THEN v + r ELSE v))
                       IN <<Vec("i64", SubSeq(x.s, C(st) + 1, C(en)))>>
    [] op = "Size" -> <<Scalar("i64", SizeOf(x.s))>>
    [] op = "Constant" -> <<a["value"]>>
    [] op = "ConstantOfShape" -> LET v == Opt(a, "value", [t |-> "f32", s |-> <<1>>, d |-> <<0>>])
                                 IN <<T(v.t, x.d, Const(SizeOf(x.d), v.d[1]))>>
    [] op = "Range" -> LET n == MaxI(0, CDiv(y.d[1] - x.d[1], xs[3].d[1]))
                       IN <<T(x.t, <<n>>, Force([i \in 1..n |-> x.d[1] + (i - 1) * xs[3].d[1]]))>>
    [] op \in ReduceOps ->
         LET ax == AxesOf(xs, a, 2, <<>>)
             keep == Opt(a, "keepdims", 1) = 1
             A == IF ax = <<>> THEN 1..r ELSE AxisSet(ax, r)
             n == ProdQ(PickQ(x.s, A))
         IN IF ax = <<>> /\ Opt(a, "noop_with_empty_axes", 0) = 1 THEN <<x>>
            ELSE IF op = "ReduceMean" /\ (n = 0 \/ \E k \in 1..Len(ReduceT(x.t, x, A, keep, LAMBDA q : SumS(q)).d) :
                                             ReduceT(x.t, x, A, keep, LAMBDA q : SumS(q)).d[k] % n # 0) THEN <<Undef>>
            ELSE <<ReduceT(x.t, x, A, keep, LAMBDA q : ReduceFn(op, q))>>
    [] op \in {"ArgMax", "ArgMin"} ->
         LET ax == NormAxis(Opt(a, "axis", 0), r) + 1
             last == Opt(a, "select_last_index", 0) = 1
         IN <<ReduceT("i64", x, {ax}, Opt(a, "keepdims", 1) = 1,
                      LAMBDA q : IF op = "ArgMax" THEN ArgMaxQ(q, last) ELSE ArgMinQ(q, last))>>
    [] op = "CumSum" -> <<LinesT(x.t, x, NormAxis(y.d[1], r) + 1,
                                 LAMBDA q : CumSumQ(q, Opt(a, "exclusive", 0) = 1, Opt(a, "reverse", 0) = 1))>>
    [] op \in {"Softmax", "LogSoftmax"} ->
         IF opset >= 13
         THEN LET ax == NormAxis(Opt(a, "axis", -1), r) + 1
                  ok == LinesT("b", x, ax, LAMBDA q : Const(Len(q), B2I(SoftOk(q))))
              IN IF \A k \in 1..Len(ok.d) : ok.d[k] = 1 THEN <<LinesT(x.t, x, ax, LAMBDA q : SoftRow(op, q))>> ELSE <<Undef>>
         ELSE LET ax == NormAxis(Opt(a, "axis", 1), r)
                  f == ReshapeTo(x, <<SizeOf(SubSeq(x.s, 1, ax)), SizeOf(SubSeq(x.s, ax + 1, r))>>)
                  ok == LinesT("b", f, 2, LAMBDA q : Const(Len(q), B2I(SoftOk(q))))
              IN IF \A k \in 1..Len(ok.d) : ok.d[k] = 1
                 THEN <<ReshapeTo(LinesT(x.t, f, 2, LAMBDA q : SoftRow(op, q)), x.s)>> ELSE <<Undef>>
    [] op = "MatMul" -> <<MatMulT(x.t, x, y)>>
    [] op = "Gemm" -> LET A == IF Opt(a, "transA", 0) = 1 THEN TransposeT(x, <<1, 0>>) ELSE x
                          B == IF Opt(a, "transB", 0) = 1 THEN TransposeT(y, <<1, 0>>) ELSE y
                          m == Map1(x.t, MatMul2(x.t, A, B), LAMBDA v : MulS(v, Opt(a, "alpha_i", 1)))
                          c == Arg(xs, 3)
                      IN IF IsNone(c) THEN <<m>> ELSE <<Map2(x.t, m, c, LAMBDA u, v : AddS(u, MulS(v, Opt(a, "beta_i", 1))))>>
    [] op = "Einsum" -> <<EinsumT(x.t, xs, a["terms"], a["outl"])>>
    [] op = "Conv" ->
         LET sp == r - 2
             ks == SubSeq(y.s, 3, r)
             st == Opt(a, "strides", Const(sp, 1))
             dl == Opt(a, "dilations", Const(sp, 1))
             pd == SpatialPads(a, x.s, ks, st, dl)
             z == ConvT(x.t, x, y, st, dl, pd[1], pd[2], Opt(a, "group", 1))
         IN IF IsNone(Arg(xs, 3)) THEN <<z>>
            ELSE <<Map2(x.t, z, ReshapeTo(xs[3], <<1, Len(xs[3].d)>> \o Const(sp, 1)), LAMBDA u, v : AddS(u, v))>>
    [] op = "BatchNormalization" ->
         \* y = scale * (x - mean) / sqrt(var + eps) + b ; exact only for perfect-square variances (attribute sd: the root)
         LET C(p) == BroadcastT(ReshapeTo(p, <<1, Len(p.d)>> \o Const(r - 2, 1)), x.s)
             sc == C(y) b == C(xs[3]) m == C(xs[4])
             sd == C(T("f32", <<Len(y.d)>>, a["sd"]))
         IN IF \A k \in 1..Len(x.d) : TMod(MulS(sc.d[k], AddS(x.d[k], -m.d[k])), sd.d[k]) = 0
            THEN <<T(x.t, x.s, Force([k \in 1..Len(x.d) |-> AddS(TDiv(MulS(sc.d[k], AddS(x.d[k], -m.d[k])), sd.d[k]), b.d[k])]))>>
            ELSE <<Undef>>
    [] op \in {"MaxPool", "AveragePool"} ->
         LET ks == a["kernel_shape"]
             sp == r - 2
             st == Opt(a, "strides", Const(sp, 1))
             dl == Opt(a, "dilations", Const(sp, 1))
             pd == SpatialPads(a, x.s, ks, st, dl)
             os == Force([i \in 1..sp |-> ((x.s[i + 2] + pd[1][i] + pd[2][i] - ((ks[i] - 1) * dl[i] + 1)) \div st[i]) + 1])
         IN IF op = "MaxPool" THEN <<PoolT(x.t, x, ks, st, dl, pd[1], os, LAMBDA q, n : MaxQ(q))>>
            ELSE LET incl == Opt(a, "count_include_pad", 0) = 1
                     bad == PoolT("b", x, ks, st, dl, pd[1], os, LAMBDA q, n : B2I(SumS(q) % (IF incl THEN n ELSE Len(q)) # 0))
                 IN IF \E k \in 1..Len(bad.d) : bad.d[k] = 1 THEN <<Undef>>
                    ELSE <<PoolT(x.t, x, ks, st, dl, pd[1], os, LAMBDA q, n : FDiv(SumS(q), IF incl THEN n ELSE Len(q)))>>
    [] op = "GlobalMaxPool" -> <<ReduceT(x.t, x, 3..r, TRUE, MaxQ)>>
    [] op = "GlobalAveragePool" ->
         LET sm == ReduceT(x.t, x, 3..r, TRUE, SumQ)
             n == SizeOf(SubSeq(x.s, 3, r))
         IN IF \E k \in 1..Len(sm.d) : sm.d[k] % n # 0 THEN <<Undef>> ELSE <<Map1(x.t, sm, LAMBDA v : FDiv(v, n))>>
    [] op = "Resize" -> \* nearest, integer upscaling, asymmetric/floor: repeat each element
         LET sc == a["scales_i"]
             st == Strides(x.s)
         IN <<FromFn(x.t, Force([i \in 1..r |-> x.s[i] * sc[i]]), LAMBDA mi : x.d[1 + FlatOf([i \in 1..r |-> mi[i] \div sc[i]], st)])>>
    [] op = "DepthToSpace" ->
         LET b == a["blocksize"] c == x.s[2] \div (b * b) h == x.s[3] w == x.s[4] n == x.s[1]
         IN IF Opt(a, "mode", "DCR") = "DCR"
            THEN <<ReshapeTo(TransposeT(ReshapeTo(x, <<n, b, b, c, h, w>>), <<0, 3, 4, 1, 5, 2>>), <<n, c, h * b, w * b>>)>>
            ELSE <<ReshapeTo(TransposeT(ReshapeTo(x, <<n, c, b, b, h, w>>), <<0, 1, 4, 2, 5, 3>>), <<n, c, h * b, w * b>>)>>
    [] op = "SpaceToDepth" ->
         LET b == a["blocksize"] c == x.s[2] h == x.s[3] \div b w == x.s[4] \div b n == x.s[1]
         IN <<ReshapeTo(TransposeT(ReshapeTo(x, <<n, c, h, b, w, b>>), <<0, 3, 5, 1, 2, 4>>), <<n, c * b * b, h, w>>)>>
    [] op = "QuantizeLinear" -> <<Quant(x, y, Arg(xs, 3), Opt(a, "axis", 1))>>
    [] op = "DequantizeLinear" -> <<Dequant(x, y, Arg(xs, 3), Opt(a, "axis", 1))>>
    [] OTHER -> <<Undef>>

KnownOps == UnaryOps \cup BinOps \cup VarOps \cup ReduceOps \cup MoveOps \cup
  {"Div", "LeakyRelu", "Clip", "Cast", "ConstantOfShape", "Range", "ArgMax", "ArgMin", "CumSum", "Softmax", "LogSoftmax",
   "MatMul", "Gemm", "Einsum", "Conv", "BatchNormalization", "MaxPool", "AveragePool", "GlobalMaxPool", "GlobalAveragePool",
   "Resize", "Table", "QuantizeLinear", "DequantizeLinear", "If", "Loop", "Scan"}

(***************************************************************************)
(* Graphs, with nested bodies that see the enclosing environment.          *)
(***************************************************************************)
Lookup(env, n) == IF n = "" THEN None ELSE IF n \in DOMAIN env THEN env[n] ELSE Undef
UndefN(n) == [i \in 1..n |-> Undef]
RECURSIVE BindAll(_, _, _, _)
BindAll(env, names, vals, i) ==
  IF i > Len(names) THEN env
  ELSE BindAll(IF names[i] = "" \/ i > Len(vals) THEN env ELSE (names[i] :> vals[i]) @@ env, names, vals, i + 1)

\* stacks equally shaped tensors along a new leading axis
StackQ(q) == IF q = <<>> THEN Free ELSE IF \E i \in 1..Len(q) : IsUndef(q[i]) THEN (CHOOSE z \in {q[i] : i \in 1..Len(q)} : IsUndef(z))
             ELSE IF \E i \in 1..Len(q) : q[i].s # q[1].s THEN Inv ELSE T(q[1].t, <<Len(q)>> \o q[1].s, FoldLeft(LAMBDA acc, z : acc \o z.d, <<>>, q))

RECURSIVE StepNode(_, _, _)
RECURSIVE RunFrom(_, _, _, _)
RunFrom(g, i, env, opset) == IF i > Len(g.nodes) THEN env ELSE RunFrom(g, i + 1, StepNode(g.nodes[i], env, opset), opset)
RunBody(g, ins, env, opset) ==
  LET e == RunFrom(g, 1, BindAll(env, g.in, ins, 1), opset)
  IN Force([i \in 1..Len(g.out) |-> Lookup(e, g.out[i])])

RECURSIVE LoopIter(_, _, _, _, _, _, _, _)
\* returns <<final carried, collected scan outputs per iteration>>
LoopIter(g, k, limit, cond, carried, scans, env, opset) ==
  IF (limit >= 0 /\ k >= limit) \/ ~cond \/ k > 64 THEN <<carried, scans>>
  ELSE LET o == RunBody(g, <<Scalar("i64", k), Scalar("b", B2I(cond))>> \o carried, env, opset)
           nc == Len(carried)
       IN IF AnyUndef(o) THEN LET u == IF \E i \in 1..Len(o) : IsInv(o[i]) THEN Inv ELSE Undef
                              IN <<[i \in 1..nc |-> u], <<[i \in 1..(Len(o) - 1 - nc) |-> u]>>>>
          ELSE LoopIter(g, k + 1, limit, o[1].d[1] # 0, SubSeq(o, 2, nc + 1), Append(scans, SubSeq(o, nc + 2, Len(o))), env, opset)

\* Scan over the leading axis of the last ni inputs, in order: <<final states, scan outputs per iteration>>
RECURSIVE ScanIter(_, _, _, _, _, _, _, _)
ScanIter(g, k, n, states, seqs, scans, env, opset) ==
  IF k >= n THEN <<states, scans>>
  ELSE LET sl == Force([j \in 1..Len(seqs) |-> GatherT(seqs[j], Scalar("i64", k), 1)])
           o == RunBody(g, states \o sl, env, opset)
           ns == Len(states)
       IN IF AnyUndef(o) THEN LET u == IF \E i \in 1..Len(o) : IsInv(o[i]) THEN Inv ELSE Undef
                              IN <<[i \in 1..ns |-> u], <<[i \in 1..(Len(o) - ns) |-> u]>>>>
          ELSE ScanIter(g, k + 1, n, SubSeq(o, 1, ns), seqs, Append(scans, SubSeq(o, ns + 1, Len(o))), env, opset)

StepNode(n, env, opset) ==
  LET xs == Force([i \in 1..Len(n.in) |-> Lookup(env, n.in[i])])
      nout == Len(n.out)
      outs ==
        IF \E i \in 1..Len(xs) : IsInv(xs[i]) \/ IsFree(xs[i]) THEN Force([i \in 1..nout |-> Inv])
        ELSE IF AnyUndef(xs) THEN UndefN(nout)
        ELSE IF n.op = "If" THEN RunBody(IF xs[1].d[1] # 0 THEN n.a["then_branch"] ELSE n.a["else_branch"], <<>>, env, opset)
        ELSE IF n.op = "Loop" THEN
          LET g == n.a["body"]
              limit == IF IsNone(xs[1]) THEN -1 ELSE xs[1].d[1]
              cond == IF IsNone(xs[2]) THEN TRUE ELSE xs[2].d[1] # 0
              nc == Len(xs) - 2
              ns == Len(g.out) - 1 - nc
              res == LoopIter(g, 0, limit, cond, SubSeq(xs, 3, Len(xs)), <<>>, env, opset)
          IN res[1] \o Force([j \in 1..ns |-> StackQ(Force([k \in 1..Len(res[2]) |-> res[2][k][j]]))])
        ELSE IF n.op = "Scan" THEN
          IF opset < 9 \/ (\E k \in DOMAIN n.a : k \notin {"body", "num_scan_inputs"}) THEN UndefN(nout)
          ELSE LET g == n.a["body"]
                   ni == n.a["num_scan_inputs"]
                   ns == Len(xs) - ni
                   seqs == SubSeq(xs, ns + 1, Len(xs))
                   res == ScanIter(g, 0, seqs[1].s[1], SubSeq(xs, 1, ns), seqs, <<>>, env, opset)
               IN res[1] \o Force([j \in 1..(Len(g.out) - ns) |-> StackQ(Force([k \in 1..Len(res[2]) |-> res[2][k][j]]))])
        ELSE IF n.op \notin MoveOps /\ HasOpaque(xs) THEN UndefN(nout)
        ELSE LET ys == ApplyOp(n.op, xs, n.a, nout, opset)
             IN IF n.op \in MoveOps \cup {"Table"} THEN ys
                ELSE Force([i \in 1..Len(ys) |-> IF HasOpaque(<<ys[i]>>) THEN Undef ELSE ys[i]])
  IN BindAll(env, n.out, outs, 1)

\* denotation of a whole graph on the given input tensors
Denote(g, ins, opset) == RunBody(g, ins, <<>>, opset)
=============================================================================
