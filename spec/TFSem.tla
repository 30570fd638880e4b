------------------------------- MODULE TFSem -------------------------------
(***************************************************************************)
(* Denotation of TensorFlow operators over integer tensors.                *)
(*                                                                         *)
(* TFApply(op, xs, a, nout): results of raw op `op` on inputs xs with      *)
(* attributes a.  An element the integer fragment cannot express (fraction,*)
(* overflow, rounding of a real function) is Unk; a result it cannot       *)
(* express at all is Undef.  Both are then taken from the recorded         *)
(* execution of the source program (TFTrace), everything else is decided   *)
(* here.                                                                   *)
(***************************************************************************)
EXTENDS OnnxSem

Unk == 1999999999
IsOp(v) == AbsI(v) >= Opaque
AnyOp(q) == \E k \in 1..Len(q) : IsOp(q[k])
\* values of narrow integer types wrap around
Fit(t, v) == IF IsOp(v) THEN v ELSE CASE t \in {"i8", "u8", "i16", "u16"} -> CastV(v, t) [] OTHER -> v
M1(t, x, F(_)) == Map1(t, x, LAMBDA v : IF IsOp(v) THEN Unk ELSE Fit(t, F(v)))
M2(t, x, y, F(_, _)) == Map2(t, x, y, LAMBDA u, v : IF IsOp(u) \/ IsOp(v) THEN Unk ELSE Fit(t, F(u, v)))
Red(t, x, A, keep, F(_)) == ReduceT(t, x, A, keep, LAMBDA q : IF AnyOp(q) THEN Unk ELSE Fit(t, F(q)))

RECURSIVE ISqrt(_, _)
ISqrt(v, k) == IF k * k >= v THEN k ELSE ISqrt(v, k + 1)
SqrtV(v) == IF v < 0 \/ v > 40000 THEN Unk ELSE LET k == ISqrt(v, 0) IN IF k * k = v THEN k ELSE Unk

\* the code of the rational u / v (v > 0): an integer, or its thousandths
RatV(u, v) == IF u % v = 0 THEN u \div v
              ELSE IF AbsI(u) > 1000000 \/ AbsI(u) \div v > 400 THEN Unk
              ELSE 1050000000 + (2000 * u + v) \div (2 * v)

TFUnary ==
  {"Abs", "Neg", "Sign", "Square", "Floor", "Ceil", "Round", "Rint", "Relu", "Relu6", "LogicalNot", "ZerosLike", "OnesLike", "Reciprocal",
   "Inv", "Sqrt", "Rsqrt", "Exp", "Log", "Sin", "Cos", "Tan", "Asin", "Acos", "Atan", "Sinh", "Cosh", "Tanh", "Asinh", "Acosh", "Atanh", "Sigmoid",
   "Softplus", "Softsign", "Elu", "Selu", "Erf", "Expm1", "Log1p", "IsNan", "IsInf", "IsFinite"}
TFUnaryFn(op, v) ==
  CASE op = "Abs" -> AbsI(v) [] op = "Neg" -> -v [] op = "Sign" -> SignI(v) [] op = "Square" -> MulS(v, v)
    [] op \in {"Floor", "Ceil", "Round", "Rint"} -> v
    [] op = "Relu" -> MaxI(0, v) [] op = "Relu6" -> MinI(6, MaxI(0, v))
    [] op = "LogicalNot" -> 1 - v [] op = "ZerosLike" -> 0 [] op = "OnesLike" -> 1
    [] op \in {"Reciprocal", "Inv"} -> IF AbsI(v) = 1 THEN v ELSE Unk
    [] op = "Sqrt" -> SqrtV(v)
    [] op = "Rsqrt" -> IF v = 1 THEN 1 ELSE Unk
    [] op \in {"Exp", "Cos", "Cosh"} -> IF v = 0 THEN 1 ELSE Unk
    [] op = "Log" -> IF v = 1 THEN 0 ELSE Unk
    [] op \in {"Sin", "Tan", "Asin", "Atan", "Sinh", "Tanh", "Asinh", "Atanh", "Softsign", "Erf", "Expm1", "Log1p"} -> IF v = 0 THEN 0 ELSE Unk
    [] op \in {"Elu"} -> IF v >= 0 THEN v ELSE Unk
    [] op \in {"IsNan", "IsInf"} -> 0 [] op = "IsFinite" -> 1
    [] OTHER -> Unk
TFBoolUnary == {"IsNan", "IsInf", "IsFinite", "LogicalNot"}

RECURSIVE BitOp(_, _, _, _)
\* two's complement bitwise operation on `bits` bits
BitOp(f, u, v, bits) ==
  IF bits = 0 THEN 0
  ELSE LET p == u % 2 q == v % 2
           b == CASE f = "and" -> p * q [] f = "or" -> MaxI(p, q) [] f = "xor" -> (p + q) % 2
       IN b + 2 * BitOp(f, u \div 2, v \div 2, bits - 1)
BitV(f, u, v) == LET w == BitOp(f, u, v, 29) IN IF w >= 268435456 THEN w - 536870912 ELSE w

TFBinary ==
  {"Add", "AddV2", "Sub", "Mul", "Maximum", "Minimum", "FloorDiv", "FloorMod", "TruncateDiv", "Mod", "RealDiv", "Div", "DivNoNan", "Pow", "SquaredDifference",
   "MulNoNan", "BitwiseAnd", "BitwiseOr", "BitwiseXor", "LeftShift", "RightShift", "Atan2"}
TFCmp == {"Equal", "NotEqual", "Less", "LessEqual", "Greater", "GreaterEqual", "LogicalAnd", "LogicalOr"}
TFBinaryFn(op, t, u, v) ==
  CASE op \in {"Add", "AddV2"} -> AddS(u, v) [] op = "Sub" -> AddS(u, -v) [] op = "Mul" -> MulS(u, v)
    [] op = "Maximum" -> MaxI(u, v) [] op = "Minimum" -> MinI(u, v)
    [] op = "FloorDiv" -> IF v = 0 THEN Unk ELSE FDiv(u, v)
    [] op = "FloorMod" -> IF v = 0 THEN Unk ELSE FMod(u, v)
    [] op = "TruncateDiv" -> IF v = 0 THEN Unk ELSE TDiv(u, v)
    [] op = "Mod" -> IF v = 0 THEN Unk ELSE TMod(u, v)
    [] op \in {"RealDiv", "Div"} -> IF v = 0 THEN Unk ELSE IF TMod(u, v) = 0 THEN TDiv(u, v) ELSE IF IsFloat(t) THEN Unk ELSE TDiv(u, v)
    [] op = "DivNoNan" -> IF v = 0 THEN 0 ELSE IF TMod(u, v) = 0 THEN TDiv(u, v) ELSE Unk
    [] op = "MulNoNan" -> IF v = 0 THEN 0 ELSE MulS(u, v)
    [] op = "Pow" -> IF v >= 0 /\ v <= 8 /\ AbsI(u) <= 9 THEN PowI(u, v) ELSE Unk
    [] op = "SquaredDifference" -> MulS(AddS(u, -v), AddS(u, -v))
    [] op = "BitwiseAnd" -> BitV("and", u, v) [] op = "BitwiseOr" -> BitV("or", u, v) [] op = "BitwiseXor" -> BitV("xor", u, v)
    [] op = "LeftShift" -> IF v >= 0 /\ v < 16 /\ AbsI(u) < 8192 THEN u * PowI(2, v) ELSE Unk
    [] op = "RightShift" -> IF v >= 0 /\ v < 16 THEN FDiv(u, PowI(2, v)) ELSE Unk
    [] OTHER -> Unk
TFCmpFn(op, u, v) ==
  CASE op = "Equal" -> B2I(u = v) [] op = "NotEqual" -> B2I(u # v) [] op = "Less" -> B2I(u < v) [] op = "LessEqual" -> B2I(u <= v)
    [] op = "Greater" -> B2I(u > v) [] op = "GreaterEqual" -> B2I(u >= v)
    [] op = "LogicalAnd" -> u * v [] op = "LogicalOr" -> MaxI(u, v)

TFReduce == {"Sum", "Prod", "Max", "Min", "Mean", "All", "Any", "EuclideanNorm"}
TFReduceFn(op, t, q) ==
  CASE op = "Sum" -> SumS(q) [] op = "Prod" -> ProdS(q)
    [] op = "Max" -> IF Len(q) = 0 THEN Unk ELSE MaxQ(q)
    [] op = "Min" -> IF Len(q) = 0 THEN Unk ELSE MinQ(q)
    [] op = "Mean" -> IF Len(q) = 0 THEN Unk ELSE IF SumS(q) % Len(q) = 0 THEN FDiv(SumS(q), Len(q)) ELSE IF IsFloat(t) THEN RatV(SumS(q), Len(q)) ELSE TDiv(SumS(q), Len(q))
    [] op = "All" -> B2I(\A k \in 1..Len(q) : q[k] # 0)
    [] op = "Any" -> B2I(\E k \in 1..Len(q) : q[k] # 0)
    [] OTHER -> Unk

\* ------------------------------------------------------------- segments
\* rows of x (first dimension) folded by segment; ids one per leading position; n segments
SegRows(x, ids, n, empty, F(_)) ==
  LET k == Len(ids.s)
      inner == SubSeq(x.s, k + 1, Len(x.s))
      m == SizeOf(inner)
      ist == Strides(inner)
  IN FromFn(x.t, <<n>> \o inner, LAMBDA mi :
       LET off == FlatOf(SubSeq(mi, 2, Len(mi)), ist)
           ps == SelectSeq(Iota(Len(ids.d)), LAMBDA p : ids.d[p + 1] = mi[1])
           q == Force([j \in 1..Len(ps) |-> x.d[1 + ps[j] * m + off]])
       IN IF Len(q) = 0 THEN empty ELSE IF AnyOp(q) THEN Unk ELSE Fit(x.t, F(q)))
SegFn(op, q) == CASE op \in {"Sum"} -> SumS(q) [] op = "Prod" -> ProdS(q) [] op = "Max" -> MaxQ(q) [] op = "Min" -> MinQ(q)
                  [] op = "Mean" -> IF SumS(q) % Len(q) = 0 THEN FDiv(SumS(q), Len(q)) ELSE Unk [] OTHER -> Unk
SegKind(op) == CASE op \in {"SegmentSum", "UnsortedSegmentSum", "SparseSegmentSum", "SparseSegmentSumWithNumSegments"} -> "Sum"
                 [] op \in {"SegmentProd", "UnsortedSegmentProd"} -> "Prod"
                 [] op \in {"SegmentMax", "UnsortedSegmentMax"} -> "Max" [] op \in {"SegmentMin", "UnsortedSegmentMin"} -> "Min"
                 [] op \in {"SegmentMean", "SparseSegmentMean", "SparseSegmentMeanWithNumSegments"} -> "Mean" [] OTHER -> "?"

\* ------------------------------------------------------- indexing helpers
RowsOf(ind) == SizeOf(SubSeq(ind.s, 1, Len(ind.s) - 1))
RowAt(ind, p) == LET k == ind.s[Len(ind.s)] IN Force([j \in 1..k |-> ind.d[p * k + j]])   \* p from 0
ScatterFold(base, ind, upd, F(_, _)) ==
  LET k == ind.s[Len(ind.s)]
      n == RowsOf(ind)
      inner == SubSeq(base.s, k + 1, Len(base.s))
      m == SizeOf(inner)
      ist == Strides(inner)
      bst == Strides(base.s)
      rows == Force([p \in 1..n |-> RowAt(ind, p - 1)])
  IN FromFn(base.t, base.s, LAMBDA mi :
       LET pre == Force(SubSeq(mi, 1, k))
           off == FlatOf(SubSeq(mi, k + 1, Len(mi)), ist)
           hits == SelectSeq(Iota(n), LAMBDA p : rows[p + 1] = pre)
       IN FoldLeft(LAMBDA acc, p : F(acc, upd.d[1 + p * m + off]), base.d[1 + FlatOf(mi, bst)], hits))
GuardOp(u, v, w) == IF IsOp(u) \/ IsOp(v) THEN Unk ELSE w

GatherB(x, ind, axis, b) ==   \* axis 1-based, b batch dimensions
  LET r == Len(x.s) q == Len(ind.s)
      st == Strides(x.s) ist == Strides(ind.s)
      ns == SubSeq(x.s, 1, axis - 1) \o SubSeq(ind.s, b + 1, q) \o SubSeq(x.s, axis + 1, r)
      w == q - b
  IN FromFn(x.t, ns, LAMBDA mi :
       LET iv == ind.d[1 + FlatOf(SubSeq(mi, 1, b) \o SubSeq(mi, axis, axis + w - 1), ist)]
       IN x.d[1 + FlatOf(SubSeq(mi, 1, axis - 1) \o <<iv>> \o SubSeq(mi, axis + w, Len(ns)), st)])
GatherNdT(x, ind) ==
  LET k == ind.s[Len(ind.s)]
      lead == SubSeq(ind.s, 1, Len(ind.s) - 1)
      ns == lead \o SubSeq(x.s, k + 1, Len(x.s))
      st == Strides(x.s) lst == Strides(lead) q == Len(lead)
  IN FromFn(x.t, ns, LAMBDA mi : x.d[1 + FlatOf(RowAt(ind, FlatOf(SubSeq(mi, 1, q), lst)) \o SubSeq(mi, q + 1, Len(ns)), st)])

\* bit k (from 0) of a mask
Bit(m, k) == (m \div PowI(2, k)) % 2 = 1
\* StridedSlice: <<begin, step, size>> per input dimension and the result shape
StridedSliceT(x, b, e, s, a) ==
  LET n == Len(b)
      r == Len(x.s)
      em == a["ellipsis_mask"] nm == a["new_axis_mask"] sm == a["shrink_axis_mask"]
      ell == {k \in 0..(n - 1) : Bit(em, k)}
      hasE == ell # {}
      ei == IF hasE THEN CHOOSE k \in ell : TRUE ELSE n
      used == Cardinality({k \in 0..(n - 1) : k # ei /\ ~Bit(nm, k)})
      span == r - used            \* dimensions the (implied) ellipsis stands for
      RECURSIVE Go(_, _)
      \* spec position k (from 0), input dimension d (from 1) -> sequence of <<kind, beg, step, size>>
      Go(k, d) ==
        IF k > n \/ (k = n /\ hasE) THEN <<>>
        ELSE IF k = ei THEN Force([j \in 1..span |-> <<"keep", 0, 1, x.s[d + j - 1]>>]) \o Go(k + 1, d + span)
        ELSE IF Bit(nm, k) THEN <<<<"new", 0, 1, 1>>>> \o Go(k + 1, d)
        ELSE LET m == x.s[d]
                 bv == b[k + 1]
                 bn == IF bv < 0 THEN bv + m ELSE bv
                 ev == e[k + 1]
                 en == IF ev < 0 THEN ev + m ELSE ev
                 st == s[k + 1]
                 lo == IF st > 0 THEN 0 ELSE -1
                 hi == IF st > 0 THEN m ELSE m - 1
                 Cl(v) == MaxI(lo, MinI(hi, v))
                 bb == IF Bit(a["begin_mask"], k) THEN (IF st > 0 THEN 0 ELSE m - 1) ELSE Cl(bn)
                 ee == IF Bit(a["end_mask"], k) THEN (IF st > 0 THEN m ELSE -1) ELSE Cl(en)
             IN IF Bit(sm, k) THEN <<<<"drop", bn, 1, 1>>>> \o Go(k + 1, d + 1)
                ELSE <<<<"keep", bb, st, MaxI(0, CDiv(ee - bb, st))>>>> \o Go(k + 1, d + 1)
      all == Go(0, 1)
      dims == SelectSeq(all, LAMBDA q : q[1] # "new")
      y == StrideSliceT(x, Force([j \in 1..r |-> dims[j][2]]), Force([j \in 1..r |-> dims[j][3]]), Force([j \in 1..r |-> dims[j][4]]))
      res == SelectSeq(all, LAMBDA q : q[1] # "drop")
  IN ReshapeTo(y, Force([j \in 1..Len(res) |-> res[j][4]]))

TopKLine(q, k, want) ==   \* indices of the k largest, ties by position, descending
  LET n == Len(q)
      RankOf(i) == Cardinality({j \in 1..n : q[j] > q[i] \/ (q[j] = q[i] /\ j < i)})
      ix == Force([p \in 1..k |-> (CHOOSE i \in 1..n : RankOf(i) = p - 1)])
  IN IF want = "v" THEN Force([p \in 1..k |-> q[ix[p]]]) ELSE Force([p \in 1..k |-> ix[p] - 1])
\* lines along the last axis mapped to lines of length k
LastLines(t, x, k, F(_)) ==
  LET r == Len(x.s) n == x.s[r] m == SizeOf(SubSeq(x.s, 1, r - 1))
      ls == Force([p \in 1..m |-> Force(F(SubSeq(x.d, (p - 1) * n + 1, p * n)))])
  IN T(t, SubSeq(x.s, 1, r - 1) \o <<k>>, FoldLeft(LAMBDA acc, l : acc \o l, <<>>, ls))

CumLine(q, excl, rev, F(_)) ==
  LET n == Len(q)
  IN Force([i \in 1..n |-> IF rev THEN F(SubSeq(q, IF excl THEN i + 1 ELSE i, n)) ELSE F(SubSeq(q, 1, IF excl THEN i - 1 ELSE i))])

RECURSIVE Uniq(_, _)
Uniq(q, acc) == IF q = <<>> THEN acc ELSE Uniq(Tail(q), IF \E k \in 1..Len(acc) : acc[k] = q[1] THEN acc ELSE Append(acc, q[1]))

\* ---------------------------------------------------------------- layout
ToNCHW(x, df) == IF df \in {"NHWC", "NDHWC"} THEN LET r == Len(x.s) IN TransposeT(x, <<0, r - 1>> \o Force([i \in 1..(r - 2) |-> i])) ELSE x
FromNCHW(x, df) == IF df \in {"NHWC", "NDHWC"} THEN LET r == Len(x.s) IN TransposeT(x, <<0>> \o Force([i \in 1..(r - 2) |-> i + 1]) \o <<1>>) ELSE x
Spatial(q, df) == IF df \in {"NHWC", "NDHWC"} THEN SubSeq(q, 2, Len(q) - 1) ELSE SubSeq(q, 3, Len(q))
OutSize(n, k, s, d, pad) == IF pad = "SAME" THEN CDiv(n, s) ELSE CDiv(n - ((k - 1) * d + 1) + 1, s)
SameTotal(n, k, s, d) == MaxI(0, (CDiv(n, s) - 1) * s + (k - 1) * d + 1 - n)
\* <<begin, end>> padding per spatial dimension
TFPads(ss, ks, st, dl, a, df) ==
  LET sp == Len(ss)
      p == a["padding"]
      Tot(i) == SameTotal(ss[i], ks[i], st[i], dl[i])
      ex == IF p = "EXPLICIT" THEN LET q == a["explicit_paddings"]
                                       o == IF df \in {"NHWC", "NDHWC"} THEN 2 ELSE 4
                                   IN Force([i \in 1..sp |-> <<q[o + 2 * i - 1], q[o + 2 * i]>>]) ELSE <<>>
  IN IF p = "SAME" THEN <<Force([i \in 1..sp |-> Tot(i) \div 2]), Force([i \in 1..sp |-> Tot(i) - Tot(i) \div 2])>>
     ELSE IF p = "EXPLICIT" THEN <<Force([i \in 1..sp |-> ex[i][1]]), Force([i \in 1..sp |-> ex[i][2]])>>
     ELSE <<Const(sp, 0), Const(sp, 0)>>
\* kernel HW..IO -> OIHW..
KernelOI(w) == LET r == Len(w.s) IN TransposeT(w, <<r - 1, r - 2>> \o Force([i \in 1..(r - 2) |-> i - 1]))

GuardAll(ts, ys) == IF HasOpaque(ts) THEN Force([i \in 1..Len(ys) |-> Undef]) ELSE ys

TFMove == {"ExtractImagePatches", "Identity", "StopGradient", "Snapshot", "EnsureShape", "PreventGradient", "CheckNumerics", "Reshape", "Transpose", "ExpandDims", "Squeeze", "Slice", "StridedSlice", "Gather", "GatherV2", "GatherNd",
           "ScatterNd", "TensorScatterUpdate", "ConcatV2", "Split", "SplitV", "Pack", "Unpack", "Pad", "PadV2", "MirrorPad", "Tile", "BroadcastTo", "ReverseV2", "ReverseSequence",
           "Roll", "OneHot", "Fill", "Shape", "Size", "Rank", "ShapeN", "MatrixBandPart", "MatrixDiag", "MatrixDiagPart", "DynamicPartition", "DynamicStitch", "ParallelDynamicStitch", "DepthToSpace", "SpaceToDepth",
           "BatchToSpaceND", "SpaceToBatchND", "ResizeNearestNeighbor", "Select", "SelectV2", "Const", "IdentityN", "Where", "SparseToDense", "ReverseV2", "InvertPermutation", "ZerosLike", "OnesLike"}

TFApply(op, xs, a, nout) ==
  LET x == xs[1]
      y == Arg(xs, 2)
      z == Arg(xs, 3)
      r == Len(x.s)
  IN
  CASE op \in {"Identity", "StopGradient", "Snapshot", "EnsureShape", "PreventGradient", "CheckNumerics"} -> <<x>>
    [] op = "IdentityN" -> xs
    [] op \in {"ZerosLike", "OnesLike"} -> <<Map1(x.t, x, LAMBDA v : IF op = "ZerosLike" THEN 0 ELSE 1)>>
    [] op = "Invert" -> <<M1(x.t, x, LAMBDA v : IF x.t \in {"u8", "u16"} THEN CastV(-1 - v, x.t) ELSE -1 - v)>>
    [] op \in TFUnary -> <<M1(IF op \in TFBoolUnary THEN "b" ELSE x.t, x, LAMBDA v : TFUnaryFn(op, v))>>
    [] op = "LeakyRelu" -> <<M1(x.t, x, LAMBDA v : IF v >= 0 THEN v ELSE Unk)>>
    [] op \in TFBinary -> <<M2(x.t, x, y, LAMBDA u, v : TFBinaryFn(op, x.t, u, v))>>
    [] op \in TFCmp -> <<M2("b", x, y, LAMBDA u, v : TFCmpFn(op, u, v))>>
    [] op = "AddN" -> <<FoldLeft(LAMBDA acc, w : M2(x.t, acc, w, LAMBDA u, v : AddS(u, v)), x, Tail(xs))>>
    [] op = "ClipByValue" -> <<M2(x.t, M2(x.t, x, z, LAMBDA u, v : MinI(u, v)), y, LAMBDA u, v : MaxI(u, v))>>
    [] op = "Cast" -> IF IsFloat(x.t) /\ ~IsFloat(a["DstT"]) /\ \E k \in 1..Len(x.d) : x.d[k] < 0 /\ a["DstT"] \in {"u8", "u16", "u32", "u64"} THEN <<Undef>>
                      ELSE <<Map1(a["DstT"], x, LAMBDA v : IF IsOp(v) THEN (IF x.t = "f32" /\ a["DstT"] = "f64" THEN v ELSE Unk) ELSE CastV(v, a["DstT"]))>>
    [] op = "Select" -> <<IF Len(x.s) = 1 /\ Len(y.s) > 1
                          THEN WhereT(ReshapeTo(x, x.s \o Const(Len(y.s) - 1, 1)), y, z) ELSE WhereT(x, y, z)>>
    [] op = "SelectV2" -> <<WhereT(x, y, z)>>
    [] op \in {"BiasAdd", "BiasAddV1"} -> <<IF Opt(a, "data_format", "NHWC") = "NCHW" /\ r > 2
                           THEN M2(x.t, x, ReshapeTo(y, <<Len(y.d)>> \o Const(r - 2, 1)), LAMBDA u, v : AddS(u, v))
                           ELSE M2(x.t, x, y, LAMBDA u, v : AddS(u, v))>>
    \* ------------------------------------------------------ reductions
    [] op \in TFReduce -> <<Red(x.t, x, AxisSet(y.d, r), a["keep_dims"] = 1, LAMBDA q : TFReduceFn(op, x.t, q))>>
    [] op \in {"ArgMax", "ArgMin"} ->
         LET ax == NormAxis(y.d[1], r) + 1
         IN GuardAll(<<x>>, <<ReduceT(a["output_type"], x, {ax}, FALSE, LAMBDA q : IF op = "ArgMax" THEN ArgMaxQ(q, FALSE) ELSE ArgMinQ(q, FALSE))>>)
    [] op = "Cumsum" -> GuardAll(<<x>>, <<LinesT(x.t, x, NormAxis(y.d[1], r) + 1, LAMBDA q : CumLine(q, a["exclusive"] = 1, a["reverse"] = 1, LAMBDA w : Fit(x.t, SumS(w))))>>)
    [] op = "Cumprod" -> GuardAll(<<x>>, <<LinesT(x.t, x, NormAxis(y.d[1], r) + 1, LAMBDA q : CumLine(q, a["exclusive"] = 1, a["reverse"] = 1, LAMBDA w : Fit(x.t, ProdS(w))))>>)
    [] op \in {"SegmentSum", "SegmentProd", "SegmentMax", "SegmentMin", "SegmentMean"} ->
         <<SegRows(x, y, IF Len(y.d) = 0 THEN 0 ELSE y.d[Len(y.d)] + 1, IF op = "SegmentProd" THEN 1 ELSE 0, LAMBDA q : SegFn(SegKind(op), q))>>
    [] op \in {"UnsortedSegmentSum", "UnsortedSegmentProd", "UnsortedSegmentMax", "UnsortedSegmentMin"} ->
         <<SegRows(x, y, z.d[1], CASE op = "UnsortedSegmentSum" -> 0 [] op = "UnsortedSegmentProd" -> 1 [] OTHER -> Unk, LAMBDA q : SegFn(SegKind(op), q))>>
    [] op \in {"SparseSegmentSum", "SparseSegmentMean", "SparseSegmentSumWithNumSegments", "SparseSegmentMeanWithNumSegments"} ->
         <<SegRows(GatherB(x, y, 1, 0), z, IF Len(xs) = 4 THEN xs[4].d[1] ELSE IF Len(z.d) = 0 THEN 0 ELSE z.d[Len(z.d)] + 1, 0, LAMBDA q : SegFn(SegKind(op), q))>>
    [] op = "Bincount" -> GuardAll(xs, <<IF Len(z.d) = 0 THEN Vec("i32", Force([k \in 1..y.d[1] |-> Cardinality({i \in 1..Len(x.d) : x.d[i] = k - 1})]))
                             ELSE Vec(z.t, Force([k \in 1..y.d[1] |-> SumS([i \in 1..Len(x.d) |-> IF x.d[i] = k - 1 THEN z.d[i] ELSE 0])]))>>)
    [] op = "TopKV2" -> GuardAll(<<x>>, <<LastLines(x.t, x, y.d[1], LAMBDA q : TopKLine(q, y.d[1], "v")), LastLines("i32", x, y.d[1], LAMBDA q : TopKLine(q, y.d[1], "i"))>>)
    [] op \in {"Softmax", "LogSoftmax"} -> <<Undef>>
    \* ------------------------------------------------ shapes and moving
    [] op = "Reshape" -> <<ReshapeTo(x, FillMinus1(SizeOf(x.s), y.d))>>
    [] op = "Transpose" -> <<TransposeT(x, y.d)>>
    [] op = "ExpandDims" -> <<UnsqueezeT(x, <<y.d[1]>>)>>
    [] op = "Squeeze" -> <<IF a["axis"] = <<>> THEN SqueezeAllT(x) ELSE SqueezeT(x, a["axis"])>>
    [] op = "Slice" -> <<StrideSliceT(x, y.d, Const(r, 1), Force([i \in 1..r |-> IF z.d[i] = -1 THEN x.s[i] - y.d[i] ELSE z.d[i]]))>>
    [] op = "StridedSlice" -> <<StridedSliceT(x, y.d, z.d, xs[4].d, a)>>
    [] op = "Gather" -> <<GatherB(x, y, 1, 0)>>
    [] op = "GatherV2" -> LET b == IF Opt(a, "batch_dims", 0) < 0 THEN a["batch_dims"] + Len(y.s) ELSE Opt(a, "batch_dims", 0)
                          IN <<GatherB(x, y, NormAxis(z.d[1], r) + 1, b)>>
    [] op = "GatherNd" -> <<GatherNdT(x, y)>>
    [] op = "ScatterNd" -> IF AnyOp(y.d) THEN <<Undef>> ELSE <<ScatterFold(T(y.t, z.d, Const(SizeOf(z.d), 0)), x, y, LAMBDA u, v : Fit(y.t, AddS(u, v)))>>
    [] op = "TensorScatterUpdate" -> <<ScatterFold(x, y, z, LAMBDA u, v : v)>>
    [] op = "TensorScatterAdd" -> <<ScatterFold(x, y, z, LAMBDA u, v : GuardOp(u, v, AddS(u, v)))>>
    [] op = "TensorScatterSub" -> <<ScatterFold(x, y, z, LAMBDA u, v : GuardOp(u, v, AddS(u, -v)))>>
    [] op = "TensorScatterMax" -> <<ScatterFold(x, y, z, LAMBDA u, v : GuardOp(u, v, MaxI(u, v)))>>
    [] op = "TensorScatterMin" -> <<ScatterFold(x, y, z, LAMBDA u, v : GuardOp(u, v, MinI(u, v)))>>
    [] op = "ConcatV2" -> LET ts == SubSeq(xs, 1, Len(xs) - 1) IN <<ConcatT(ts, NormAxis(xs[Len(xs)].d[1], r) + 1)>>
    [] op = "Split" -> LET ax == NormAxis(x.d[1], Len(y.s)) + 1 IN SplitT(y, ax, Const(nout, y.s[ax] \div nout))
    [] op = "SplitV" -> LET ax == NormAxis(z.d[1], r) + 1
                            sz == Force([i \in 1..Len(y.d) |-> IF y.d[i] = -1 THEN x.s[ax] - (SumQ(y.d) + 1) ELSE y.d[i]])
                        IN SplitT(x, ax, sz)
    [] op = "Pack" -> LET ax == NormAxis(a["axis"], r + 1) IN <<ConcatT(Force([i \in 1..Len(xs) |-> UnsqueezeT(xs[i], <<ax>>)]), ax + 1)>>
    [] op = "Unpack" -> LET ax == NormAxis(a["axis"], r)
                            p == SplitT(x, ax + 1, Const(nout, 1))
                        IN Force([i \in 1..nout |-> SqueezeT(p[i], <<ax>>)])
    [] op \in {"Pad", "PadV2"} -> <<PadT(x, Force([i \in 1..r |-> y.d[2 * i - 1]]), Force([i \in 1..r |-> y.d[2 * i]]), "constant", IF op = "PadV2" THEN z.d[1] ELSE 0)>>
    [] op = "MirrorPad" -> <<PadT(x, Force([i \in 1..r |-> y.d[2 * i - 1]]), Force([i \in 1..r |-> y.d[2 * i]]), IF a["mode"] = "REFLECT" THEN "reflect" ELSE "symmetric", 0)>>
    [] op = "Tile" -> <<TileT(x, y.d)>>
    [] op = "BroadcastTo" -> <<BroadcastT(x, y.d)>>
    [] op = "ReverseV2" -> <<ReverseT(x, AxisSet(y.d, r))>>
    [] op = "ReverseSequence" ->
         LET st == Strides(x.s) sd == NormAxis(a["seq_dim"], r) + 1 bd == NormAxis(a["batch_dim"], r) + 1
         IN <<FromFn(x.t, x.s, LAMBDA mi : LET n == y.d[mi[bd] + 1] IN x.d[1 + FlatOf(IF mi[sd] < n THEN [mi EXCEPT ![sd] = n - 1 - @] ELSE mi, st)])>>
    [] op = "Roll" -> LET st == Strides(x.s)
                          Sh(d) == SumQ([k \in 1..Len(y.d) |-> IF NormAxis(z.d[k], r) + 1 = d THEN y.d[k] ELSE 0])
                          sh == Force([d \in 1..r |-> Sh(d)])
                      IN <<FromFn(x.t, x.s, LAMBDA mi : x.d[1 + FlatOf([d \in 1..r |-> FMod(mi[d] - sh[d], x.s[d])], st)])>>
    [] op = "OneHot" -> LET on == z off == xs[4]
                            ax == IF a["axis"] = -1 THEN r + 1 ELSE a["axis"] + 1
                            ist == Strides(x.s)
                        IN <<FromFn(on.t, SubSeq(x.s, 1, ax - 1) \o <<y.d[1]>> \o SubSeq(x.s, ax, r),
                                    LAMBDA mi : IF x.d[1 + FlatOf(SubSeq(mi, 1, ax - 1) \o SubSeq(mi, ax + 1, r + 1), ist)] = mi[ax] THEN on.d[1] ELSE off.d[1])>>
    [] op = "Range" -> GuardAll(xs, <<LET n == MaxI(0, CDiv(y.d[1] - x.d[1], z.d[1])) IN T(x.t, <<n>>, Force([i \in 1..n |-> x.d[1] + (i - 1) * z.d[1]]))>>)
    [] op = "Fill" -> <<T(y.t, x.d, Const(SizeOf(x.d), y.d[1]))>>
    [] op = "Shape" -> <<Vec(a["out_type"], x.s)>>
    [] op = "ShapeN" -> Force([i \in 1..Len(xs) |-> Vec(a["out_type"], xs[i].s)])
    [] op = "Size" -> <<Scalar(a["out_type"], SizeOf(x.s))>>
    [] op = "Rank" -> <<Scalar("i32", r)>>
    [] op = "Where" -> LET ps == SelectSeq(Iota(Len(x.d)), LAMBDA p : x.d[p + 1] # 0)
                           st == Strides(x.s)
                       IN <<FromFn("i64", <<Len(ps), r>>, LAMBDA mi : (ps[mi[1] + 1] \div st[mi[2] + 1]) % x.s[mi[2] + 1])>>
    [] op = "MatrixBandPart" -> LET st == Strides(x.s) IN
         <<FromFn(x.t, x.s, LAMBDA mi : IF (y.d[1] < 0 \/ mi[r - 1] - mi[r] <= y.d[1]) /\ (z.d[1] < 0 \/ mi[r] - mi[r - 1] <= z.d[1]) THEN x.d[1 + FlatOf(mi, st)] ELSE 0)>>
    [] op = "MatrixDiag" -> LET st == Strides(x.s) IN
         <<FromFn(x.t, x.s \o <<x.s[r]>>, LAMBDA mi : IF mi[r] = mi[r + 1] THEN x.d[1 + FlatOf(SubSeq(mi, 1, r), st)] ELSE 0)>>
    [] op = "MatrixDiagPart" -> LET st == Strides(x.s) IN
         <<FromFn(x.t, SubSeq(x.s, 1, r - 2) \o <<MinI(x.s[r - 1], x.s[r])>>, LAMBDA mi : x.d[1 + FlatOf(mi \o <<mi[r - 1]>>, st)])>>
    [] op = "InvertPermutation" -> <<Vec(x.t, Force([i \in 1..Len(x.d) |-> (CHOOSE k \in 1..Len(x.d) : x.d[k] = i - 1) - 1]))>>
    [] op = "DynamicPartition" ->
         LET k == Len(y.s) inner == SubSeq(x.s, k + 1, r) m == SizeOf(inner)
             Part(p) == LET ps == SelectSeq(Iota(Len(y.d)), LAMBDA i : y.d[i + 1] = p)
                        IN T(x.t, <<Len(ps)>> \o inner, FoldLeft(LAMBDA acc, i : acc \o SubSeq(x.d, i * m + 1, (i + 1) * m), <<>>, ps))
         IN Force([p \in 1..nout |-> Part(p - 1)])
    [] op \in {"DynamicStitch", "ParallelDynamicStitch"} ->
         LET n == Len(xs) \div 2
             inner == SubSeq(xs[n + 1].s, Len(xs[1].s) + 1, Len(xs[n + 1].s))
             m == SizeOf(inner)
             ix == FoldLeft(LAMBDA acc, i : acc \o xs[i].d, <<>>, Force([i \in 1..n |-> i]))
             dt == FoldLeft(LAMBDA acc, i : acc \o xs[n + i].d, <<>>, Force([i \in 1..n |-> i]))
             top == IF ix = <<>> THEN 0 ELSE MaxQ(ix) + 1
             Row(p) == LET h == {i \in 1..Len(ix) : ix[i] = p} IN IF h = {} THEN Const(m, Unk)
                       ELSE LET i == CHOOSE i \in h : \A j \in h : j <= i IN SubSeq(dt, (i - 1) * m + 1, i * m)
         IN IF \E p \in 0..(top - 1) : ~ \E i \in 1..Len(ix) : ix[i] = p THEN <<Undef>>
            ELSE <<T(xs[n + 1].t, <<top>> \o inner, FoldLeft(LAMBDA acc, p : acc \o Row(p), <<>>, Iota(top)))>>
    [] op \in {"Unique", "UniqueWithCounts"} ->
         LET u == Uniq(x.d, <<>>)
             ix == Vec(a["out_idx"], Force([i \in 1..Len(x.d) |-> PosIn(x.d[i], u) - 1]))
         IN GuardAll(<<x>>, <<Vec(x.t, u), ix>> \o (IF op = "Unique" THEN <<>> ELSE <<Vec(a["out_idx"], Force([k \in 1..Len(u) |-> Cardinality({i \in 1..Len(x.d) : x.d[i] = u[k]})]))>>))
    [] op = "SparseToDense" -> \* indices [n, k], output shape, values, default
         LET base == T(z.t, y.d, Const(SizeOf(y.d), xs[4].d[1]))
             ind == IF r = 1 THEN ReshapeTo(x, x.s \o <<1>>) ELSE x
             upd == IF Len(z.s) = 0 THEN T(z.t, <<RowsOf(ind)>>, Const(RowsOf(ind), z.d[1])) ELSE z
         IN IF r = 0 THEN <<Undef>> ELSE <<ScatterFold(base, ind, upd, LAMBDA u, v : v)>>
    \* -------------------------------------------- space, depth and batch
    [] op = "DepthToSpace" ->
         LET b == a["block_size"]
             q == ToNCHW(x, a["data_format"])
             c == q.s[2] \div (b * b) h == q.s[3] w == q.s[4] n == q.s[1]
         IN <<FromNCHW(ReshapeTo(TransposeT(ReshapeTo(q, <<n, b, b, c, h, w>>), <<0, 3, 4, 1, 5, 2>>), <<n, c, h * b, w * b>>), a["data_format"])>>
    [] op = "SpaceToDepth" ->
         LET b == a["block_size"]
             q == ToNCHW(x, a["data_format"])
             c == q.s[2] h == q.s[3] \div b w == q.s[4] \div b n == q.s[1]
         IN <<FromNCHW(ReshapeTo(TransposeT(ReshapeTo(q, <<n, c, h, b, w, b>>), <<0, 3, 5, 1, 2, 4>>), <<n, c * b * b, h, w>>), a["data_format"])>>
    [] op = "SpaceToBatchND" ->
         LET m == Len(y.d)
             p == PadT(x, Force([i \in 1..r |-> IF i = 1 \/ i > m + 1 THEN 0 ELSE z.d[2 * (i - 1) - 1]]), Force([i \in 1..r |-> IF i = 1 \/ i > m + 1 THEN 0 ELSE z.d[2 * (i - 1)]]), "constant", 0)
             rest == SubSeq(p.s, m + 2, r)
             split == FoldLeft(LAMBDA acc, i : acc \o <<p.s[i + 1] \div y.d[i], y.d[i]>>, <<p.s[1]>>, Force([i \in 1..m |-> i])) \o rest
             perm == Force([i \in 1..m |-> 2 * i]) \o <<0>> \o Force([i \in 1..m |-> 2 * i - 1]) \o Force([i \in 1..Len(rest) |-> 2 * m + i])
         IN <<ReshapeTo(TransposeT(ReshapeTo(p, split), perm), <<p.s[1] * ProdQ(y.d)>> \o Force([i \in 1..m |-> p.s[i + 1] \div y.d[i]]) \o rest)>>
    [] op = "BatchToSpaceND" ->
         LET m == Len(y.d)
             rest == SubSeq(x.s, m + 2, r)
             n == x.s[1] \div ProdQ(y.d)
             q == ReshapeTo(x, y.d \o <<n>> \o SubSeq(x.s, 2, m + 1) \o rest)
             perm == <<m>> \o FoldLeft(LAMBDA acc, i : acc \o <<m + i, i - 1>>, <<>>, Force([i \in 1..m |-> i])) \o Force([i \in 1..Len(rest) |-> 2 * m + i])
             full == ReshapeTo(TransposeT(q, perm), <<n>> \o Force([i \in 1..m |-> x.s[i + 1] * y.d[i]]) \o rest)
         IN <<StrideSliceT(full, Force([i \in 1..r |-> IF i = 1 \/ i > m + 1 THEN 0 ELSE z.d[2 * (i - 1) - 1]]), Const(r, 1),
                           Force([i \in 1..r |-> IF i = 1 \/ i > m + 1 THEN full.s[i] ELSE full.s[i] - z.d[2 * (i - 1) - 1] - z.d[2 * (i - 1)]]))>>
    [] op = "ResizeNearestNeighbor" ->
         LET oh == y.d[1] ow == y.d[2]
             al == a["align_corners"] = 1 hp == a["half_pixel_centers"] = 1
             Src(i, n, o) == IF al /\ o > 1 THEN MinI(n - 1, (2 * i * (n - 1) + (o - 1)) \div (2 * (o - 1)))
                             ELSE IF hp THEN MaxI(0, MinI(n - 1, ((2 * i + 1) * n) \div (2 * o)))
                             ELSE MinI(n - 1, (i * n) \div o)
             st == Strides(x.s)
         IN <<FromFn(x.t, <<x.s[1], oh, ow, x.s[4]>>, LAMBDA mi : x.d[1 + FlatOf(<<mi[1], Src(mi[2], x.s[2], oh), Src(mi[3], x.s[3], ow), mi[4]>>, st)])>>
    \* ---------------------------------------------------- linear algebra
    [] op = "MatMul" -> GuardAll(xs, <<MatMul2(x.t, IF a["transpose_a"] = 1 THEN TransposeT(x, <<1, 0>>) ELSE x, IF a["transpose_b"] = 1 THEN TransposeT(y, <<1, 0>>) ELSE y)>>)
    [] op \in {"BatchMatMul", "BatchMatMulV2", "BatchMatMulV3"} ->
         LET Tr(w) == LET n == Len(w.s) IN TransposeT(w, Iota(n - 2) \o <<n - 1, n - 2>>)
         IN GuardAll(xs, <<MatMul2(x.t, IF a["adj_x"] = 1 THEN Tr(x) ELSE x, IF a["adj_y"] = 1 THEN Tr(y) ELSE y)>>)
    [] op = "Einsum" -> GuardAll(xs, <<EinsumT(x.t, xs, a["terms"], a["outl"])>>)
    [] op \in {"Conv2D", "Conv3D", "DepthwiseConv2dNative"} ->
         LET df == a["data_format"]
             q == ToNCHW(x, df)
             st == Spatial(a["strides"], df)
             dl == Spatial(a["dilations"], df)
             rk == Len(y.s)
             ks == SubSeq(y.s, 1, rk - 2)
             dw == op = "DepthwiseConv2dNative"
             w == IF dw THEN LET k == TransposeT(y, <<2, 3, 0, 1>>) IN ReshapeTo(k, <<k.s[1] * k.s[2], 1, k.s[3], k.s[4]>>) ELSE KernelOI(y)
             pd == TFPads(SubSeq(q.s, 3, r), ks, st, dl, a, df)
             g == IF dw THEN q.s[2] ELSE q.s[2] \div w.s[2]
         IN GuardAll(xs, <<FromNCHW(ConvT(x.t, q, w, st, dl, pd[1], pd[2], g), df)>>)
    [] op \in {"Conv2DBackpropInput", "Conv3DBackpropInputV2"} ->  \* x: sizes of the result, y: kernel, z: gradient
         LET df == a["data_format"]
             q == ToNCHW(z, df)
             st == Spatial(a["strides"], df)
             dl == Spatial(a["dilations"], df)
             rk == Len(y.s)
             ks == SubSeq(y.s, 1, rk - 2)
             os == Spatial(x.d, df)
             pd == TFPads(os, ks, st, dl, a, df)
         IN GuardAll(xs, <<FromNCHW(ConvTransposeT(z.t, q, KernelOI(y), st, dl, pd[1], os, 1), df)>>)
    [] op \in {"MaxPool", "AvgPool", "MaxPool3D", "AvgPool3D", "MaxPoolV2"} ->
         LET df == a["data_format"]
             q == ToNCHW(x, df)
             ks == Spatial(IF op = "MaxPoolV2" THEN y.d ELSE a["ksize"], df)
             st == Spatial(IF op = "MaxPoolV2" THEN z.d ELSE a["strides"], df)
             sp == Len(ks)
             one == Const(sp, 1)
             pd == TFPads(SubSeq(q.s, 3, r), ks, st, one, a, df)
             os == Force([i \in 1..sp |-> ((q.s[i + 2] + pd[1][i] + pd[2][i] - ks[i]) \div st[i]) + 1])
         IN <<FromNCHW(PoolT(x.t, q, ks, st, one, pd[1], os,
                        LAMBDA w, n : IF AnyOp(w) \/ Len(w) = 0 THEN Unk ELSE IF op \in {"MaxPool", "MaxPool3D", "MaxPoolV2"} THEN MaxQ(w)
                                      ELSE RatV(SumS(w), Len(w))), df)>>
    [] op = "MaxPoolWithArgmax" ->   \* (values pairwise different within a window)
         LET ks == SubSeq(a["ksize"], 2, 3) st == SubSeq(a["strides"], 2, 3)
             h == x.s[2] w == x.s[3] c == x.s[4]
             pd == TFPads(<<h, w>>, ks, st, <<1, 1>>, a, "NHWC")
             os == Force([i \in 1..2 |-> ((x.s[i + 1] + pd[1][i] + pd[2][i] - ks[i]) \div st[i]) + 1])
             xst == Strides(x.s)
             Win(mi) == {p \in ((mi[2] * st[1] - pd[1][1])..(mi[2] * st[1] - pd[1][1] + ks[1] - 1)) \X ((mi[3] * st[2] - pd[1][2])..(mi[3] * st[2] - pd[1][2] + ks[2] - 1)) :
                           p[1] >= 0 /\ p[1] < h /\ p[2] >= 0 /\ p[2] < w}
             Pix(mi, p) == x.d[1 + FlatOf(<<mi[1], p[1], p[2], mi[4]>>, xst)]
             Best(mi) == CHOOSE b \in Win(mi) : \A q \in Win(mi) : Pix(mi, q) <= Pix(mi, b)
             ns == <<x.s[1], os[1], os[2], c>>
             base(mi) == IF a["include_batch_in_index"] = 1 THEN mi[1] * h ELSE 0
         IN GuardAll(<<x>>, <<FromFn(x.t, ns, LAMBDA mi : Pix(mi, Best(mi))),
                              FromFn(a["Targmax"], ns, LAMBDA mi : LET b == Best(mi) IN ((base(mi) + b[1]) * w + b[2]) * c + mi[4])>>)
    [] op \in {"FusedBatchNorm", "FusedBatchNormV2", "FusedBatchNormV3"} ->   \* _eps: the epsilon, an integer; _k: 1 when inference
         LET ch == IF a["data_format"] \in {"NHWC", "NDHWC"} THEN r ELSE 2
             scale == y.d bias == z.d mean == xs[4].d var == xs[5].d
         IN IF a["is_training"] = 1 \/ "_eps" \notin DOMAIN a THEN Force([i \in 1..nout |-> Undef])
            ELSE <<FromFn(x.t, x.s, LAMBDA mi :
                      LET k == mi[ch] + 1 v == x.d[1 + FlatOf(mi, Strides(x.s))] s == SqrtV(var[k] + a["_eps"])
                      IN IF IsOp(v) \/ IsOp(s) \/ IsOp(scale[k]) \/ IsOp(bias[k]) \/ IsOp(mean[k]) \/ s = 0 THEN Unk
                         ELSE RatV(scale[k] * (v - mean[k]) + s * bias[k], s))>> \o Force([i \in 1..(nout - 1) |-> Undef])
    [] op = "ResizeBilinear" ->
         LET al == a["align_corners"] = 1 hp == a["half_pixel_centers"] = 1
             \* position of result index i as <<numerator, denominator>>
             Pos(i, n, o) == IF al /\ o > 1 THEN <<i * (n - 1), o - 1>>
                             ELSE IF hp THEN <<(2 * i + 1) * n - o, 2 * o>>
                             ELSE <<i * n, o>>
             Lo(p) == FDiv(p[1], p[2])
             Fr(p) == p[1] - Lo(p) * p[2]
             Cl(v, n) == MaxI(0, MinI(n - 1, v))
             st == Strides(x.s)
             oh == y.d[1] ow == y.d[2]
         IN <<FromFn("f32", <<x.s[1], oh, ow, x.s[4]>>, LAMBDA mi :
                LET ph == Pos(mi[2], x.s[2], oh) pw == Pos(mi[3], x.s[3], ow)
                    Pix(i, j) == x.d[1 + FlatOf(<<mi[1], Cl(i, x.s[2]), Cl(j, x.s[3]), mi[4]>>, st)]
                    fh == Fr(ph) fw == Fr(pw) lh == Lo(ph) lw == Lo(pw)
                    q == <<Pix(lh, lw), Pix(lh, lw + 1), Pix(lh + 1, lw), Pix(lh + 1, lw + 1)>>
                IN IF AnyOp(q) \/ AbsI(q[1]) + AbsI(q[2]) + AbsI(q[3]) + AbsI(q[4]) > 4000 THEN Unk
                   ELSE RatV((ph[2] - fh) * ((pw[2] - fw) * q[1] + fw * q[2]) + fh * ((pw[2] - fw) * q[3] + fw * q[4]), ph[2] * pw[2]))>>
    [] op = "ExtractImagePatches" ->
         LET ks == SubSeq(a["ksizes"], 2, 3) st == SubSeq(a["strides"], 2, 3) rt == SubSeq(a["rates"], 2, 3)
             h == x.s[2] w == x.s[3] c == x.s[4]
             pd == TFPads(<<h, w>>, ks, st, rt, a, "NHWC")
             os == Force([i \in 1..2 |-> ((x.s[i + 1] + pd[1][i] + pd[2][i] - ((ks[i] - 1) * rt[i] + 1)) \div st[i]) + 1])
             xst == Strides(x.s)
         IN <<FromFn(x.t, <<x.s[1], os[1], os[2], ks[1] * ks[2] * c>>, LAMBDA mi :
                LET kc == mi[4] % c kp == mi[4] \div c
                    i == mi[2] * st[1] - pd[1][1] + (kp \div ks[2]) * rt[1]
                    j == mi[3] * st[2] - pd[1][2] + (kp % ks[2]) * rt[2]
                IN IF i < 0 \/ i >= h \/ j < 0 \/ j >= w THEN 0 ELSE x.d[1 + FlatOf(<<mi[1], i, j, kc>>, xst)])>>
    [] op = "Const" -> <<a["value"]>>
    [] OTHER -> Force([i \in 1..nout |-> Undef])
=============================================================================
