------------------------------- MODULE Tensor -------------------------------
(***************************************************************************)
(* Integer tensors in row-major order and the data-movement / reduction    *)
(* vocabulary shared by the ONNX and the TensorFlow denotations.           *)
(*                                                                         *)
(* A tensor is [t |-> dtype, s |-> shape, d |-> data].  Booleans are 0/1.  *)
(* Floating tensors hold integer values (the generators keep them exactly  *)
(* representable); other float values are opaque codes >= 10^6 that only   *)
(* data-movement operators may touch.                                      *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, SequencesExt

\* forces TLC to materialise a function over 1..n instead of keeping it lazy
Force(f) == f \o <<>>

Range0(n) == 0..(n - 1)
MinI(a, b) == IF a <= b THEN a ELSE b
MaxI(a, b) == IF a >= b THEN a ELSE b
AbsI(a) == IF a < 0 THEN -a ELSE a
SignI(a) == IF a < 0 THEN -1 ELSE IF a > 0 THEN 1 ELSE 0
B2I(b) == IF b THEN 1 ELSE 0

\* truncating / flooring / ceiling integer division for every sign (TLC's \div floors for positive divisors)
FDiv(a, b) == IF b > 0 THEN a \div b ELSE (-a) \div (-b)
TDiv(a, b) == LET q == AbsI(a) \div AbsI(b) IN IF (a < 0) = (b < 0) THEN q ELSE -q
CDiv(a, b) == -(FDiv(-a, b))
FMod(a, b) == a - b * FDiv(a, b)
TMod(a, b) == a - b * TDiv(a, b)

RECURSIVE PowI(_, _)
PowI(a, b) == IF b = 0 THEN 1 ELSE a * PowI(a, b - 1)

SumQ(q) == FoldLeft(LAMBDA a, b : a + b, 0, q)
ProdQ(q) == FoldLeft(LAMBDA a, b : a * b, 1, q)
\* saturating arithmetic for tensor values (TLC integers have 32 bits); results >= Huge are not trusted
Huge == 1000000000
AddS(a, b) == IF AbsI(a) < Huge /\ AbsI(b) < Huge THEN a + b ELSE Huge
MulS(a, b) == IF AbsI(a) < 30000 /\ AbsI(b) < 30000 THEN a * b
              ELSE IF a = 0 \/ b = 0 THEN 0
              ELSE IF AbsI(a) < Huge /\ AbsI(b) < Huge /\ AbsI(a) <= Huge \div AbsI(b) THEN a * b ELSE Huge
SumS(q) == FoldLeft(LAMBDA a, b : AddS(a, b), 0, q)
ProdS(q) == FoldLeft(LAMBDA a, b : MulS(a, b), 1, q)
MaxQ(q) == FoldLeft(LAMBDA a, b : MaxI(a, b), q[1], q)
MinQ(q) == FoldLeft(LAMBDA a, b : MinI(a, b), q[1], q)

Const(n, v) == Force([i \in 1..n |-> v])
Iota(n) == Force([i \in 1..n |-> i - 1])
RevQ(q) == Force([i \in 1..Len(q) |-> q[Len(q) + 1 - i]])
ToSetQ(q) == {q[i] : i \in 1..Len(q)}
\* the elements of q at the positions in the (sorted) set P
RECURSIVE SortedSeq(_)
SortedSeq(S) == IF S = {} THEN <<>>
                ELSE LET m == CHOOSE x \in S : \A y \in S : x <= y
                     IN <<m>> \o SortedSeq(S \ {m})
PickQ(q, P) == LET ps == SortedSeq(P) IN Force([i \in 1..Len(ps) |-> q[ps[i]]])
DropQ(q, P) == PickQ(q, (1..Len(q)) \ P)
PosIn(x, q) == CHOOSE i \in 1..Len(q) : q[i] = x

(*********************************** shapes *********************************)
SizeOf(s) == ProdQ(s)
Strides(s) ==
  LET n == Len(s)
      RECURSIVE Go(_)
      Go(i) == IF i > n THEN <<1>>
               ELSE LET r == Go(i + 1) IN <<r[1] * s[i]>> \o r
      all == Go(1)
  IN Force([i \in 1..n |-> all[i + 1]])
FlatOf(mi, st) == LET RECURSIVE Go(_)
                      Go(i) == IF i = 0 THEN 0 ELSE mi[i] * st[i] + Go(i - 1)
                  IN Go(Len(st))
T(t, s, d) == [t |-> t, s |-> s, d |-> d]
\* F maps a 0-based multi-index to a value
FromFn(t, s, F(_)) ==
  LET st == Strides(s)
      n == SizeOf(s)
      r == Len(s)
  IN T(t, s, Force([k \in 1..n |-> F([j \in 1..r |-> ((k - 1) \div st[j]) % s[j]])]))
At(x, st, mi) == x.d[1 + FlatOf(mi, st)]
Rank(x) == Len(x.s)
NormAxis(a, r) == IF a < 0 THEN a + r ELSE a
NormAxes(as, r) == Force([i \in 1..Len(as) |-> NormAxis(as[i], r)])
AxisSet(as, r) == {NormAxis(as[i], r) + 1 : i \in 1..Len(as)}   \* 1-based positions
Scalar(t, v) == T(t, <<>>, <<v>>)
Vec(t, q) == T(t, <<Len(q)>>, q)

(******************************* data movement ******************************)
TransposeT(x, perm) ==
  LET st == Strides(x.s)
      r == Len(x.s)
      ns == Force([j \in 1..r |-> x.s[perm[j] + 1]])
      nst == Force([j \in 1..r |-> st[perm[j] + 1]])
  IN FromFn(x.t, ns, LAMBDA mi : x.d[1 + FlatOf(mi, nst)])
ReshapeTo(x, s) == T(x.t, s, x.d)
\* resolves one -1
FillMinus1(sz, dims) ==
  LET known == ProdQ([i \in 1..Len(dims) |-> IF dims[i] = -1 THEN 1 ELSE dims[i]])
  IN Force([i \in 1..Len(dims) |-> IF dims[i] = -1 THEN (IF known = 0 THEN 0 ELSE sz \div known) ELSE dims[i]])
UnsqueezeT(x, axes) ==
  LET r == Len(x.s) + Len(axes)
      A == AxisSet(axes, r)
      rest == SortedSeq((1..r) \ A)
  IN ReshapeTo(x, Force([i \in 1..r |-> IF i \in A THEN 1 ELSE x.s[PosIn(i, rest)]]))
SqueezeT(x, axes) == ReshapeTo(x, DropQ(x.s, AxisSet(axes, Len(x.s))))
SqueezeAllT(x) == ReshapeTo(x, DropQ(x.s, {i \in 1..Len(x.s) : x.s[i] = 1}))

BShape(s1, s2) ==
  LET r == MaxI(Len(s1), Len(s2))
      D(s, i) == LET k == i - (r - Len(s)) IN IF k < 1 THEN 1 ELSE s[k]
  IN Force([i \in 1..r |-> IF D(s1, i) = 1 THEN D(s2, i) ELSE D(s1, i)])
\* strides of x viewed with shape s (0 along broadcast dimensions)
BStrides(x, s) ==
  LET st == Strides(x.s)
      off == Len(s) - Len(x.s)
  IN Force([i \in 1..Len(s) |-> IF i <= off THEN 0 ELSE IF x.s[i - off] = 1 THEN 0 ELSE st[i - off]])
BroadcastT(x, s) ==
  LET bs == BStrides(x, s) IN FromFn(x.t, s, LAMBDA mi : x.d[1 + FlatOf(mi, bs)])
Map1(t, x, F(_)) == T(t, x.s, Force([k \in 1..Len(x.d) |-> F(x.d[k])]))
Map2(t, x, y, F(_, _)) ==
  IF x.s = y.s THEN T(t, x.s, Force([k \in 1..Len(x.d) |-> F(x.d[k], y.d[k])]))
  ELSE LET s == BShape(x.s, y.s)
           bx == BStrides(x, s)
           by == BStrides(y, s)
       IN FromFn(t, s, LAMBDA mi : F(x.d[1 + FlatOf(mi, bx)], y.d[1 + FlatOf(mi, by)]))
WhereT(c, x, y) ==
  LET s == BShape(BShape(c.s, x.s), y.s)
      bc == BStrides(c, s)
      bx == BStrides(x, s)
      by == BStrides(y, s)
  IN FromFn(x.t, s, LAMBDA mi : IF c.d[1 + FlatOf(mi, bc)] # 0 THEN x.d[1 + FlatOf(mi, bx)]
                                ELSE y.d[1 + FlatOf(mi, by)])

\* begin/step per dimension, result sizes ns: out[i] = x[begin + i*step]
StrideSliceT(x, begin, step, ns) ==
  LET st == Strides(x.s)
      base == FlatOf(begin, st)
      sst == Force([i \in 1..Len(st) |-> st[i] * step[i]])
  IN FromFn(x.t, ns, LAMBDA mi : x.d[1 + base + FlatOf(mi, sst)])

ConcatT(xs, axis) ==   \* axis 1-based
  LET n == Len(xs)
      lens == Force([i \in 1..n |-> xs[i].s[axis]])
      offs == Force([i \in 1..n |-> SumQ(SubSeq(lens, 1, i - 1))])
      ns == [xs[1].s EXCEPT ![axis] = SumQ(lens)]
      sts == Force([i \in 1..n |-> Strides(xs[i].s)])
      Which(p) == CHOOSE i \in 1..n : offs[i] <= p /\ p < offs[i] + lens[i]
  IN FromFn(xs[1].t, ns, LAMBDA mi : LET w == Which(mi[axis])
                                     IN xs[w].d[1 + FlatOf([mi EXCEPT ![axis] = @ - offs[w]], sts[w])])
\* split into pieces of the given sizes along axis (1-based)
SplitT(x, axis, sizes) ==
  LET n == Len(sizes)
      offs == Force([i \in 1..n |-> SumQ(SubSeq(sizes, 1, i - 1))])
      one == Const(Len(x.s), 1)
  IN Force([i \in 1..n |-> StrideSliceT(x, [Const(Len(x.s), 0) EXCEPT ![axis] = offs[i]], one,
                                        [x.s EXCEPT ![axis] = sizes[i]])])
\* out[.. axis := indices ..]
GatherT(x, ind, axis) ==
  LET st == Strides(x.s)
      r == Len(x.s)
      q == Len(ind.s)
      ist == Strides(ind.s)
      ns == SubSeq(x.s, 1, axis - 1) \o ind.s \o SubSeq(x.s, axis + 1, r)
      dim == x.s[axis]
  IN FromFn(x.t, ns, LAMBDA mi :
       LET iv == ind.d[1 + FlatOf(SubSeq(mi, axis, axis + q - 1), ist)]
           v == IF iv < 0 THEN iv + dim ELSE iv
           xi == SubSeq(mi, 1, axis - 1) \o <<v>> \o SubSeq(mi, axis + q, Len(ns))
       IN x.d[1 + FlatOf(xi, st)])
TileT(x, reps) ==
  LET st == Strides(x.s)
  IN FromFn(x.t, Force([i \in 1..Len(x.s) |-> x.s[i] * reps[i]]),
            LAMBDA mi : x.d[1 + FlatOf([i \in 1..Len(x.s) |-> mi[i] % x.s[i]], st)])
\* mode: "constant" "edge" "reflect" "symmetric"; negative pads crop (constant only)
PadT(x, before, after, mode, v) ==
  LET st == Strides(x.s)
      r == Len(x.s)
      ns == Force([i \in 1..r |-> x.s[i] + before[i] + after[i]])
      Src(p, n) == CASE mode = "edge" -> IF p < 0 THEN 0 ELSE IF p >= n THEN n - 1 ELSE p
                     [] mode = "reflect" -> IF p < 0 THEN -p ELSE IF p >= n THEN 2 * n - 2 - p ELSE p
                     [] mode = "symmetric" -> IF p < 0 THEN -p - 1 ELSE IF p >= n THEN 2 * n - 1 - p ELSE p
                     [] OTHER -> p
  IN FromFn(x.t, ns, LAMBDA mi :
       LET q == Force([i \in 1..r |-> mi[i] - before[i]])
       IN IF mode = "constant"
          THEN IF \A i \in 1..r : q[i] >= 0 /\ q[i] < x.s[i] THEN x.d[1 + FlatOf(q, st)] ELSE v
          ELSE x.d[1 + FlatOf([i \in 1..r |-> Src(q[i], x.s[i])], st)])
ReverseT(x, A) ==   \* A: set of 1-based axes
  LET st == Strides(x.s)
  IN FromFn(x.t, x.s, LAMBDA mi : x.d[1 + FlatOf([i \in 1..Len(x.s) |-> IF i \in A THEN x.s[i] - 1 - mi[i] ELSE mi[i]], st)])

(********************************* reduction ********************************)
\* F folds a sequence of values; A: set of 1-based axes; keep: BOOLEAN
ReduceT(t, x, A, keep, F(_)) ==
  LET r == Len(x.s)
      st == Strides(x.s)
      ax == SortedSeq(A)
      rs == Force([i \in 1..Len(ax) |-> x.s[ax[i]]])
      rst == Strides(rs)
      kst == Force([i \in 1..Len(ax) |-> st[ax[i]]])
      n == SizeOf(rs)
      \* offsets of the reduced positions
      offs == Force([k \in 1..n |-> FlatOf([j \in 1..Len(ax) |-> ((k - 1) \div rst[j]) % rs[j]], kst)])
      ns == Force([i \in 1..r |-> IF i \in A THEN 1 ELSE x.s[i]])
      y == FromFn(t, ns, LAMBDA mi : LET b == FlatOf(mi, st) IN F([k \in 1..n |-> x.d[1 + b + offs[k]]]))
  IN IF keep THEN y ELSE ReshapeTo(y, DropQ(ns, A))
ArgMaxQ(q, last) == LET m == MaxQ(q) IN
  (IF last THEN CHOOSE i \in 1..Len(q) : q[i] = m /\ \A j \in (i + 1)..Len(q) : q[j] # m
   ELSE CHOOSE i \in 1..Len(q) : q[i] = m /\ \A j \in 1..(i - 1) : q[j] # m) - 1
ArgMinQ(q, last) == ArgMaxQ([i \in 1..Len(q) |-> -q[i]], last)
\* each line along axis (1-based) transformed by F (sequence -> sequence of the same length)
LinesT(t, x, axis, F(_)) ==
  LET st == Strides(x.s)
      n == x.s[axis]
      heads == FromFn(t, [x.s EXCEPT ![axis] = 1],
                 LAMBDA mi : LET b == FlatOf(mi, st) IN Force(F(Force([k \in 1..n |-> x.d[1 + b + (k - 1) * st[axis]]]))))
      hst == Strides(heads.s)
  IN FromFn(t, x.s, LAMBDA mi : heads.d[1 + FlatOf([mi EXCEPT ![axis] = 0], hst)][1 + mi[axis]])
CumSumQ(q, excl, rev) ==
  LET n == Len(q)
  IN Force([i \in 1..n |-> IF rev THEN SumS(SubSeq(q, IF excl THEN i + 1 ELSE i, n))
                           ELSE SumS(SubSeq(q, 1, IF excl THEN i - 1 ELSE i))])

(******************************* linear algebra *****************************)
\* batched matrix product of two tensors of rank >= 2 with broadcast batch dimensions
MatMul2(t, x, y) ==
  LET rx == Len(x.s)
      ry == Len(y.s)
      m == x.s[rx - 1]
      k == x.s[rx]
      n == y.s[ry]
      bs == BShape(SubSeq(x.s, 1, rx - 2), SubSeq(y.s, 1, ry - 2))
      nb == Len(bs)
      bx == BStrides(x, bs \o <<m, k>>)
      by == BStrides(y, bs \o <<k, n>>)
  IN FromFn(t, bs \o <<m, n>>, LAMBDA mi :
       LET ox == FlatOf(SubSeq(mi, 1, nb) \o <<mi[nb + 1], 0>>, bx)
           oy == FlatOf(SubSeq(mi, 1, nb) \o <<0, mi[nb + 2]>>, by)
       IN SumS([j \in 1..k |-> MulS(x.d[1 + ox + (j - 1) * bx[nb + 2]], y.d[1 + oy + (j - 1) * by[nb + 1]])]))
MatMulT(t, x, y) ==
  LET x2 == IF Len(x.s) = 1 THEN ReshapeTo(x, <<1>> \o x.s) ELSE x
      y2 == IF Len(y.s) = 1 THEN ReshapeTo(y, y.s \o <<1>>) ELSE y
      z == MatMul2(t, x2, y2)
      r == Len(z.s)
      drop == (IF Len(x.s) = 1 THEN {r - 1} ELSE {}) \cup (IF Len(y.s) = 1 THEN {r} ELSE {})
  IN ReshapeTo(z, DropQ(z.s, drop))

\* convolution of x [N, C, spatial...] with w [M, C/group, kernel...]; pads begin/end per spatial dim
ConvT(t, x, w, strides, dil, pb, pe, group) ==
  LET sp == Len(x.s) - 2
      st == Strides(x.s)
      wst == Strides(w.s)
      cg == w.s[2]
      mg == w.s[1] \div group
      ks == SubSeq(w.s, 3, Len(w.s))
      os == Force([i \in 1..sp |-> ((x.s[i + 2] + pb[i] + pe[i] - ((ks[i] - 1) * dil[i] + 1)) \div strides[i]) + 1])
      kst == Strides(ks)
      nk == SizeOf(ks)
      kpos == Force([k \in 1..nk |-> Force([j \in 1..sp |-> ((k - 1) \div kst[j]) % ks[j]])])
  IN FromFn(t, <<x.s[1], w.s[1]>> \o os, LAMBDA mi :
       LET g == mi[2] \div mg
           Term(k) == LET kp == kpos[k]
                          pos == Force([j \in 1..sp |-> mi[j + 2] * strides[j] + kp[j] * dil[j] - pb[j]])
                      IN IF \A j \in 1..sp : pos[j] >= 0 /\ pos[j] < x.s[j + 2]
                         THEN SumS([c \in 1..cg |-> MulS(x.d[1 + FlatOf(<<mi[1], g * cg + c - 1>> \o pos, st)],
                                                       w.d[1 + FlatOf(<<mi[2], c - 1>> \o kp, wst)])])
                         ELSE 0
       IN SumS([k \in 1..nk |-> Term(k)]))
\* window fold over x [N, C, spatial...]: F(values inside the image, number of window positions)
PoolT(t, x, ks, strides, dil, pb, os, F(_, _)) ==
  LET sp == Len(x.s) - 2
      st == Strides(x.s)
      kst == Strides(ks)
      nk == SizeOf(ks)
      kpos == Force([k \in 1..nk |-> Force([j \in 1..sp |-> ((k - 1) \div kst[j]) % ks[j]])])
  IN FromFn(t, <<x.s[1], x.s[2]>> \o os, LAMBDA mi :
       LET Pos(k) == Force([j \in 1..sp |-> mi[j + 2] * strides[j] + kpos[k][j] * dil[j] - pb[j]])
           ok == SelectSeq(Force([k \in 1..nk |-> Pos(k)]), LAMBDA p : \A j \in 1..sp : p[j] >= 0 /\ p[j] < x.s[j + 2])
       IN F(Force([i \in 1..Len(ok) |-> x.d[1 + FlatOf(<<mi[1], mi[2]>> \o ok[i], st)]]), nk))
\* transposed convolution: x [N, C, sp], w [C, M/group, k]; out spatial os, crop pb at the beginning
ConvTransposeT(t, x, w, strides, dil, pb, os, group) ==
  LET sp == Len(x.s) - 2
      st == Strides(x.s)
      wst == Strides(w.s)
      mg == w.s[2]
      cg == x.s[2] \div group
      ks == SubSeq(w.s, 3, Len(w.s))
      kst == Strides(ks)
      nk == SizeOf(ks)
      kpos == Force([k \in 1..nk |-> Force([j \in 1..sp |-> ((k - 1) \div kst[j]) % ks[j]])])
  IN FromFn(t, <<x.s[1], mg * group>> \o os, LAMBDA mi :
       LET g == mi[2] \div mg
           Term(k) == LET kp == kpos[k]
                          num == Force([j \in 1..sp |-> mi[j + 2] + pb[j] - kp[j] * dil[j]])
                      IN IF \A j \in 1..sp : num[j] >= 0 /\ num[j] % strides[j] = 0 /\ num[j] \div strides[j] < x.s[j + 2]
                         THEN SumS([c \in 1..cg |-> MulS(
                                x.d[1 + FlatOf(<<mi[1], g * cg + c - 1>> \o [j \in 1..sp |-> num[j] \div strides[j]], st)],
                                w.d[1 + FlatOf(<<g * cg + c - 1, mi[2] % mg>> \o kp, wst)])])
                         ELSE 0
       IN SumS([k \in 1..nk |-> Term(k)]))

\* einsum: letters are integers; terms: sequence of letter sequences; out: letter sequence
EinsumT(t, xs, terms, out) ==
  LET letters == UNION {ToSetQ(terms[i]) : i \in 1..Len(terms)}
      \* broadcast dimensions: the largest size a letter has in any operand
      DimOf(l) == LET ds == {xs[i].s[j] : <<i, j>> \in {<<a, b>> \in (1..Len(xs)) \X (1..8) :
                                   b <= Len(terms[a]) /\ terms[a][b] = l}}
                  IN CHOOSE m \in ds : \A n \in ds : n <= m
      sumL == SortedSeq(letters \ ToSetQ(out))
      os == Force([i \in 1..Len(out) |-> DimOf(out[i])])
      ss == Force([i \in 1..Len(sumL) |-> DimOf(sumL[i])])
      sst == Strides(ss)
      n == SizeOf(ss)
      order == out \o sumL
      \* per operand: stride of each letter of `order`
      strs == Force([a \in 1..Len(xs) |->
                LET st == Strides(xs[a].s)
                IN Force([k \in 1..Len(order) |->
                     SumQ([j \in 1..Len(terms[a]) |-> IF terms[a][j] = order[k] /\ xs[a].s[j] # 1 THEN st[j] ELSE 0])])])
  IN FromFn(t, os, LAMBDA mi :
       SumS([k \in 1..n |->
         LET full == Force(mi \o [j \in 1..Len(ss) |-> ((k - 1) \div sst[j]) % ss[j]])
         IN ProdS([a \in 1..Len(xs) |-> xs[a].d[1 + FlatOf(full, strs[a])]])]))

(********************************** casting *********************************)
Wrap(v, bits, signed) ==
  LET m == PowI(2, bits)
      w == v % m
  IN IF signed /\ w >= m \div 2 THEN w - m ELSE w
CastV(v, to) == CASE to = "b" -> B2I(v # 0)
                  [] to = "i8" -> Wrap(v, 8, TRUE)
                  [] to = "u8" -> Wrap(v, 8, FALSE)
                  [] to = "i16" -> Wrap(v, 16, TRUE)
                  [] to = "u16" -> Wrap(v, 16, FALSE)
                  [] OTHER -> v
IsFloat(t) == t \in {"f32", "f64", "f16"}
=============================================================================
