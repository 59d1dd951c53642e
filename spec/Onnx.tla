-------------------------------- MODULE Onnx --------------------------------
(* What the ONNX operators mean: Eval gives the outputs of a node from its      *)
(* attributes and operands, RunGraph the values of a graph. Written from the    *)
(* ONNX operator specification, not from the code under test.                   *)
EXTENDS Tensor, SequencesExt

\* Attributes: a record of tagged values [ty |-> "i", v |-> ...]; <<>> if none.
AI(v) == [ty |-> "i", v |-> v]
AIs(v) == [ty |-> "ints", v |-> v]
AF(v) == [ty |-> "f", v |-> v]
AFs(v) == [ty |-> "floats", v |-> v]
AS(v) == [ty |-> "s", v |-> v]
ASs(v) == [ty |-> "strings", v |-> v]
AT(v) == [ty |-> "t", v |-> v]
AG(v) == [ty |-> "g", v |-> v]
Has(at, n) == n \in DOMAIN at
Get(at, n, d) == IF Has(at, n) THEN at[n].v ELSE d

In(ins, k) == IF k <= Len(ins) THEN ins[k] ELSE Absent
Opt(ins, k, d) == IF k <= Len(ins) /\ Here(ins[k]) THEN ins[k] ELSE d

------------------------------------------------------------------------------
\* Elementwise functions of one element.
Clamp01(x) == Max(Zero, Min(One, x))
Sigmoid(x) == F("sigmoid", <<x>>)
Tanh(x) == F("tanh", <<x>>)
Softplus(x) == Log(Add(One, Exp(x)))
LitE(x, s) == x.k = "f" /\ x.f = "lit" /\ x.a[1] = s
Unary(op, at, x) ==
  CASE op = "Abs" -> AbsE(x) [] op = "Neg" -> Neg(x) [] op = "Ceil" -> CeilE(x) [] op = "Floor" -> FloorE(x) [] op = "Round" -> RoundE(x)
    [] op = "Sign" -> SignE(x) [] op = "Relu" -> Max(Zero, x) [] op = "Reciprocal" -> Div(One, x) [] op = "Identity" -> x
    [] op = "Sqrt" -> Sqrt(x) [] op = "Exp" -> Exp(x) [] op = "Log" -> Log(x)
    [] op = "Sigmoid" -> Sigmoid(x) [] op = "Tanh" -> Tanh(x)
    [] op \in {"Sin", "Cos", "Tan", "Asin", "Acos", "Atan", "Sinh", "Cosh", "Asinh", "Acosh", "Atanh", "Erf"} -> F(op, <<x>>)
    [] op = "Softplus" -> Softplus(x) [] op = "Softsign" -> Div(x, Add(One, AbsE(x)))
    [] op = "Mish" -> Mul(x, Tanh(Softplus(x)))
    [] op = "Swish" -> Mul(x, Sigmoid(Mul(Get(at, "alpha", One), x)))
    [] op = "Elu" -> IfNeg(x, Mul(Get(at, "alpha", One), Sub(Exp(x), One)), x)
    [] op = "Celu" -> LET a == Get(at, "alpha", One) IN Add(Max(Zero, x), Min(Zero, Mul(a, Sub(Exp(Div(x, a)), One))))
    [] op = "Selu" -> LET a == Get(at, "alpha", Lit("1.67326319217681884765625"))
                          g == Get(at, "gamma", Lit("1.05070102214813232421875"))
                      IN Mul(g, IfPos(x, x, Mul(a, Sub(Exp(x), One))))
    [] op = "LeakyRelu" -> IfNeg(x, Mul(Get(at, "alpha", Q(1, 100)), x), x)
    [] op = "ThresholdedRelu" -> LET a == Get(at, "alpha", One) IN IfPos(Sub(x, a), x, Zero)
    [] op = "HardSigmoid" -> Clamp01(Add(Mul(Get(at, "alpha", Q(1, 5)), x), Get(at, "beta", Half)))
    [] op = "HardSwish" -> Mul(x, Clamp01(Add(Mul(Q(1, 6), x), Half)))
    [] op = "Gelu" -> IF Get(at, "approximate", "none") = "tanh"
                      THEN Mul(Mul(Half, x), Add(One, Tanh(Mul(Sqrt(Div(I(2), F("pi", <<>>))), Add(x, Mul(Q(44715, 1000000), IPow(x, 3)))))))
                      ELSE Mul(Mul(Half, x), Add(One, F("Erf", <<Div(x, Sqrt(I(2)))>>)))
    [] op = "Not" -> Sub(One, x)
    [] op = "BitwiseNot" -> I(BitNot(x.n))
    [] op = "IsNaN" -> B(LitE(x, "nan"))
    [] op = "IsInf" -> B((LitE(x, "inf") /\ Get(at, "detect_positive", 1) = 1) \/ (LitE(x, "-inf") /\ Get(at, "detect_negative", 1) = 1))
UnaryOps == {"Abs", "Neg", "Ceil", "Floor", "Round", "Sign", "Relu", "Reciprocal", "Identity", "Sqrt", "Exp", "Log", "Sigmoid", "Tanh",
             "Sin", "Cos", "Tan", "Asin", "Acos", "Atan", "Sinh", "Cosh", "Asinh", "Acosh", "Atanh", "Erf", "Softplus", "Softsign", "Mish",
             "Swish", "Elu", "Celu", "Selu", "LeakyRelu", "ThresholdedRelu", "HardSigmoid", "HardSwish", "Gelu", "Not", "BitwiseNot", "IsNaN", "IsInf"}

Binary(op, at, t, x, y) ==
  CASE op = "Add" -> Add(x, y) [] op = "Sub" -> Sub(x, y) [] op = "Mul" -> Mul(x, y)
    [] op = "Div" -> IF IsFloat(t) THEN Div(x, y) ELSE IDiv(x, y)
    [] op = "Pow" -> Pow(x, y)
    [] op = "Mod" -> IF Get(at, "fmod", 0) = 1 THEN FmodE(x, y) ELSE ModE(x, y)
    [] op = "PRelu" -> IfNeg(x, Mul(x, y), x)
    [] op = "Max" -> Max(x, y) [] op = "Min" -> Min(x, y)
    [] op = "Equal" -> B(Eq(x, y)) [] op = "Greater" -> B(Lt(y, x)) [] op = "Less" -> B(Lt(x, y))
    [] op = "GreaterOrEqual" -> B(Le(y, x)) [] op = "LessOrEqual" -> B(Le(x, y))
    [] op = "And" -> Mul(x, y) [] op = "Or" -> Max(x, y) [] op = "Xor" -> B(~Eq(x, y))
    [] op = "BitwiseAnd" -> I(BitOpS("and", x.n, y.n)) [] op = "BitwiseOr" -> I(BitOpS("or", x.n, y.n)) [] op = "BitwiseXor" -> I(BitOpS("xor", x.n, y.n))
    [] op = "BitShift" -> IF Get(at, "direction", "") = "LEFT" THEN I(x.n * P2(y.n)) ELSE I(x.n \div P2(y.n))
Compare == {"Equal", "Greater", "Less", "GreaterOrEqual", "LessOrEqual"}
BinaryOps == {"Add", "Sub", "Mul", "Div", "Pow", "Mod", "PRelu", "And", "Or", "Xor", "BitwiseAnd", "BitwiseOr", "BitwiseXor", "BitShift"} \cup Compare
Variadic == {"Max", "Min", "Sum", "Mean"}

------------------------------------------------------------------------------
\* Reductions: the elements that fall together, in row-major order.
Reduce(t, x, axes, keep, f(_)) ==
  LET r == Rank(x)
      A == {Axis(a, r) : a \in axes}
      ax == SeqOf(A)
      kept == SeqOf((1..r) \ A)
      rs == [j \in 1..Len(ax) |-> x.s[ax[j]]]
      n == Size(rs)
      st == Strides(rs)
      full == [j \in 1..r |-> IF j \in A THEN 1 ELSE x.s[j]]
      y == MkT(t, full, LAMBDA ix : f([k \in 1..n |-> LET u == Unflat(rs, st, k - 1)
                                                     IN At(x, [j \in 1..r |-> IF j \in A THEN u[CHOOSE m \in 1..Len(ax) : ax[m] = j] ELSE ix[j]])]))
  IN IF keep = 1 THEN y ELSE [y EXCEPT !.s = [j \in 1..Len(kept) |-> x.s[kept[j]]]]
Sq(e) == Mul(e, e)
MeanE(es) == Div(SumSeq(es), I(Len(es)))
ReduceF(op, t, es) ==
  CASE op = "ReduceSum" -> SumSeq(es)
    [] op = "ReduceMean" -> IF IsFloat(t) THEN MeanE(es) ELSE IDiv(SumSeq(es), I(Len(es)))
    [] op = "ReduceMax" -> FoldS(Max, Head(es), Tail(es))
    [] op = "ReduceMin" -> FoldS(Min, Head(es), Tail(es))
    [] op = "ReduceProd" -> FoldS(Mul, One, es)
    [] op = "ReduceL1" -> SumSeq([k \in 1..Len(es) |-> AbsE(es[k])])
    [] op = "ReduceL2" -> Sqrt(SumSeq([k \in 1..Len(es) |-> Sq(es[k])]))
    [] op = "ReduceSumSquare" -> SumSeq([k \in 1..Len(es) |-> Sq(es[k])])
    [] op = "ReduceLogSum" -> Log(SumSeq(es))
    [] op = "ReduceLogSumExp" -> Log(SumSeq([k \in 1..Len(es) |-> Exp(es[k])]))
ReduceOps == {"ReduceSum", "ReduceMean", "ReduceMax", "ReduceMin", "ReduceProd", "ReduceL1", "ReduceL2", "ReduceSumSquare", "ReduceLogSum", "ReduceLogSumExp"}
EvalReduce(op, at, ins) ==
  LET x == ins[1]
      given == IF Has(at, "axes") THEN at.axes.v ELSE IF Here(In(ins, 2)) THEN Ints(ins[2]) ELSE <<>>
      axes == IF given = <<>> THEN 0..Rank(x) - 1 ELSE {given[k] : k \in 1..Len(given)}
  IN IF given = <<>> /\ Get(at, "noop_with_empty_axes", 0) = 1 THEN x
     ELSE Reduce(x.t, x, axes, Get(at, "keepdims", 1), LAMBDA es : ReduceF(op, x.t, es))
\* Position of the largest (smallest) element.
BestPos(es, max, last) ==
  LET Better(a, b) == IF max THEN Lt(a, b) ELSE Lt(b, a)       \* b is better than a
      top == {k \in 1..Len(es) : \A j \in 1..Len(es) : ~Better(es[k], es[j])}
  IN IF last THEN CHOOSE k \in top : \A j \in top : j <= k ELSE CHOOSE k \in top : \A j \in top : k <= j
EvalArg(op, at, x) == Reduce("I64", x, {Get(at, "axis", 0)}, Get(at, "keepdims", 1),
                             LAMBDA es : I(BestPos(es, op = "ArgMax", Get(at, "select_last_index", 0) = 1) - 1))
EvalCumSum(at, x, axis) ==
  LET a == Axis(axis, Rank(x))
      ex == Get(at, "exclusive", 0)
      rev == Get(at, "reverse", 0)
  IN MkT(x.t, x.s, LAMBDA ix : LET es == Along(x, a, ix)
                                   p == ix[a] + 1
                               IN SumSeq(IF rev = 1 THEN SubSeq(es, p + ex, Len(es)) ELSE SubSeq(es, 1, p - ex)))
EvalSoftmax(op, at, x) ==
  LET a == Axis(Get(at, "axis", -1), Rank(x))
  IN MkT(x.t, x.s, LAMBDA ix :
       LET es == Along(x, a, ix)
           tot == SumSeq([k \in 1..Len(es) |-> Exp(es[k])])
       IN CASE op = "Softmax" -> Div(Exp(At(x, ix)), tot)
            [] op = "LogSoftmax" -> Sub(At(x, ix), Log(tot))
            [] op = "Hardmax" -> B(BestPos(es, TRUE, FALSE) = ix[a] + 1))

------------------------------------------------------------------------------
\* Operators that move elements.
EvalShape(at, x) ==
  LET r == Rank(x)
      lim(v) == MaxI(0, MinI(r, IF v < 0 THEN v + r ELSE v))
      st == lim(Get(at, "start", 0))
      en == lim(Get(at, "end", r))
  IN IVec(SubSeq(x.s, st + 1, en))
EvalReshape(at, x, to) ==
  LET az == Get(at, "allowzero", 0)
      d1 == [k \in 1..Len(to) |-> IF to[k] = 0 /\ az = 0 THEN x.s[k] ELSE to[k]]
      known == FoldS(LAMBDA a, b : IF b = -1 THEN a ELSE a * b, 1, d1)
  IN Reshape(x, [k \in 1..Len(to) |-> IF d1[k] = -1 THEN Size(x.s) \div known ELSE d1[k]])
EvalSqueeze(x, axes) ==
  LET A == IF axes = <<>> THEN {k \in 1..Rank(x) : x.s[k] = 1} ELSE {Axis(axes[k], Rank(x)) : k \in 1..Len(axes)}
      kept == SeqOf((1..Rank(x)) \ A)
  IN Reshape(x, [j \in 1..Len(kept) |-> x.s[kept[j]]])
EvalUnsqueeze(x, axes) ==
  LET r == Rank(x) + Len(axes)
      A == {Axis(axes[k], r) : k \in 1..Len(axes)}
      rest == SeqOf((1..r) \ A)
  IN Reshape(x, [j \in 1..r |-> IF j \in A THEN 1 ELSE x.s[CHOOSE m \in 1..Len(rest) : rest[m] = j]])
EvalFlatten(at, x) ==
  LET r == Rank(x)
      a == LET v == Get(at, "axis", 1) IN IF v < 0 THEN v + r ELSE v
  IN Reshape(x, <<Size(SubSeq(x.s, 1, a)), Size(SubSeq(x.s, a + 1, r))>>)
EvalTranspose(at, x) == Transpose(x, Get(at, "perm", [j \in 1..Rank(x) |-> Rank(x) - j]))
EvalConcat(at, ins) ==
  LET a == Axis(at.axis.v, Rank(ins[1]))
      offs == [k \in 1..Len(ins) + 1 |-> SumI([j \in 1..k - 1 |-> ins[j].s[a]])]
  IN MkT(ins[1].t, Put(ins[1].s, a, offs[Len(ins) + 1]),
         LAMBDA ix : LET k == CHOOSE k \in 1..Len(ins) : offs[k] <= ix[a] /\ ix[a] < offs[k + 1]
                     IN At(ins[k], Put(ix, a, ix[a] - offs[k])))
EvalSplit(at, ins, nout) ==
  LET x == ins[1]
      a == Axis(Get(at, "axis", 0), Rank(x))
      n == Get(at, "num_outputs", nout)
      each == (x.s[a] + n - 1) \div n
      sz == IF Here(In(ins, 2)) THEN Ints(ins[2])
            ELSE [k \in 1..n |-> IF k < n THEN each ELSE x.s[a] - (each * (n - 1))]
      off(k) == SumI(SubSeq(sz, 1, k - 1))
  IN [k \in 1..Len(sz) |-> MkT(x.t, Put(x.s, a, sz[k]), LAMBDA ix : At(x, Put(ix, a, ix[a] + off(k))))]
\* One axis of a slice: first index and count.
SliceAxis(d, st, en, step) ==
  LET s0 == IF st < 0 THEN st + d ELSE st
      e0 == IF en < 0 THEN en + d ELSE en
      lim(v, lo, hi) == MaxI(lo, MinI(hi, v))
      b == IF step > 0 THEN lim(s0, 0, d) ELSE lim(s0, 0, d - 1)
      e == IF step > 0 THEN lim(e0, 0, d) ELSE lim(e0, -1, d - 1)
      n == IF step > 0 THEN (e - b + step - 1) \div step ELSE (b - e - step - 1) \div (-step)
  IN [b |-> b, n |-> MaxI(0, n), step |-> step]
EvalSlice(ins) ==
  LET x == ins[1]
      st == Ints(ins[2])
      en == Ints(ins[3])
      ax == IF Here(In(ins, 4)) THEN Ints(ins[4]) ELSE [k \in 1..Len(st) |-> k - 1]
      sp == IF Here(In(ins, 5)) THEN Ints(ins[5]) ELSE Rep(1, Len(st))
      of(j) == {k \in 1..Len(ax) : Axis(ax[k], Rank(x)) = j}
      sl == [j \in 1..Rank(x) |-> IF of(j) = {} THEN [b |-> 0, n |-> x.s[j], step |-> 1]
                                 ELSE LET k == CHOOSE k \in of(j) : TRUE IN SliceAxis(x.s[j], st[k], en[k], sp[k])]
  IN MkT(x.t, [j \in 1..Rank(x) |-> sl[j].n], LAMBDA ix : At(x, [j \in 1..Rank(x) |-> sl[j].b + (ix[j] * sl[j].step)]))
Wrap(i, d) == IF i < 0 THEN i + d ELSE i
EvalGather(at, x, ind) ==
  LET a == Axis(Get(at, "axis", 0), Rank(x))
      q == Rank(ind)
  IN MkT(x.t, SubSeq(x.s, 1, a - 1) \o ind.s \o SubSeq(x.s, a + 1, Rank(x)),
         LAMBDA ix : At(x, SubSeq(ix, 1, a - 1) \o <<Wrap(At(ind, SubSeq(ix, a, a + q - 1)).n, x.s[a])>> \o SubSeq(ix, a + q, Len(ix))))
EvalGatherElements(at, x, ind) ==
  LET a == Axis(Get(at, "axis", 0), Rank(x))
  IN MkT(x.t, ind.s, LAMBDA ix : At(x, Put(ix, a, Wrap(At(ind, ix).n, x.s[a]))))
EvalGatherND(at, x, ind) ==
  LET b == Get(at, "batch_dims", 0)
      q == Rank(ind)
      m == ind.s[q]
  IN MkT(x.t, SubSeq(ind.s, 1, q - 1) \o SubSeq(x.s, b + m + 1, Rank(x)),
         LAMBDA ix : At(x, SubSeq(ix, 1, b) \o [j \in 1..m |-> Wrap(At(ind, SubSeq(ix, 1, q - 1) \o <<j - 1>>).n, x.s[b + j])] \o SubSeq(ix, q, Len(ix))))
Combine(red, old, new) == CASE red = "none" -> new [] red = "add" -> Add(old, new) [] red = "mul" -> Mul(old, new)
                            [] red = "max" -> Max(old, new) [] red = "min" -> Min(old, new)
\* Writes the updates one after another.
RECURSIVE ScatterAll(_, _, _, _, _)
ScatterAll(v, pos, upd, red, k) ==
  IF k > Len(pos) THEN v ELSE ScatterAll(TLCEval([v EXCEPT ![pos[k]] = Combine(red, v[pos[k]], upd[k])]), pos, upd, red, k + 1)
EvalScatterElements(at, x, ind, upd) ==
  LET a == Axis(Get(at, "axis", 0), Rank(x))
      st == Strides(ind.s)
      pos == [k \in 1..Len(ind.v) |-> LET ix == Unflat(ind.s, st, k - 1) IN 1 + Flat(x.s, Put(ix, a, Wrap(ind.v[k].n, x.s[a])))]
  IN T(x.t, x.s, ScatterAll(x.v, pos, upd.v, Get(at, "reduction", "none"), 1))
EvalScatterND(at, x, ind, upd) ==
  LET q == Rank(ind)
      m == ind.s[q]
      outer == SubSeq(ind.s, 1, q - 1)
      st == Strides(upd.s)
      pos == [k \in 1..Len(upd.v) |-> LET ix == Unflat(upd.s, st, k - 1)
                                          o == SubSeq(ix, 1, q - 1)
                                      IN 1 + Flat(x.s, [j \in 1..m |-> Wrap(At(ind, o \o <<j - 1>>).n, x.s[j])] \o SubSeq(ix, q, Len(ix)))]
  IN T(x.t, x.s, ScatterAll(x.v, pos, upd.v, Get(at, "reduction", "none"), 1))
EvalTile(x, reps) == MkT(x.t, [j \in 1..Rank(x) |-> x.s[j] * reps[j]], LAMBDA ix : At(x, [j \in 1..Rank(x) |-> ix[j] % x.s[j]]))
EvalPad(at, ins) ==
  LET x == ins[1]
      r == Rank(x)
      p == Ints(ins[2])
      c == IF Here(In(ins, 3)) THEN ins[3].v[1] ELSE Zero
      ax == IF Here(In(ins, 4)) THEN Ints(ins[4]) ELSE [k \in 1..r |-> k - 1]
      n == Len(ax)
      of(j) == {k \in 1..n : Axis(ax[k], r) = j}
      lo == [j \in 1..r |-> IF of(j) = {} THEN 0 ELSE p[CHOOSE k \in of(j) : TRUE]]
      hi == [j \in 1..r |-> IF of(j) = {} THEN 0 ELSE p[n + (CHOOSE k \in of(j) : TRUE)]]
      mode == Get(at, "mode", "constant")
      src(i, d) == CASE mode = "edge" -> MaxI(0, MinI(d - 1, i))
                     [] mode = "wrap" -> i % d
                     [] mode = "reflect" -> IF d = 1 THEN 0 ELSE LET m == i % (2 * (d - 1)) IN IF m < d THEN m ELSE 2 * (d - 1) - m
                     [] OTHER -> i
  IN MkT(x.t, [j \in 1..r |-> x.s[j] + lo[j] + hi[j]],
         LAMBDA ix : LET o == [j \in 1..r |-> ix[j] - lo[j]]
                     IN IF mode = "constant" /\ \E j \in 1..r : o[j] < 0 \/ o[j] >= x.s[j] THEN c
                        ELSE At(x, [j \in 1..r |-> src(o[j], x.s[j])]))
EvalDepthToSpace(at, x) ==
  LET b == at.blocksize.v
      c == x.s[2] \div (b * b)
      dcr == Get(at, "mode", "DCR") = "DCR"
  IN MkT(x.t, <<x.s[1], c, x.s[3] * b, x.s[4] * b>>,
         LAMBDA ix : LET bh == ix[3] % b
                         bw == ix[4] % b
                     IN At(x, <<ix[1], IF dcr THEN (((bh * b) + bw) * c) + ix[2] ELSE (ix[2] * b * b) + (bh * b) + bw, ix[3] \div b, ix[4] \div b>>))
EvalSpaceToDepth(at, x) ==
  LET b == at.blocksize.v
      c == x.s[2]
  IN MkT(x.t, <<x.s[1], c * b * b, x.s[3] \div b, x.s[4] \div b>>,
         LAMBDA ix : LET g == ix[2] \div c
                     IN At(x, <<ix[1], ix[2] % c, (ix[3] * b) + (g \div b), (ix[4] * b) + (g % b)>>))
EvalTrilu(at, x, k) == MkT(x.t, x.s, LAMBDA ix : LET r == Rank(x)
                                                     i == ix[r - 1]
                                                     j == ix[r]
                                                 IN IF (IF Get(at, "upper", 1) = 1 THEN j - i >= k ELSE j - i <= k) THEN At(x, ix) ELSE Zero)
EvalEyeLike(at, x, t) == MkT(t, x.s, LAMBDA ix : B(ix[2] - ix[1] = Get(at, "k", 0)))
EvalOneHot(at, ind, depth, vals) ==
  LET r == Rank(ind) + 1
      a == Axis(Get(at, "axis", -1), r)
  IN MkT(vals.t, Insert(ind.s, a, depth),
         LAMBDA ix : IF Wrap(At(ind, Without(ix, a)).n, depth) = ix[a] THEN vals.v[2] ELSE vals.v[1])
EvalRange(a, b, d) == LET n == MaxI(0, CeilI(Div(Sub(b.v[1], a.v[1]), d.v[1])))
                      IN MkF(a.t, <<n>>, LAMBDA k : Add(a.v[1], Mul(I(k - 1), d.v[1])))
EvalNonZero(x) ==
  LET st == Strides(x.s)
      hits == SeqOf({k \in 1..Len(x.v) : ~Eq(x.v[k], Zero)})
  IN MkT("I64", <<Rank(x), Len(hits)>>, LAMBDA ix : I(Unflat(x.s, st, hits[ix[2] + 1] - 1)[ix[1] + 1]))
EvalTopK(at, x, k) ==
  LET a == Axis(Get(at, "axis", -1), Rank(x))
      big == Get(at, "largest", 1) = 1
      d == x.s[a]
      \* position j comes before position i; equal elements keep their order
      Before(es, j, i) == IF Eq(es[i], es[j]) THEN j < i ELSE IF big THEN Lt(es[i], es[j]) ELSE Lt(es[j], es[i])
      Nth(es, n) == CHOOSE i \in 1..d : Cardinality({j \in 1..d : j # i /\ Before(es, j, i)}) = n
      s == Put(x.s, a, k)
  IN << MkT(x.t, s, LAMBDA ix : LET es == Along(x, a, ix) IN es[Nth(es, ix[a])]),
        MkT("I64", s, LAMBDA ix : LET es == Along(x, a, ix) IN I(Nth(es, ix[a]) - 1)) >>
EvalWhere(c, x, y) == LET s == BShape(BShape(c.s, x.s), y.s)
                      IN MkT(x.t, s, LAMBDA ix : IF Eq(BAt(c, ix), One) THEN BAt(x, ix) ELSE BAt(y, ix))
DtName(n) == CASE n = 1 -> "F32" [] n = 2 -> "U8" [] n = 3 -> "I8" [] n = 4 -> "U16" [] n = 5 -> "I16" [] n = 6 -> "I32" [] n = 7 -> "I64" [] n = 9 -> "Bool"
               [] n = 10 -> "F16" [] n = 11 -> "F64" [] n = 12 -> "U32" [] n = 13 -> "U64"
CastE(t, e) == IF t = "Bool" THEN B(~Eq(e, Zero)) ELSE IF IsFloat(t) THEN e ELSE TruncE(e)
EvalClip(ins) == LET x == ins[1]
                     lo(e) == IF Here(In(ins, 2)) THEN Max(e, ins[2].v[1]) ELSE e
                     hi(e) == IF Here(In(ins, 3)) THEN Min(e, ins[3].v[1]) ELSE e
                 IN Map(x.t, x, LAMBDA e : hi(lo(e)))

------------------------------------------------------------------------------
\* Products.
MatMul(x, y) ==
  LET a == IF Rank(x) = 1 THEN Reshape(x, <<1>> \o x.s) ELSE x
      b == IF Rank(y) = 1 THEN Reshape(y, y.s \o <<1>>) ELSE y
      ra == Rank(a)
      rb == Rank(b)
      bs == BShape(SubSeq(a.s, 1, ra - 2), SubSeq(b.s, 1, rb - 2))
      n == a.s[ra]
      r == Len(bs)
      ai(ix, k) == [j \in 1..ra - 2 |-> IF a.s[j] = 1 THEN 0 ELSE ix[r - (ra - 2) + j]] \o <<ix[r + 1], k - 1>>
      bi(ix, k) == [j \in 1..rb - 2 |-> IF b.s[j] = 1 THEN 0 ELSE ix[r - (rb - 2) + j]] \o <<k - 1, ix[r + 2]>>
      z == MkT(x.t, bs \o <<a.s[ra - 1], b.s[rb]>>, LAMBDA ix : SumTo(LAMBDA k : Mul(At(a, ai(ix, k)), At(b, bi(ix, k))), n))
      s1 == IF Rank(x) = 1 THEN Without(z.s, Len(z.s) - 1) ELSE z.s
      s2 == IF Rank(y) = 1 THEN SubSeq(s1, 1, Len(s1) - 1) ELSE s1
  IN Reshape(z, s2)
EvalGemm(at, ins) ==
  LET a == IF Get(at, "transA", 0) = 1 THEN Transpose(ins[1], <<1, 0>>) ELSE ins[1]
      b == IF Get(at, "transB", 0) = 1 THEN Transpose(ins[2], <<1, 0>>) ELSE ins[2]
      m == Map(a.t, MatMul(a, b), LAMBDA e : Mul(Get(at, "alpha", One), e))
  IN IF Here(In(ins, 3)) THEN Bin(m.t, m, Map(m.t, ins[3], LAMBDA e : Mul(Get(at, "beta", One), e)), Add) ELSE m
EvalMatMulInteger(ins) ==
  LET az == Opt(ins, 3, IScal(0))
      bz == Opt(ins, 4, IScal(0))
      a == IF Rank(az) = 1 /\ az.s[1] > 1 THEN Bin("I32", ins[1], Reshape(az, az.s \o <<1>>), Sub) ELSE Map("I32", ins[1], LAMBDA e : Sub(e, az.v[1]))
      b == Bin("I32", ins[2], bz, Sub)
  IN MatMul(a, b)

\* Convolution and pooling in any number of dimensions. w: window, st: strides, dl: dilations.
AutoPads(at, in, w, st, dl) ==
  LET n == Len(in)
      mode == Get(at, "auto_pad", "NOTSET")
      tot(i) == MaxI(0, ((((in[i] + st[i] - 1) \div st[i]) - 1) * st[i]) + (dl[i] * (w[i] - 1)) + 1 - in[i])
  IN CASE mode = "NOTSET" -> Get(at, "pads", Rep(0, 2 * n))
       [] mode = "VALID" -> Rep(0, 2 * n)
       [] mode = "SAME_UPPER" -> [k \in 1..2 * n |-> IF k <= n THEN tot(k) \div 2 ELSE tot(k - n) - (tot(k - n) \div 2)]
       [] mode = "SAME_LOWER" -> [k \in 1..2 * n |-> IF k <= n THEN tot(k) - (tot(k) \div 2) ELSE tot(k - n) \div 2]
OutDim(in, pb, pe, w, st, dl, ceil) ==
  LET span == in + pb + pe - ((dl * (w - 1)) + 1)
      o == (IF ceil = 1 THEN (span + st - 1) \div st ELSE span \div st) + 1
  IN IF ceil = 1 /\ (o - 1) * st >= in + pb THEN o - 1 ELSE o
EvalConv(at, ins) ==
  LET x == ins[1]
      w == ins[2]
      n == Rank(x) - 2
      in == SubSeq(x.s, 3, n + 2)
      ks == SubSeq(w.s, 3, n + 2)
      st == Get(at, "strides", Rep(1, n))
      dl == Get(at, "dilations", Rep(1, n))
      p == AutoPads(at, in, ks, st, dl)
      g == Get(at, "group", 1)
      cg == w.s[2]
      mg == w.s[1] \div g
      o == [i \in 1..n |-> OutDim(in[i], p[i], p[n + i], ks[i], st[i], dl[i], 0)]
      kk == <<cg>> \o ks
      kst == Strides(kk)
      K == Size(kk)
      term(ix, q) == LET u == Unflat(kk, kst, q - 1)
                         pos == [i \in 1..n |-> (ix[i + 2] * st[i]) - p[i] + (u[i + 1] * dl[i])]
                     IN IF \E i \in 1..n : pos[i] < 0 \/ pos[i] >= in[i] THEN Zero
                        ELSE Mul(At(x, <<ix[1], ((ix[2] \div mg) * cg) + u[1]>> \o pos), At(w, <<ix[2]>> \o u))
  IN MkT(x.t, <<x.s[1], w.s[1]>> \o o,
         LAMBDA ix : LET s == SumTo(LAMBDA q : term(ix, q), K) IN IF Here(In(ins, 3)) THEN Add(s, ins[3].v[ix[2] + 1]) ELSE s)
EvalConvTranspose(at, ins) ==
  LET x == ins[1]
      w == ins[2]
      n == Rank(x) - 2
      in == SubSeq(x.s, 3, n + 2)
      ks == SubSeq(w.s, 3, n + 2)
      st == Get(at, "strides", Rep(1, n))
      dl == Get(at, "dilations", Rep(1, n))
      op == Get(at, "output_padding", Rep(0, n))
      g == Get(at, "group", 1)
      mg == w.s[2]
      cg == x.s[2] \div g
      full(i) == (st[i] * (in[i] - 1)) + op[i] + (dl[i] * (ks[i] - 1)) + 1
      mode == Get(at, "auto_pad", "NOTSET")
      \* the requested output, or that of the automatic modes, fixes the padding
      want(i) == IF Has(at, "output_shape") THEN at.output_shape.v[i] ELSE in[i] * st[i]
      auto == Has(at, "output_shape") \/ mode \in {"SAME_UPPER", "SAME_LOWER"}
      tot(i) == full(i) - want(i)
      p == IF auto THEN [k \in 1..2 * n |-> LET t == tot(IF k <= n THEN k ELSE k - n)
                                                small == t \div 2
                                            IN IF (k <= n) = (mode = "SAME_UPPER") THEN small ELSE t - small]
           ELSE IF mode = "VALID" THEN Rep(0, 2 * n) ELSE Get(at, "pads", Rep(0, 2 * n))
      o == [i \in 1..n |-> full(i) - p[i] - p[n + i]]
      kk == <<cg>> \o ks
      kst == Strides(kk)
      K == Size(kk)
      term(ix, q) == LET u == Unflat(kk, kst, q - 1)
                         num == [i \in 1..n |-> ix[i + 2] + p[i] - (u[i + 1] * dl[i])]
                     IN IF \E i \in 1..n : num[i] < 0 \/ num[i] % st[i] # 0 \/ num[i] \div st[i] >= in[i] THEN Zero
                        ELSE LET c == ((ix[2] \div mg) * cg) + u[1]
                             IN Mul(At(x, <<ix[1], c>> \o [i \in 1..n |-> num[i] \div st[i]]), At(w, <<c, ix[2] % mg>> \o SubSeq(u, 2, n + 1)))
  IN MkT(x.t, <<x.s[1], mg * g>> \o o,
         LAMBDA ix : LET s == SumTo(LAMBDA q : term(ix, q), K) IN IF Here(In(ins, 3)) THEN Add(s, ins[3].v[ix[2] + 1]) ELSE s)
EvalPool(op, at, x) ==
  LET n == Rank(x) - 2
      in == SubSeq(x.s, 3, n + 2)
      ks == at.kernel_shape.v
      st == Get(at, "strides", Rep(1, n))
      dl == Get(at, "dilations", Rep(1, n))
      p == AutoPads(at, in, ks, st, dl)
      ceil == Get(at, "ceil_mode", 0)
      incl == Get(at, "count_include_pad", 0)
      o == [i \in 1..n |-> OutDim(in[i], p[i], p[n + i], ks[i], st[i], dl[i], ceil)]
      kst == Strides(ks)
      K == Size(ks)
      pos(ix, q) == LET u == Unflat(ks, kst, q - 1) IN [i \in 1..n |-> (ix[i + 2] * st[i]) - p[i] + (u[i] * dl[i])]
      ok(v) == \A i \in 1..n : v[i] >= 0 /\ v[i] < in[i]
      inPad(v) == \A i \in 1..n : v[i] < in[i] + p[n + i]
  IN MkT(x.t, SubSeq(x.s, 1, 2) \o o, LAMBDA ix :
       LET all == TLCEval([q \in 1..K |-> TLCEval(pos(ix, q))])
           hit == SelectSeq(all, ok)
           es == [k \in 1..Len(hit) |-> At(x, SubSeq(ix, 1, 2) \o hit[k])]
       IN IF op = "MaxPool" THEN FoldS(Max, Head(es), Tail(es))
          ELSE Div(SumSeq(es), I(IF incl = 1 THEN Len(SelectSeq(all, inPad)) ELSE Len(es))))
EvalGlobalPool(op, x) == Reduce(x.t, x, 2..Rank(x) - 1, 1, LAMBDA es : IF op = "GlobalAveragePool" THEN MeanE(es) ELSE FoldS(Max, Head(es), Tail(es)))

------------------------------------------------------------------------------
\* Normalisation.
VarE(es) == LET m == MeanE(es) IN MeanE([k \in 1..Len(es) |-> Sq(Sub(es[k], m))])
Normed(e, es, eps) == Div(Sub(e, MeanE(es)), Sqrt(Add(VarE(es), eps)))
EvalBatchNorm(at, ins) ==
  LET x == ins[1]
      c(ix) == ix[2] + 1
      eps == Get(at, "epsilon", Q(1, 100000))
  IN MkT(x.t, x.s, LAMBDA ix : Add(Mul(Div(Sub(At(x, ix), ins[4].v[c(ix)]), Sqrt(Add(ins[5].v[c(ix)], eps))), ins[2].v[c(ix)]), ins[3].v[c(ix)]))
\* The elements of x whose index agrees with ix on the axes before a, and lies in lo..hi on axis a.
Block(x, ix, a, lo, hi) ==
  LET s == [j \in 1..Rank(x) |-> IF j < a THEN 1 ELSE IF j = a THEN hi - lo + 1 ELSE x.s[j]]
      st == Strides(s)
  IN [k \in 1..Size(s) |-> LET u == Unflat(s, st, k - 1) IN At(x, [j \in 1..Rank(x) |-> IF j < a THEN ix[j] ELSE IF j = a THEN lo + u[j] ELSE u[j]])]
EvalLayerNorm(at, ins) ==
  LET x == ins[1]
      a == Axis(Get(at, "axis", -1), Rank(x))
      eps == Get(at, "epsilon", Q(1, 100000))
  IN MkT(x.t, x.s, LAMBDA ix : LET e == Mul(Normed(At(x, ix), Block(x, ix, a, 0, x.s[a] - 1), eps), BAt(ins[2], ix))
                               IN IF Here(In(ins, 3)) THEN Add(e, BAt(ins[3], ix)) ELSE e)
EvalInstanceNorm(at, ins) ==
  LET x == ins[1]
      eps == Get(at, "epsilon", Q(1, 100000))
  IN MkT(x.t, x.s, LAMBDA ix : Add(Mul(Normed(At(x, ix), Block(x, ix, 2, ix[2], ix[2]), eps), ins[2].v[ix[2] + 1]), ins[3].v[ix[2] + 1]))
EvalGroupNorm(at, ins) ==
  LET x == ins[1]
      g == at.num_groups.v
      cg == x.s[2] \div g
      eps == Get(at, "epsilon", Q(1, 100000))
      \* scale and bias per group before operator set 21, per channel since
      w(t, ix) == IF t.s[1] = g /\ g # x.s[2] THEN t.v[(ix[2] \div cg) + 1] ELSE t.v[ix[2] + 1]
  IN MkT(x.t, x.s, LAMBDA ix : LET b == (ix[2] \div cg) * cg
                               IN Add(Mul(Normed(At(x, ix), Block(x, ix, 2, b, b + cg - 1), eps), w(ins[2], ix)), w(ins[3], ix)))

------------------------------------------------------------------------------
\* Recurrent layers. x: [seq, batch, input]; one direction d, over the steps in its order.
RowDot(w, d, row, v) == SumTo(LAMBDA k : Mul(At(w, <<d, row, k - 1>>), v[k]), Len(v))
BiasAt(b, d, k) == IF Here(b) THEN At(b, <<d, k>>) ELSE Zero
XRow(x, t, b) == [k \in 1..x.s[3] |-> At(x, <<t, b, k - 1>>)]
Act(name, e) == CASE name = "Tanh" -> Tanh(e) [] name = "Sigmoid" -> Sigmoid(e) [] name = "Relu" -> Max(Zero, e)
\* gate pre-activation k of block g (H rows per block)
Pre(x, w, r, b, d, H, G, g, k, xv, h) ==
  Add(Add(RowDot(w, d, (g * H) + k, xv), RowDot(r, d, (g * H) + k, h)), Add(BiasAt(b, d, (g * H) + k), BiasAt(b, d, ((G + g) * H) + k)))
RnnStep(kind, at, acts, x, w, r, b, d, H, xv, st) ==
  LET h == st[1]
      pre(G, g, k) == Pre(x, w, r, b, d, H, G, g, k - 1, xv, h)
  IN CASE kind = "RNN" -> << TLCEval([k \in 1..H |-> Act(acts[1], pre(1, 0, k))]), st[2] >>
       [] kind = "LSTM" ->
            LET i == [k \in 1..H |-> Act(acts[1], pre(4, 0, k))]
                o == [k \in 1..H |-> Act(acts[1], pre(4, 1, k))]
                f == [k \in 1..H |-> Act(acts[1], pre(4, 2, k))]
                c == [k \in 1..H |-> Act(acts[2], pre(4, 3, k))]
                nc == TLCEval([k \in 1..H |-> Add(Mul(f[k], st[2][k]), Mul(i[k], c[k]))])
            IN << TLCEval([k \in 1..H |-> Mul(o[k], Act(acts[3], nc[k]))]), nc >>
       [] kind = "GRU" ->
            LET z == TLCEval([k \in 1..H |-> Act(acts[1], pre(3, 0, k))])
                rr == TLCEval([k \in 1..H |-> Act(acts[1], pre(3, 1, k))])
                rh == [k \in 1..H |-> Mul(rr[k], h[k])]
                xw(k) == RowDot(w, d, (2 * H) + k - 1, xv)
                n == IF Get(at, "linear_before_reset", 0) = 0
                     THEN [k \in 1..H |-> Act(acts[2], Add(Add(xw(k), RowDot(r, d, (2 * H) + k - 1, rh)), Add(BiasAt(b, d, (2 * H) + k - 1), BiasAt(b, d, (5 * H) + k - 1))))]
                     ELSE [k \in 1..H |-> Act(acts[2], Add(Add(xw(k), BiasAt(b, d, (2 * H) + k - 1)), Mul(rr[k], Add(RowDot(r, d, (2 * H) + k - 1, h), BiasAt(b, d, (5 * H) + k - 1)))))]
            IN << TLCEval([k \in 1..H |-> Add(Mul(Sub(One, z[k]), n[k]), Mul(z[k], h[k]))]), st[2] >>
\* States after each of the steps in `order`.
RECURSIVE RnnRun(_, _, _, _, _, _, _, _, _, _, _, _)
RnnRun(kind, at, acts, x, w, r, b, d, H, bt, order, st) ==
  IF order = <<>> THEN <<>>
  ELSE LET s == TLCEval(RnnStep(kind, at, acts, x, w, r, b, d, H, XRow(x, Head(order), bt), st))
       IN <<s>> \o RnnRun(kind, at, acts, x, w, r, b, d, H, bt, Tail(order), s)
EvalRnn(kind, at, ins) ==
  LET lay == Get(at, "layout", 0)
      x == IF lay = 1 THEN Transpose(ins[1], <<1, 0, 2>>) ELSE ins[1]
      w == ins[2]
      r == ins[3]
      b == In(ins, 4)
      st0(t) == IF Here(t) /\ lay = 1 THEN Transpose(t, <<1, 0, 2>>) ELSE t
      h0 == st0(In(ins, 6))
      c0 == st0(In(ins, 7))
      H == at.hidden_size.v
      dir == Get(at, "direction", "forward")
      D == IF dir = "bidirectional" THEN 2 ELSE 1
      S == x.s[1]
      N == x.s[2]
      dflt == CASE kind = "RNN" -> <<"Tanh">> [] kind = "LSTM" -> <<"Sigmoid", "Tanh", "Tanh">> [] kind = "GRU" -> <<"Sigmoid", "Tanh">>
      na == Len(dflt)
      acts(d) == IF Has(at, "activations") THEN SubSeq(at.activations.v, (d * na) + 1, (d + 1) * na) ELSE dflt
      rev(d) == dir = "reverse" \/ d = 1
      order(d) == [k \in 1..S |-> IF rev(d) THEN S - k ELSE k - 1]
      init(t, d, n) == IF Here(t) THEN [k \in 1..H |-> At(t, <<d, n, k - 1>>)] ELSE Rep(Zero, H)
      runs == TLCEval([d \in 1..D |-> TLCEval([n \in 1..N |-> RnnRun(kind, at, acts(d - 1), x, w, r, b, d - 1, H, n - 1, order(d - 1), <<init(h0, d - 1, n - 1), init(c0, d - 1, n - 1)>>)])])
      step(d, t) == IF rev(d) THEN S - t ELSE t + 1
      y == MkT(x.t, <<S, D, N, H>>, LAMBDA ix : runs[ix[2] + 1][ix[3] + 1][step(ix[2], ix[1])][1][ix[4] + 1])
      last(w2) == MkT(x.t, <<D, N, H>>, LAMBDA ix : runs[ix[1] + 1][ix[2] + 1][S][w2][ix[3] + 1])
      out3(t) == IF lay = 1 THEN Transpose(t, <<1, 0, 2>>) ELSE t
      y4 == IF lay = 1 THEN Transpose(y, <<2, 0, 1, 3>>) ELSE y
  IN IF kind = "LSTM" THEN <<y4, out3(last(1)), out3(last(2))>> ELSE <<y4, out3(last(1))>>

------------------------------------------------------------------------------
\* Resize: the source coordinate of an output position on one axis, as an exact rational.
SrcCoord(mode, o, in, out, scale) ==
  CASE mode = "asymmetric" -> Div(I(o), scale)
    [] mode = "align_corners" -> IF out = 1 THEN Zero ELSE Q(o * (in - 1), out - 1)
    [] mode = "pytorch_half_pixel" -> IF out = 1 THEN Zero ELSE Sub(Div(Add(I(o), Half), scale), Half)
    [] OTHER -> Sub(Div(Add(I(o), Half), scale), Half)
NearestI(mode, c) ==
  CASE mode = "floor" -> FloorI(c) [] mode = "ceil" -> CeilI(c)
    [] mode = "round_prefer_ceil" -> FloorI(Add(c, Half))
    [] OTHER -> CeilI(Sub(c, Half))
EvalResize(at, ins) ==
  LET x == ins[1]
      r == Rank(x)
      useSizes == Here(In(ins, 4))
      out == IF useSizes THEN Ints(ins[4]) ELSE [j \in 1..r |-> FloorI(Mul(I(x.s[j]), ins[3].v[j]))]
      sc == IF useSizes THEN [j \in 1..r |-> Q(out[j], x.s[j])] ELSE ins[3].v
      ct == Get(at, "coordinate_transformation_mode", "half_pixel")
      nm == Get(at, "nearest_mode", "round_prefer_floor")
      mode == Get(at, "mode", "nearest")
      cl(i, d) == MaxI(0, MinI(d - 1, i))
      coord(j, o) == SrcCoord(ct, o, x.s[j], out[j], sc[j])
      \* the two neighbours on axis j with their weights
      two(j, o) == LET c == coord(j, o)
                       f == FloorI(c)
                       t == Sub(c, I(f))
                   IN <<[i |-> cl(f, x.s[j]), w |-> Sub(One, t)], [i |-> cl(f + 1, x.s[j]), w |-> t]>>
      corners == P2(r)
  IN IF mode = "nearest" THEN MkT(x.t, out, LAMBDA ix : At(x, [j \in 1..r |-> IF out[j] = x.s[j] THEN ix[j] ELSE cl(NearestI(nm, coord(j, ix[j])), x.s[j])]))
     ELSE MkT(x.t, out, LAMBDA ix : LET nb == TLCEval([j \in 1..r |-> IF out[j] = x.s[j] THEN <<[i |-> ix[j], w |-> One], [i |-> ix[j], w |-> Zero]>> ELSE two(j, ix[j])])
                                        bit(q, j) == (((q - 1) \div P2(j - 1)) % 2) + 1
                                        wt(q) == FoldS(Mul, One, [j \in 1..r |-> nb[j][bit(q, j)].w])
                                    IN SumTo(LAMBDA q : LET w == wt(q) IN IF Eq(w, Zero) THEN Zero ELSE Mul(w, At(x, [j \in 1..r |-> nb[j][bit(q, j)].i])), corners))

EvalCol2Im(at, ins) ==
  LET x == ins[1]
      img == Ints(ins[2])
      ks == Ints(ins[3])
      n == Len(img)
      st == Get(at, "strides", Rep(1, n))
      dl == Get(at, "dilations", Rep(1, n))
      p == Get(at, "pads", Rep(0, 2 * n))
      K == Size(ks)
      C == x.s[2] \div K
      o == [i \in 1..n |-> OutDim(img[i], p[i], p[n + i], ks[i], st[i], dl[i], 0)]
      kst == Strides(ks)
      term(ix, q) == LET u == Unflat(ks, kst, q - 1)
                         num == [i \in 1..n |-> ix[i + 2] + p[i] - (u[i] * dl[i])]
                     IN IF \E i \in 1..n : num[i] < 0 \/ num[i] % st[i] # 0 \/ num[i] \div st[i] >= o[i] THEN Zero
                        ELSE At(x, <<ix[1], (ix[2] * K) + q - 1, Flat(o, [i \in 1..n |-> num[i] \div st[i]])>>)
  IN MkT(x.t, <<x.s[1], C>> \o img, LAMBDA ix : SumTo(LAMBDA q : term(ix, q), K))

\* Attention on [batch, heads, length, size]; 3-d operands are split into heads.
EvalAttention(at, ins) ==
  LET three == Rank(ins[1]) = 3
      nh(i) == IF i = 1 THEN at.q_num_heads.v ELSE at.kv_num_heads.v
      four(i) == IF three THEN Transpose(Reshape(ins[i], <<ins[i].s[1], ins[i].s[2], nh(i), ins[i].s[3] \div nh(i)>>), <<0, 2, 1, 3>>) ELSE ins[i]
      q == four(1)
      cat(past, t) == IF Here(past) THEN EvalConcat([axis |-> AI(2)], <<past, t>>) ELSE t
      k == cat(In(ins, 5), four(2))
      v == cat(In(ins, 6), four(3))
      rep == q.s[2] \div k.s[2]
      sc == IF Has(at, "scale") THEN at.scale.v ELSE Div(One, Sqrt(I(q.s[4])))
      cap == Get(at, "softcap", Zero)
      L == q.s[3]
      M == k.s[3]
      off == M - L
      raw(b, h, i, j) == SumTo(LAMBDA d : Mul(At(q, <<b, h, i, d - 1>>), At(k, <<b, h \div rep, j, d - 1>>)), q.s[4])
      mask == In(ins, 4)
      dead(b, h, i, j) == \/ Get(at, "is_causal", 0) = 1 /\ j > i
                          \/ Here(mask) /\ mask.t = "Bool" /\ Eq(BAt(mask, <<b, h, i, j>>), Zero)
      score(b, h, i, j) == LET a == Mul(sc, raw(b, h, i, j))
                               c == IF Eq(cap, Zero) THEN a ELSE Mul(cap, Tanh(Div(a, cap)))
                           IN IF Here(mask) /\ mask.t # "Bool" THEN Add(c, BAt(mask, <<b, h, i, j>>)) ELSE c
      live(b, h, i) == SeqOf({j \in 0..M - 1 : ~dead(b, h, i, j)})
      y == MkT(q.t, <<q.s[1], q.s[2], L, v.s[4]>>, LAMBDA ix :
             LET ls == live(ix[1], ix[2], ix[3])
                 es == TLCEval([n \in 1..Len(ls) |-> Exp(score(ix[1], ix[2], ix[3], ls[n]))])
             IN Div(SumTo(LAMBDA n : Mul(es[n], At(v, <<ix[1], ix[2] \div rep, ls[n], ix[4]>>)), Len(ls)), SumSeq(es)))
      z == IF three THEN LET u == Transpose(y, <<0, 2, 1, 3>>) IN Reshape(u, <<u.s[1], u.s[2], u.s[3] * u.s[4]>>) ELSE y
  IN <<z, k, v>>

------------------------------------------------------------------------------
\* Graphs: [nodes, inits, outs] with inits a sequence of [n, x]; a node is
\* [op, at, in, out] with "" for absent operands and results.
Bind(names, xs, env) == FoldS(LAMBDA e, k : IF k <= Len(xs) /\ names[k] # "" THEN (names[k] :> xs[k]) @@ e ELSE e, env, Iota(Len(names)))

RECURSIVE Eval(_, _, _, _, _), RunNodes(_, _), RunGraph(_, _), LoopRun(_, _, _, _, _, _)
\* One iteration after another; acc: the values of the scan outputs so far.
LoopRun(body, env, i, cond, st, acc) ==
  IF ~cond THEN <<st, acc>>
  ELSE LET ni == Len(body.ins)
           e == Bind(body.ins, <<IScal(i), Scal("Bool", One)>> \o st, env)
           o == RunGraph(body, e)
           n == Len(st)
       IN LoopRun(body, env, i + 1, Eq(o[1].v[1], One) /\ (env["@max"].v[1].n < 0 \/ i + 1 < env["@max"].v[1].n),
                  SubSeq(o, 2, n + 1), [k \in 1..Len(acc) |-> Append(acc[k], o[n + 1 + k])])
\* Stacks equal-shaped tensors along a new axis a (1-based).
Stack(xs, a, t, s) == MkT(t, Insert(s, a, Len(xs)), LAMBDA ix : At(xs[ix[a] + 1], Without(ix, a)))
EvalLoop(at, ins, env) ==
  LET body == at.body.v
      mx == IF Here(ins[1]) THEN ins[1].v[1].n ELSE -1
      c0 == IF Here(ins[2]) THEN Eq(ins[2].v[1], One) ELSE TRUE
      st == SubSeq(ins, 3, Len(ins))
      nscan == Len(body.outs) - 1 - Len(st)
      r == LoopRun(body, ("@max" :> IScal(mx)) @@ env, 0, c0 /\ mx # 0, st, Rep(<<>>, nscan))
  IN r[1] \o [k \in 1..nscan |-> LET xs == r[2][k]
                                     sc == body.scans[k]     \* element type and shape, for no iteration
                                 IN Stack(xs, 1, sc.t, sc.s)]
EvalScan(at, ins, env) ==
  LET body == at.body.v
      m == at.num_scan_inputs.v
      n == Len(ins) - m
      outn == Len(body.outs) - n
      ax(name, k, cnt) == Axis(Get(at, name, Rep(0, cnt))[k], 99)
      inAx(k) == LET v == Get(at, "scan_input_axes", Rep(0, m))[k] IN Axis(v, Rank(ins[n + k]))
      outAx(k, r) == LET v == Get(at, "scan_output_axes", Rep(0, outn))[k] IN Axis(v, r)
      inRev(k) == Get(at, "scan_input_directions", Rep(0, m))[k] = 1
      outRev(k) == Get(at, "scan_output_directions", Rep(0, outn))[k] = 1
      len == ins[n + 1].s[inAx(1)]
      slice(k, i) == LET x == ins[n + k]
                         a == inAx(k)
                         p == IF inRev(k) THEN len - 1 - i ELSE i
                     IN MkT(x.t, Without(x.s, a), LAMBDA ix : At(x, Insert(ix, a, p)))
      Step(acc, i) == LET o == RunGraph(body, Bind(body.ins, acc[1] \o [k \in 1..m |-> slice(k, i - 1)], env))
                      IN <<SubSeq(o, 1, n), [k \in 1..outn |-> Append(acc[2][k], o[n + k])]>>
      r == FoldS(Step, <<SubSeq(ins, 1, n), Rep(<<>>, outn)>>, Iota(len))
  IN r[1] \o [k \in 1..outn |-> LET xs == IF outRev(k) THEN [j \in 1..len |-> r[2][k][len + 1 - j]] ELSE r[2][k]
                                IN Stack(xs, outAx(k, Rank(xs[1]) + 1), xs[1].t, xs[1].s)]
Eval(op, at, ins, nout, env) ==
  LET x == ins[1] IN
  CASE op = "BitwiseNot" /\ x.t \in {"U8", "U16"} -> <<Map(x.t, x, LAMBDA e : Sub(I(IF x.t = "U8" THEN 255 ELSE 65535), e))>>
    [] op \in UnaryOps -> <<Map(IF op \in {"IsNaN", "IsInf"} THEN "Bool" ELSE x.t, x, LAMBDA e : Unary(op, at, e))>>
    [] op \in BinaryOps -> <<Bin(IF op \in Compare THEN "Bool" ELSE x.t, x, ins[2], LAMBDA a, b : Binary(op, at, x.t, a, b))>>
    [] op \in Variadic ->
         LET f(a, b) == CASE op = "Max" -> Max(a, b) [] op = "Min" -> Min(a, b) [] OTHER -> Add(a, b)
             y == FoldS(LAMBDA a, b : Bin(x.t, a, b, f), x, Tail(ins))
         IN IF op = "Mean" THEN <<Map(x.t, y, LAMBDA e : Div(e, I(Len(ins))))>> ELSE <<y>>
    [] op \in ReduceOps -> <<EvalReduce(op, at, ins)>>
    [] op \in {"ArgMax", "ArgMin"} -> <<EvalArg(op, at, x)>>
    [] op = "CumSum" -> <<EvalCumSum(at, x, ins[2].v[1].n)>>
    [] op \in {"Softmax", "LogSoftmax", "Hardmax"} -> <<EvalSoftmax(op, at, x)>>
    [] op = "Constant" -> <<IF Has(at, "value") THEN at.value.v
                            ELSE IF Has(at, "value_int") THEN IScal(at.value_int.v)
                            ELSE IF Has(at, "value_ints") THEN IVec(at.value_ints.v)
                            ELSE IF Has(at, "value_float") THEN Scal("F32", at.value_float.v)
                            ELSE T("F32", <<Len(at.value_floats.v)>>, at.value_floats.v)>>
    [] op = "ConstantOfShape" -> LET t == Get(at, "value", T("F32", <<1>>, <<Zero>>)) IN <<MkF(t.t, Ints(x), LAMBDA k : t.v[1])>>
    [] op = "Shape" -> <<EvalShape(at, x)>>
    [] op = "Size" -> <<IScal(Size(x.s))>>
    [] op = "Reshape" -> <<EvalReshape(at, x, Ints(ins[2]))>>
    [] op = "Squeeze" -> <<EvalSqueeze(x, IF Here(In(ins, 2)) THEN Ints(ins[2]) ELSE <<>>)>>
    [] op = "Unsqueeze" -> <<EvalUnsqueeze(x, Ints(ins[2]))>>
    [] op = "Flatten" -> <<EvalFlatten(at, x)>>
    [] op = "Transpose" -> <<EvalTranspose(at, x)>>
    [] op = "Concat" -> <<EvalConcat(at, ins)>>
    [] op = "Split" -> EvalSplit(at, ins, nout)
    [] op = "Slice" -> <<EvalSlice(ins)>>
    [] op = "Gather" -> <<EvalGather(at, x, ins[2])>>
    [] op = "GatherElements" -> <<EvalGatherElements(at, x, ins[2])>>
    [] op = "GatherND" -> <<EvalGatherND(at, x, ins[2])>>
    [] op = "ScatterElements" -> <<EvalScatterElements(at, x, ins[2], ins[3])>>
    [] op = "ScatterND" -> <<EvalScatterND(at, x, ins[2], ins[3])>>
    [] op = "Expand" -> <<Expand(x, Ints(ins[2]))>>
    [] op = "Tile" -> <<EvalTile(x, Ints(ins[2]))>>
    [] op = "Pad" -> <<EvalPad(at, ins)>>
    [] op = "DepthToSpace" -> <<EvalDepthToSpace(at, x)>>
    [] op = "SpaceToDepth" -> <<EvalSpaceToDepth(at, x)>>
    [] op = "Trilu" -> <<EvalTrilu(at, x, IF Here(In(ins, 2)) THEN ins[2].v[1].n ELSE 0)>>
    [] op = "EyeLike" -> <<EvalEyeLike(at, x, IF Has(at, "dtype") THEN DtName(at.dtype.v) ELSE x.t)>>
    [] op = "OneHot" -> <<EvalOneHot(at, x, ins[2].v[1].n, ins[3])>>
    [] op = "Range" -> <<EvalRange(x, ins[2], ins[3])>>
    [] op = "NonZero" -> <<EvalNonZero(x)>>
    [] op = "TopK" -> EvalTopK(at, x, ins[2].v[1].n)
    [] op = "Where" -> <<EvalWhere(x, ins[2], ins[3])>>
    [] op = "Cast" -> LET t == DtName(at.to.v) IN <<Map(t, x, LAMBDA e : CastE(t, e))>>
    [] op = "Clip" -> <<EvalClip(ins)>>
    [] op = "Dropout" -> <<x>>
    [] op = "MatMul" -> <<MatMul(x, ins[2])>>
    [] op = "Gemm" -> <<EvalGemm(at, ins)>>
    [] op = "MatMulInteger" -> <<EvalMatMulInteger(ins)>>
    [] op = "Conv" -> <<EvalConv(at, ins)>>
    [] op = "ConvTranspose" -> <<EvalConvTranspose(at, ins)>>
    [] op \in {"MaxPool", "AveragePool"} -> <<EvalPool(op, at, x)>>
    [] op \in {"GlobalAveragePool", "GlobalMaxPool"} -> <<EvalGlobalPool(op, x)>>
    [] op = "BatchNormalization" -> <<EvalBatchNorm(at, ins)>>
    [] op = "LayerNormalization" -> <<EvalLayerNorm(at, ins)>>
    [] op = "InstanceNormalization" -> <<EvalInstanceNorm(at, ins)>>
    [] op = "GroupNormalization" -> <<EvalGroupNorm(at, ins)>>
    [] op \in {"LSTM", "GRU", "RNN"} -> EvalRnn(op, at, ins)
    [] op = "Resize" -> <<EvalResize(at, ins)>>
    [] op = "Col2Im" -> <<EvalCol2Im(at, ins)>>
    [] op = "Attention" -> EvalAttention(at, ins)
    [] op = "If" -> RunGraph(IF Eq(x.v[1], One) THEN at.then_branch.v ELSE at.else_branch.v, env)
    [] op = "Loop" -> EvalLoop(at, ins, env)
    [] op = "Scan" -> EvalScan(at, ins, env)
Operand(n, env) == IF n = "" THEN Absent ELSE env[n]
RunNodes(nodes, env) ==
  IF nodes = <<>> THEN env
  ELSE LET n == Head(nodes)
           o == TLCEval(Eval(n.op, n.at, [k \in 1..Len(n.in) |-> Operand(n.in[k], env)], Len(n.out), env))
       IN RunNodes(Tail(nodes), Bind(n.out, o, env))
RunGraph(g, env) ==
  LET e0 == FoldS(LAMBDA e, i : (i.n :> i.x) @@ e, env, g.inits)
      e == RunNodes(g.nodes, e0)
  IN [k \in 1..Len(g.outs) |-> e[g.outs[k]]]
==============================================================================
