------------------------------- MODULE Numbers -------------------------------
(* Numbers of every element type, bit for bit, and operators which hand a number of   *)
(* the model on to their result: unchanged, negated, compared, or as a bound.         *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS Types, Wide   \* element types; whether to take all numbers
VARIABLES c

Floats == {"F32", "F64", "F16", "BF16"}
Signed == {"I8", "I16", "I32", "I64"}
IsFloat(t) == t \in Floats
\* A number: its sign and the words (16 bits, highest first) of its magnitude, for floats those of the pattern without the sign bit.
Words(t) == CASE t \in {"F64", "I64", "U64"} -> 4 [] t \in {"F32", "I32", "U32"} -> 2 [] OTHER -> 1
Rep(x, n) == [k \in 1..n |-> x]
N(neg, w) == [neg |-> neg, w |-> w]
Zeros(t) == Rep(0, Words(t))
IsZero(a) == \A k \in DOMAIN a.w : a.w[k] = 0
RECURSIVE LessW(_, _)
LessW(u, v) == u # <<>> /\ (u[1] < v[1] \/ (u[1] = v[1] /\ LessW(Tail(u), Tail(v))))
Less(a, b) == CASE IsZero(a) /\ IsZero(b) -> FALSE [] a.neg /\ ~b.neg -> TRUE [] ~a.neg /\ b.neg -> FALSE
                [] a.neg -> LessW(b.w, a.w) [] OTHER -> LessW(a.w, b.w)
Same(a, b) == ~Less(a, b) /\ ~Less(b, a)
RECURSIVE Inc(_), Dec(_)
Inc(w) == IF w[Len(w)] < 65535 THEN [w EXCEPT ![Len(w)] = @ + 1] ELSE Inc(SubSeq(w, 1, Len(w) - 1)) \o <<0>>
Dec(w) == IF w[Len(w)] > 0 THEN [w EXCEPT ![Len(w)] = @ - 1] ELSE Dec(SubSeq(w, 1, Len(w) - 1)) \o <<65535>>
Neg(a) == N(~a.neg, a.w)

\* --- floats: exponent bits, and how many of the first word's bits are of the mantissa
Bits(t) == CASE t = "F32" -> 7 [] t = "F64" -> 4 [] t = "F16" -> 10 [] t = "BF16" -> 7
MaxE(t) == (2 ^ (15 - Bits(t))) - 1
Bias(t) == MaxE(t) \div 2
Pattern(t, e, m) == LET h == 2 ^ Bits(t) n == Words(t)
                    IN CASE m = "none" -> <<e * h>> \o Rep(0, n - 1) [] m = "least" -> IF n = 1 THEN <<(e * h) + 1>> ELSE <<e * h>> \o Rep(0, n - 2) \o <<1>>
                         [] m = "all" -> <<(e * h) + (h - 1)>> \o Rep(65535, n - 1) [] m = "half" -> <<(e * h) + (h \div 2)>> \o Rep(0, n - 1)
                         [] m = "mixed" -> <<(e * h) + ((2 * h) \div 3)>> \o Rep(43690, n - 1) [] m = "third" -> <<(e * h) + (h \div 3)>> \o Rep(21846, n - 1)
Exps(t) == {0, 1, Bias(t) - 4, Bias(t) - 1, Bias(t), Bias(t) + 1, Bias(t) + 6, MaxE(t) - 1}
           \union (IF Wide THEN {2, Bias(t) \div 2, Bias(t) - 2, Bias(t) - 30, Bias(t) - 10, Bias(t) + 2, Bias(t) + 10, Bias(t) + 23, Bias(t) + 24, Bias(t) + 52, Bias(t) + 63, MaxE(t) - 2} \intersect (1..(MaxE(t) - 1)) ELSE {})
Mants == {"none", "least", "all", "mixed"} \union (IF Wide THEN {"half", "third"} ELSE {})
Inf(t) == N(FALSE, Pattern(t, MaxE(t), "none"))
NaN(t) == N(FALSE, Pattern(t, MaxE(t), "half"))
FOne(t) == N(FALSE, Pattern(t, Bias(t), "none"))
FTwo(t) == N(FALSE, Pattern(t, Bias(t) + 1, "none"))
FloatNumbers(t) == {N(s, Pattern(t, e, m)) : s \in BOOLEAN, e \in Exps(t), m \in Mants} \union {Inf(t), Neg(Inf(t)), NaN(t)}
IsNaN(t, a) == IsFloat(t) /\ LessW(Inf(t).w, a.w)
IsInf(t, a) == IsFloat(t) /\ a.w = Inf(t).w

\* --- integers
Width(t) == CASE t \in {"I8", "U8"} -> 8 [] t \in {"I16", "U16"} -> 16 [] t \in {"I32", "U32"} -> 32 [] OTHER -> 64
\* 2^k in n words
Power(k, n) == [i \in 1..n |-> IF n - i = k \div 16 THEN 2 ^ (k % 16) ELSE 0]
\* the highest number and the magnitude of the lowest
Top(t) == LET n == Words(t) b == IF t \in Signed THEN Width(t) - 1 ELSE Width(t) IN IF b = 16 * n THEN Rep(65535, n) ELSE Dec(Power(b, n))
Fits(t, a) == IF a.neg THEN IsZero(a) \/ (t \in Signed /\ ~LessW(Inc(Top(t)), a.w)) ELSE ~LessW(Top(t), a.w)
Small(t, k) == Rep(0, Words(t) - 1) \o <<k>>
Magnitudes(t) == {Small(t, k) : k \in {0, 1, 2, 10, 127}} \union {Top(t), Dec(Top(t))} \union (IF t \in Signed THEN {Inc(Top(t))} ELSE {})
                 \union {Power(k, Words(t)) : k \in {k \in {7, 8, 15, 16, 24, 31, 32, 53, 63} : k < 16 * Words(t)}}
                 \union {Inc(Power(k, Words(t))) : k \in {k \in {24, 31, 32, 53} : k < 16 * Words(t)}}
                 \union (IF Wide THEN {Dec(Power(k, Words(t))) : k \in {k \in {7, 8, 15, 16, 24, 31, 32, 53, 63} : k < 16 * Words(t)}} ELSE {})
IntNumbers(t) == {a \in {N(s, m) : s \in BOOLEAN, m \in Magnitudes(t)} : Fits(t, a) /\ ~(a.neg /\ IsZero(a))}
Of(t) == IF IsFloat(t) THEN FloatNumbers(t) ELSE IntNumbers(t)
Zero(t) == N(FALSE, Zeros(t))
One(t) == IF IsFloat(t) THEN FOne(t) ELSE N(FALSE, Small(t, 1))
Two(t) == IF IsFloat(t) THEN FTwo(t) ELSE N(FALSE, Small(t, 2))
\* The next number above and below; the number itself where there is none.
Up(t, a) == CASE IsFloat(t) /\ IsZero(a) -> N(FALSE, Inc(Zeros(t))) [] ~IsFloat(t) /\ a.w = Zeros(t) -> One(t)
              [] a.neg -> LET d == N(TRUE, Dec(a.w)) IN IF ~IsFloat(t) /\ IsZero(d) THEN Zero(t) ELSE d
              [] (IsFloat(t) /\ ~LessW(a.w, Inf(t).w)) \/ (~IsFloat(t) /\ a.w = Top(t)) -> a [] OTHER -> N(FALSE, Inc(a.w))
Down(t, a) == CASE IsFloat(t) -> Neg(Up(t, Neg(a))) [] t \in Signed -> (IF a.neg THEN (IF LessW(Top(t), a.w) THEN a ELSE N(TRUE, Inc(a.w))) ELSE IF IsZero(a) THEN N(TRUE, Small(t, 1)) ELSE N(FALSE, Dec(a.w)))
                [] OTHER -> IF IsZero(a) THEN a ELSE N(FALSE, Dec(a.w))
Highest(t) == IF IsFloat(t) THEN Inf(t) ELSE N(FALSE, Top(t))
Lowest(t) == IF IsFloat(t) THEN Neg(Inf(t)) ELSE IF t \in Signed THEN N(TRUE, Inc(Top(t))) ELSE Zero(t)
MinN(a, b) == IF Less(b, a) THEN b ELSE a
MaxN(a, b) == IF Less(a, b) THEN b ELSE a
Clamp01(a) == MinN(MaxN(a, Zero("F32")), One("F32"))
Whole(k) == N(k < 0, Small("I64", IF k < 0 THEN -k ELSE k))

\* --- models: what is given from outside, what is in the model, and what comes out
Ten(t, s, v) == [t |-> t, s |-> s, v |-> v]
Bool(v) == Ten("Bool", <<Len(v)>>, [k \in DOMAIN v |-> N(FALSE, <<IF v[k] THEN 1 ELSE 0>>)])
In(x) == [k |-> "in", x |-> x]
Init0(x) == [k |-> "init", x |-> x]
Gone == [k |-> "gone"]
Vec(t, v) == Ten(t, <<Len(v)>>, v)
Scal(t, a) == Ten(t, <<>>, <<a>>)
AF(n, a) == [n |-> n, ty |-> "f", v |-> Scal("F32", a)]
AI(n, a) == [n |-> n, ty |-> "i", v |-> Scal("I64", a)]
AT(n, x) == [n |-> n, ty |-> "t", v |-> x]
F(form, op, at, operands, out) == [form |-> form, op |-> op, at |-> at, ops |-> operands, out |-> out, law |-> "exact"]
\* results the sign of whose zeros depends on how they are computed
L(form, op, at, operands, out) == [F(form, op, at, operands, out) EXCEPT !.law = "zeros"]
\* results computed from the number by a law of real numbers
A(form, op, at, operands, t, s, law) == [F(form, op, at, operands, Ten(t, s, <<>>)) EXCEPT !.law = law]
NoAt == <<>>

Both(form, op, at, before, x, after, out) == {F(form \o " rank 0", op, at, before \o <<Init0(Scal(x.t, x.v[1]))>> \o after, out), F(form \o " rank 1", op, at, before \o <<Init0(x)>> \o after, out)}
Loose(S) == {[f EXCEPT !.law = "zeros"] : f \in S}
General(t, a) ==
  {F("Constant rank 0", "Constant", <<AT("value", Scal(t, a))>>, <<>>, Scal(t, a)), F("Constant rank 1", "Constant", <<AT("value", Vec(t, <<a>>))>>, <<>>, Vec(t, <<a>>)),
   F("Constant of two", "Constant", <<AT("value", Vec(t, <<a, One(t)>>))>>, <<>>, Vec(t, <<a, One(t)>>)),
   F("Identity rank 0", "Identity", NoAt, <<Init0(Scal(t, a))>>, Scal(t, a)), F("Identity rank 1", "Identity", NoAt, <<Init0(Vec(t, <<a>>))>>, Vec(t, <<a>>)),
   F("ConstantOfShape", "ConstantOfShape", <<AT("value", Vec(t, <<a>>))>>, <<Init0(Vec("I64", <<Whole(2)>>))>>, Vec(t, <<a, a>>)),
   F("ConstantOfShape given", "ConstantOfShape", <<AT("value", Vec(t, <<a>>))>>, <<In(Vec("I64", <<Whole(2)>>))>>, Vec(t, <<a, a>>)),
   F("Pad", "Pad", NoAt, <<In(Vec(t, <<One(t)>>)), Init0(Vec("I64", <<Whole(1), Whole(1)>>)), Init0(Scal(t, a))>>, Vec(t, <<a, One(t), a>>)),
   F("Expand", "Expand", NoAt, <<Init0(Vec(t, <<a>>)), Init0(Vec("I64", <<Whole(2)>>))>>, Vec(t, <<a, a>>)),
   F("Concat", "Concat", <<AI("axis", Whole(0))>>, <<In(Vec(t, <<One(t)>>)), Init0(Vec(t, <<a>>))>>, Vec(t, <<One(t), a>>)),
   F("Gather", "Gather", NoAt, <<Init0(Vec(t, <<One(t), a>>)), In(Vec("I64", <<Whole(1)>>))>>, Vec(t, <<a>>)),
   F("Gather of two", "Gather", NoAt, <<Init0(Vec(t, <<a, a>>)), In(Vec("I64", <<Whole(1), Whole(0)>>))>>, Vec(t, <<a, a>>))}
  \union (IF IsFloat(t) /\ ~LessW(a.w, Inf(t).w) THEN {} ELSE \* zero times infinity is no number, and that is how the results are made
  {L("OneHot", "OneHot", NoAt, <<In(Vec("I64", <<Whole(0)>>)), Init0(Vec("I64", <<Whole(2)>>)), Init0(Vec(t, <<Zero(t), a>>))>>, Ten(t, <<1, 2>>, <<a, Zero(t)>>)),
   L("OneHot rest", "OneHot", NoAt, <<In(Vec("I64", <<Whole(0)>>)), Init0(Vec("I64", <<Whole(2)>>)), Init0(Vec(t, <<a, Zero(t)>>))>>, Ten(t, <<1, 2>>, <<Zero(t), a>>))})
  \union Both("Where", "Where", NoAt, <<In(Bool(<<TRUE, FALSE>>))>>, Vec(t, <<a>>), <<In(Vec(t, <<One(t), Two(t)>>))>>, Vec(t, <<a, Two(t)>>))
  \union Both("Where not", "Where", NoAt, <<In(Bool(<<TRUE, FALSE>>)), In(Vec(t, <<One(t), Two(t)>>))>>, Vec(t, <<a>>), <<>>, Vec(t, <<One(t), a>>))
  \union Both("Add", "Add", NoAt, <<In(Vec(t, <<IF IsFloat(t) THEN Neg(Zero(t)) ELSE Zero(t)>>))>>, Vec(t, <<a>>), <<>>, Vec(t, <<a>>))
  \union Both("Add to", "Add", NoAt, <<>>, Vec(t, <<a>>), <<In(Vec(t, <<IF IsFloat(t) THEN Neg(Zero(t)) ELSE Zero(t)>>))>>, Vec(t, <<a>>))
  \union Both("Sub from", "Sub", NoAt, <<>>, Vec(t, <<a>>), <<In(Vec(t, <<Zero(t)>>))>>, Vec(t, <<a>>))
  \union Both("Mul", "Mul", NoAt, <<In(Vec(t, <<One(t)>>))>>, Vec(t, <<a>>), <<>>, Vec(t, <<a>>))
  \union Both("Div", "Div", NoAt, <<>>, Vec(t, <<a>>), <<In(Vec(t, <<One(t)>>))>>, Vec(t, <<a>>))
\* comparisons and bounds, of what has an order
Ordered(t, a) ==
  LET x == <<Down(t, a), a, Up(t, a)>> Cmp(op, R(_)) == Both(op, op, NoAt, <<In(Vec(t, x))>>, Vec(t, <<a>>), <<>>, Bool([k \in 1..3 |-> R(x[k])]))
      Cmp2(op, R(_)) == Both(op \o " first", op, NoAt, <<>>, Vec(t, <<a>>), <<In(Vec(t, x))>>, Bool([k \in 1..3 |-> R(x[k])]))
  IN Cmp("Equal", LAMBDA q : Same(q, a)) \union Cmp("Less", LAMBDA q : Less(q, a)) \union Cmp("Greater", LAMBDA q : Less(a, q))
     \union Cmp("LessOrEqual", LAMBDA q : ~Less(a, q)) \union Cmp("GreaterOrEqual", LAMBDA q : ~Less(q, a))
     \union Cmp2("Less", LAMBDA q : Less(a, q)) \union Cmp2("Greater", LAMBDA q : Less(q, a))
     \union Loose(Both("Max", "Max", NoAt, <<In(Vec(t, x))>>, Vec(t, <<a>>), <<>>, Vec(t, [k \in 1..3 |-> MaxN(x[k], a)])))
     \union Loose(Both("Min", "Min", NoAt, <<In(Vec(t, x))>>, Vec(t, <<a>>), <<>>, Vec(t, [k \in 1..3 |-> MinN(x[k], a)])))
     \union {L("Clip above", "Clip", NoAt, <<In(Vec(t, x \o <<Highest(t)>>)), Gone, Init0(Scal(t, a))>>, Vec(t, [k \in 1..4 |-> MinN((x \o <<Highest(t)>>)[k], a)])),
             L("Clip below", "Clip", NoAt, <<In(Vec(t, x \o <<Lowest(t)>>)), Init0(Scal(t, a))>>, Vec(t, [k \in 1..4 |-> MaxN((x \o <<Lowest(t)>>)[k], a)]))}
Positive(a) == ~a.neg /\ ~IsZero(a)
OfFloats(t, a) == Loose(Both("Mul -1", "Mul", NoAt, <<In(Vec(t, <<Neg(One(t))>>))>>, Vec(t, <<a>>), <<>>, Vec(t, <<Neg(a)>>)))
                  \union {L("PRelu", "PRelu", NoAt, <<In(Vec(t, <<Neg(One(t)), One(t)>>)), Init0(Vec(t, <<a>>))>>, Vec(t, <<Neg(a), One(t)>>))}
Attributes(a) ==
  LET t == "F32" x == <<Down(t, a), a, Up(t, a)>> m == In(Ten(t, <<1, 1>>, <<One(t)>>)) z == In(Ten(t, <<1, 1>>, <<Zero(t)>>))
  IN {F("Constant value_float", "Constant", <<AF("value_float", a)>>, <<>>, Scal(t, a)), F("Constant value_floats", "Constant", <<[n |-> "value_floats", ty |-> "floats", v |-> Vec(t, <<a, One(t)>>)]>>, <<>>, Vec(t, <<a, One(t)>>)),
      L("LeakyRelu", "LeakyRelu", <<AF("alpha", a)>>, <<In(Vec(t, <<Neg(One(t)), One(t)>>))>>, Vec(t, <<Neg(a), One(t)>>)),
      L("Elu", "Elu", <<AF("alpha", a)>>, <<In(Vec(t, <<Neg(Inf(t)), One(t)>>))>>, Vec(t, <<Neg(a), One(t)>>)),
      L("Selu gamma", "Selu", <<AF("gamma", a)>>, <<In(Vec(t, <<One(t)>>))>>, Vec(t, <<a>>)),
      L("Selu alpha", "Selu", <<AF("alpha", a), AF("gamma", One(t))>>, <<In(Vec(t, <<Neg(Inf(t)), One(t)>>))>>, Vec(t, <<Neg(a), One(t)>>)),
      L("Gemm alpha", "Gemm", <<AF("alpha", a)>>, <<m, m>>, Ten(t, <<1, 1>>, <<a>>)), L("Gemm beta", "Gemm", <<AF("beta", a)>>, <<z, m, m>>, Ten(t, <<1, 1>>, <<a>>))}
     \union (IF IsNaN(t, a) THEN {} ELSE
             {L("HardSigmoid beta", "HardSigmoid", <<AF("beta", a), AF("alpha", One(t))>>, <<In(Vec(t, <<Zero(t)>>))>>, Vec(t, <<Clamp01(a)>>)),
              L("HardSigmoid alpha", "HardSigmoid", <<AF("alpha", a), AF("beta", Zero(t))>>, <<In(Vec(t, <<One(t)>>))>>, Vec(t, <<Clamp01(a)>>)),
              L("ThresholdedRelu", "ThresholdedRelu", <<AF("alpha", a)>>, <<In(Vec(t, x))>>, Vec(t, [k \in 1..3 |-> IF Less(a, x[k]) THEN x[k] ELSE Zero(t)])),
              L("Clip 6 max", "Clip", <<AF("max", a)>>, <<In(Vec(t, x \o <<Highest(t)>>))>>, Vec(t, [k \in 1..4 |-> MinN((x \o <<Highest(t)>>)[k], a)])),
              L("Clip 6 min", "Clip", <<AF("min", a)>>, <<In(Vec(t, x \o <<Lowest(t)>>))>>, Vec(t, [k \in 1..4 |-> MaxN((x \o <<Lowest(t)>>)[k], a)]))})
     \union (IF Positive(a) /\ ~IsNaN(t, a) /\ ~IsInf(t, a) /\ a.w[1] >= 128 /\ a.w[1] < 32512 THEN
             {L("Celu", "Celu", <<AF("alpha", a)>>, <<In(Vec(t, <<Neg(Inf(t)), One(t)>>))>>, Vec(t, <<Neg(a), One(t)>>)),
              A("BatchNormalization epsilon", "BatchNormalization", <<AF("epsilon", a)>>,
                <<In(Ten(t, <<1, 1>>, <<One(t)>>)), Init0(Vec(t, <<One(t)>>)), Init0(Vec(t, <<Zero(t)>>)), Init0(Vec(t, <<Zero(t)>>)), Init0(Vec(t, <<Zero(t)>>))>>, t, <<1, 1>>, "one by the root"),
              A("LayerNormalization epsilon", "LayerNormalization", <<AF("epsilon", a)>>,
                <<In(Ten(t, <<1, 2>>, <<One(t), Neg(One(t))>>)), Init0(Vec(t, <<One(t), One(t)>>)), Init0(Vec(t, <<Zero(t), Zero(t)>>))>>, t, <<1, 2>>, "one and minus one by the root of it and one"),
              A("LRN bias", "LRN", <<AF("bias", a), AF("alpha", Zero(t)), AF("beta", One(t)), AI("size", Whole(1))>>, <<In(Ten(t, <<1, 1, 1, 1>>, <<One(t)>>))>>, t, <<1, 1, 1, 1>>, "one by it")} ELSE {})
Clamped(a) == IF a.neg THEN (IF LessW(Small("I64", 3), a.w) THEN 0 ELSE 3 - a.w[4]) ELSE IF LessW(Small("I64", 3), a.w) THEN 3 ELSE a.w[4]
Slices(a) == LET n == Clamped(a) v == <<Zero("F32"), One("F32"), Two("F32")>> i(k) == Init0(Vec("I64", <<k>>))
             IN {F("Slice end", "Slice", NoAt, <<In(Vec("F32", v)), i(Zero("I64")), i(a)>>, Vec("F32", SubSeq(v, 1, n))), F("Slice start", "Slice", NoAt, <<In(Vec("F32", v)), i(a), i(Highest("I64"))>>, Vec("F32", SubSeq(v, n + 1, 3)))}
Integers1(t, a) ==
  (IF t = "I64" THEN {F("Constant value_int", "Constant", <<AI("value_int", a)>>, <<>>, Scal(t, a)), F("Constant value_ints", "Constant", <<[n |-> "value_ints", ty |-> "ints", v |-> Vec(t, <<a, Whole(1)>>)]>>, <<>>, Vec(t, <<a, Whole(1)>>))}
                     \union Slices(a) ELSE {})
  \union Both("BitwiseOr", "BitwiseOr", NoAt, <<In(Vec(t, <<Zero(t)>>))>>, Vec(t, <<a>>), <<>>, Vec(t, <<a>>))
  \union Both("BitwiseXor", "BitwiseXor", NoAt, <<In(Vec(t, <<Zero(t)>>))>>, Vec(t, <<a>>), <<>>, Vec(t, <<a>>))
  \union Both("BitwiseAnd", "BitwiseAnd", NoAt, <<In(Vec(t, <<IF t \in Signed THEN N(TRUE, Small(t, 1)) ELSE Highest(t)>>))>>, Vec(t, <<a>>), <<>>, Vec(t, <<a>>))
  \union (IF t \in {"I32", "I64"} /\ Less(Down(t, Down(t, N(FALSE, Top(t)))), a) THEN {} ELSE IF t \notin {"I32", "I64"} THEN {}
          ELSE {F("Range start", "Range", NoAt, <<Init0(Scal(t, a)), Init0(Scal(t, Up(t, Up(t, a)))), Init0(Scal(t, One(t)))>>, Vec(t, <<a, Up(t, a)>>))})
OpsetOf(f) == IF f.form \in {"Clip 6 max", "Clip 6 min"} THEN 6 ELSE 18
Forms(t, a) == General(t, a) \union (IF IsNaN(t, a) THEN {} ELSE Ordered(t, a)) \union (IF IsFloat(t) THEN OfFloats(t, a) ELSE Integers1(t, a)) \union (IF t = "F32" THEN Attributes(a) ELSE {})

Init == \E t \in Types : \E a \in Of(t) \union {One(t)} : \E f \in Forms(t, a) : c = [t |-> t, a |-> a, f |-> f, plain |-> a = One(t), opset |-> OpsetOf(f)]
Next == UNCHANGED c
\* The order is a strict one, and Up and Down are next to a number.
Sound == LET t == c.t a == c.a IN ~IsNaN(t, a) => /\ ~Less(a, a) /\ (~Same(Up(t, a), a) => Less(a, Up(t, a))) /\ (~Same(Down(t, a), a) => Less(Down(t, a), a))
                                               /\ \A q \in Of(t) : ~IsNaN(t, q) => (Less(a, q) => (~Less(q, Up(t, a)) /\ ~Less(q, a)))
Emit == PrintT("@@" \o ToJson(c))
==============================================================================
