-------------------------------- MODULE Cases --------------------------------
(* One-operator models: every operator with its attribute forms, operand shapes  *)
(* and types, and every way its operands can be given (graph input, initializer,  *)
(* Constant node, computed shape). Evaluated with Onnx!RunGraph (C01, C08, ...).   *)
EXTENDS Onnx, Json

CONSTANTS Families,    \* which families to emit
          AllModes,    \* every operand form for every case, or two of them
          Share, Of    \* emit the cases whose number is Share modulo Of

\* Deterministic data: distinct as long as there are at most 31 elements.
Vn(k, salt) == (((k * 7) + (salt * 5)) % 31) - 15
E1(t, k, salt) == CASE t \in {"F32", "F64", "F16"} -> Q(Vn(k, salt), 4)
                    [] t = "Bool" -> B(((k * k) + k + salt) % 3 > 0)
                    [] t \in {"U8", "U16", "U32", "U64"} -> I(Vn(k, salt) + 15)
                    [] OTHER -> I(Vn(k, salt))
V(t, s, salt) == MkF(t, s, LAMBDA k : E1(t, k, salt))
X(s) == V("F32", s, 1)
Y(s) == V("F32", s, 2)
Pos(s, salt) == MkF("F32", s, LAMBDA k : Q((((k * 5) + salt) % 23) + 1, 4))
\* strictly inside (-1, 1)
Unit(s) == MkF("F32", s, LAMBDA k : Q(Vn(k, 1), 16))
NonZ(t, s, salt) == MkF(t, s, LAMBDA k : LET e == E1(t, k, salt) IN IF Eq(e, Zero) THEN One ELSE e)

D(x) == [x |-> x, role |-> "d"]       \* data operand
P(x) == [x |-> x, role |-> "p"]       \* parameter operand (shape, axes, ...): normally constant
W(x) == [x |-> x, role |-> "w"]       \* weight: normally an initializer
None == [x |-> Absent, role |-> "a"]
C(op, at, ops, nout, opset) == [op |-> op, at |-> at, ops |-> ops, nout |-> nout, opset |-> opset]
C1(op, at, ops) == C(op, at, ops, 1, 18)
NoAt == <<>>
Fam(S, f(_)) == LET q == SetToSeq(S) IN [k \in 1..Len(q) |-> f(q[k])]
RECURSIVE FlattenS(_)
FlattenS(ss) == IF ss = <<>> THEN <<>> ELSE Head(ss) \o FlattenS(Tail(ss))

------------------------------------------------------------------------------
Shapes == << <<>>, <<3>>, <<2, 3>>, <<2, 1, 3>>, <<1, 2, 2, 2>> >>
UnFloat == UnaryOps \ {"Not", "BitwiseNot", "IsNaN", "IsInf", "Identity"}
UnIn(op, s) == IF op \in {"Sqrt", "Log"} THEN Pos(s, 3) ELSE IF op = "Acosh" THEN MkF("F32", s, LAMBDA k : Q(k + 4, 4))
               ELSE IF op \in {"Asin", "Acos", "Atanh"} THEN Unit(s) ELSE IF op = "Reciprocal" THEN NonZ("F32", s, 1) ELSE X(s)
CUnary == Fam(UnFloat \X (1..5), LAMBDA p : C(p[1], NoAt, <<D(UnIn(p[1], Shapes[p[2]]))>>, 1, IF p[1] = "Swish" THEN 24 ELSE IF p[1] = "Gelu" THEN 20 ELSE 18))
UnAttr == << <<"LeakyRelu", [alpha |-> AF(Half)]>>, <<"LeakyRelu", [alpha |-> AF(Zero)]>>, <<"LeakyRelu", [alpha |-> AF(I(-2))]>>, <<"Elu", [alpha |-> AF(Q(3, 2))]>>, <<"Celu", [alpha |-> AF(Half)]>>,
             <<"Selu", [alpha |-> AF(Half), gamma |-> AF(I(2))]>>, <<"Selu", [gamma |-> AF(I(3))]>>, <<"ThresholdedRelu", [alpha |-> AF(Half)]>>, <<"ThresholdedRelu", [alpha |-> AF(Zero)]>>,
             <<"HardSigmoid", [alpha |-> AF(Half), beta |-> AF(Q(1, 4))]>>, <<"HardSigmoid", [beta |-> AF(Zero)]>>, <<"HardSigmoid", [alpha |-> AF(One)]>>,
             <<"Gelu", [approximate |-> AS("tanh")]>>, <<"Gelu", [approximate |-> AS("none")]>>, <<"Swish", [alpha |-> AF(I(2))]>> >>
CUnaryAttr == Fam((1..Len(UnAttr)) \X {1, 3}, LAMBDA p : C(UnAttr[p[1]][1], UnAttr[p[1]][2], <<D(X(Shapes[p[2]]))>>, 1,
                  IF UnAttr[p[1]][1] = "Swish" THEN 24 ELSE IF UnAttr[p[1]][1] = "Gelu" THEN 20 ELSE 18))
CUnaryOther ==
  Fam({"Abs", "Neg", "Sign", "Relu"} \X {"I64", "I32", "F64"} \X {1, 3}, LAMBDA p : C1(p[1], NoAt, <<D(V(p[2], Shapes[p[3]], 1))>>))
  \o Fam({"Identity"} \X {"F32", "I64", "Bool"} \X {1, 2, 4}, LAMBDA p : C1(p[1], NoAt, <<D(V(p[2], Shapes[p[3]], 1))>>))
  \o Fam({1, 2, 3, 4}, LAMBDA p : C1("Not", NoAt, <<D(V("Bool", Shapes[p], 1))>>))
  \o Fam({"I64", "I32", "U8"} \X {1, 3}, LAMBDA p : C1("BitwiseNot", NoAt, <<D(V(p[1], Shapes[p[2]], 1))>>))
  \o Fam({1, 2, 3} \X {0, 1, 2, 3}, LAMBDA p : LET x == MkF("F32", Shapes[p[1]], LAMBDA k : CASE (k + p[2]) % 5 = 0 -> Lit("inf") [] (k + p[2]) % 5 = 1 -> Lit("-inf") [] (k + p[2]) % 5 = 2 -> Lit("nan") [] OTHER -> I(k))
                                               IN C(IF p[2] = 3 THEN "IsNaN" ELSE "IsInf", IF p[2] \in {0, 3} THEN NoAt ELSE [detect_positive |-> AI(p[2] - 1), detect_negative |-> AI(2 - p[2])], <<D(x)>>, 1, 20))
  \o Fam({1, 2}, LAMBDA p : C1("IsInf", [detect_positive |-> AI(0), detect_negative |-> AI(0)], <<D(X(Shapes[p + 1]))>>))

\* Shape pairs for operators of two operands.
Pairs == << << <<2, 3>>, <<2, 3>> >>, << <<2, 3>>, <<3>> >>, << <<3>>, <<2, 3>> >>, << <<2, 1>>, <<1, 3>> >>, << <<2, 3>>, <<>> >>, << <<>>, <<2, 3>> >>, << <<>>, <<>> >>,
            << <<3>>, <<1>> >>, << <<1>>, <<3>> >>, << <<2, 3, 1>>, <<3, 2>> >>, << <<2, 3>>, <<1, 1>> >>, << <<4>>, <<4>> >>, << <<1>>, <<>> >>, << <<2, 2, 3>>, <<2, 1, 3>> >>,
            << <<2, 1, 2, 1>>, <<3, 1, 2>> >> >>
NP == 1..Len(Pairs)
CBinary ==
  Fam({"Add", "Sub", "Mul", "Div"} \X {"F32", "I64"} \X NP, LAMBDA p : C1(p[1], NoAt, <<D(V(p[2], Pairs[p[3]][1], 1)), D(NonZ(p[2], Pairs[p[3]][2], 2))>>))
  \o Fam({"Add", "Sub", "Mul", "Div"} \X {"I32", "F64"} \X {1, 2, 5, 6}, LAMBDA p : C1(p[1], NoAt, <<D(V(p[2], Pairs[p[3]][1], 1)), D(NonZ(p[2], Pairs[p[3]][2], 2))>>))
CCompare ==
  Fam(Compare \X {"F32", "I64"} \X NP, LAMBDA p : C1(p[1], NoAt, <<D(MkF(p[2], Pairs[p[3]][1], LAMBDA k : I(k % 4))), D(MkF(p[2], Pairs[p[3]][2], LAMBDA k : I((k * k) % 4)))>>))
  \o Fam({"Equal"} \X NP, LAMBDA p : C1(p[1], NoAt, <<D(V("Bool", Pairs[p[2]][1], 1)), D(V("Bool", Pairs[p[2]][2], 2))>>))
  \o Fam({"And", "Or", "Xor"} \X NP, LAMBDA p : C1(p[1], NoAt, <<D(V("Bool", Pairs[p[2]][1], 1)), D(V("Bool", Pairs[p[2]][2], 2))>>))
CArith2 ==
  Fam({"Mod"} \X {"I64", "I32"} \X {0, 1} \X NP, LAMBDA p : C1("Mod", IF p[3] = 0 THEN NoAt ELSE [fmod |-> AI(1)], <<D(V(p[2], Pairs[p[4]][1], 1)), D(NonZ(p[2], Pairs[p[4]][2], 2))>>))
  \o Fam(NP, LAMBDA p : C1("Mod", [fmod |-> AI(1)], <<D(X(Pairs[p][1])), D(NonZ("F32", Pairs[p][2], 2))>>))
  \o Fam({"F32", "I64", "I32"} \X NP, LAMBDA p : C1("Pow", NoAt, <<D(Pos(Pairs[p[2]][1], 1)), D(MkF(p[1], Pairs[p[2]][2], LAMBDA k : I(k % 4)))>>))
  \o Fam({2, 3} \X NP, LAMBDA p : C1("Pow", NoAt, <<D(MkF("I64", Pairs[p[2]][1], LAMBDA k : I((k % 5) - 2))), D(MkF(IF p[1] = 2 THEN "I64" ELSE "F32", Pairs[p[2]][2], LAMBDA k : I(k % 4)))>>))
  \o Fam({1, 2, 5}, LAMBDA p : C1("Pow", NoAt, <<D(Pos(Pairs[p][1], 2)), D(MkF("F32", Pairs[p][2], LAMBDA k : Q(k % 5, 2)))>>))
  \o Fam({"BitwiseAnd", "BitwiseOr", "BitwiseXor"} \X {"I64", "I32"} \X NP, LAMBDA p : C1(p[1], NoAt, <<D(V(p[2], Pairs[p[3]][1], 1)), D(V(p[2], Pairs[p[3]][2], 2))>>))
  \o Fam({"LEFT", "RIGHT"} \X {"U32", "U64", "U8"} \X NP, LAMBDA p : C1("BitShift", [direction |-> AS(p[1])], <<D(MkF(p[2], Pairs[p[3]][1], LAMBDA k : I((k * 3) % 8))), D(MkF(p[2], Pairs[p[3]][2], LAMBDA k : I(k % 4)))>>))
  \o Fam({<< <<2, 3, 2>>, <<3, 1>> >>, << <<2, 3>>, <<3>> >>, << <<2, 3>>, <<1>> >>, << <<2, 3, 2>>, <<1>> >>, << <<2, 3, 2, 2>>, <<3, 1, 1>> >>, << <<2, 3>>, <<2, 3>> >>},
         LAMBDA p : C1("PRelu", NoAt, <<D(X(p[1])), W(Y(p[2]))>>))
CVariadic ==
  Fam(Variadic \X {"F32"} \X {1, 2, 3, 4} \X {1, 2}, LAMBDA p : LET ss == IF p[4] = 1 THEN << <<2, 3>>, <<2, 3>>, <<2, 3>>, <<2, 3>> >> ELSE << <<2, 3>>, <<3>>, <<2, 1>>, <<>> >>
                                                    IN C1(p[1], NoAt, [k \in 1..p[3] |-> D(V(p[2], ss[k], k))]))
  \o Fam({"Max", "Min"} \X {"I64", "I32"} \X NP, LAMBDA p : C1(p[1], NoAt, <<D(V(p[2], Pairs[p[3]][1], 1)), D(V(p[2], Pairs[p[3]][2], 2))>>))
  \o Fam({"Max", "Min", "Sum", "Mean"} \X NP, LAMBDA p : C1(p[1], NoAt, <<D(X(Pairs[p[2]][1])), D(Y(Pairs[p[2]][2]))>>))
Triples == << << <<2, 3>>, <<2, 3>>, <<2, 3>> >>, << <<3>>, <<2, 3>>, <<2, 3>> >>, << <<2, 3>>, <<3>>, <<>> >>, << <<2, 3>>, <<>>, <<2, 1>> >>, << <<>>, <<2, 3>>, <<2, 3>> >>, << <<>>, <<>>, <<>> >>,
              << <<2, 1>>, <<1, 3>>, <<1>> >>, << <<3>>, <<3>>, <<3>> >>, << <<>>, <<3>>, <<2, 3>> >>, << <<1>>, <<3>>, <<3>> >> >>
CWhere == Fam({"F32", "I64", "Bool"} \X (1..Len(Triples)), LAMBDA p : C1("Where", NoAt, <<D(V("Bool", Triples[p[2]][1], 1)), D(V(p[1], Triples[p[2]][2], 2)), D(V(p[1], Triples[p[2]][3], 3))>>))
CClip ==
  Fam({"F32", "I64", "I32"} \X {0, 1, 2, 3} \X {2, 3}, LAMBDA p : C1("Clip", NoAt, <<D(V(p[1], Shapes[p[3]], 1))>>
        \o (IF p[2] % 2 = 1 THEN <<P(Scal(p[1], I(-2)))>> ELSE IF p[2] = 2 THEN <<None>> ELSE <<>>)
        \o (IF p[2] >= 2 THEN <<P(Scal(p[1], I(2)))>> ELSE <<>>)))
Dts == <<1, 6, 7, 9, 11, 2>>
CCast == Fam({"F32", "I64", "I32", "Bool", "F64"} \X (1..6) \X {1, 2, 3}, LAMBDA p : C1("Cast", [to |-> AI(Dts[p[2]])], <<D(IF Dts[p[2]] = 2 THEN MkF(p[1], Shapes[p[3]], LAMBDA k : IF p[1] = "Bool" THEN I(k % 2) ELSE I(k)) ELSE V(p[1], Shapes[p[3]], 3))>>))

------------------------------------------------------------------------------
R3 == <<2, 3, 2>>
AxSets == << <<0>>, <<1>>, <<2>>, <<-1>>, <<-2>>, <<-3>>, <<0, 1>>, <<0, 2>>, <<2, 0>>, <<-1, 0>>, <<0, 1, 2>>, <<1, -1>> >>
CReduce ==
  Fam(ReduceOps \X {0, 1} \X (1..Len(AxSets)), LAMBDA p : C1(p[1], [keepdims |-> AI(p[2])], <<D(IF p[1] \in {"ReduceLogSum"} THEN Pos(R3, 1) ELSE Unit(R3)), P(IVec(AxSets[p[3]]))>>))
  \o Fam(ReduceOps \X {0, 1, 2} \X {0, 1}, LAMBDA p : C1(p[1], IF p[2] = 2 THEN [noop_with_empty_axes |-> AI(p[3])] ELSE [keepdims |-> AI(p[2]), noop_with_empty_axes |-> AI(p[3])], <<D(Pos(<<2, 3>>, 1))>>))
  \o Fam({"ReduceSum", "ReduceMax", "ReduceMean", "ReduceProd", "ReduceMin", "ReduceL1", "ReduceSumSquare"} \X {"I64", "I32"} \X {0, 1} \X {1, 4, 8}, LAMBDA p : C1(p[1], [keepdims |-> AI(p[3])], <<D(MkF(p[2], R3, LAMBDA k : I(((k * 5) % 7) - 3))), P(IVec(AxSets[p[4]]))>>))
  \o Fam((ReduceOps \ {"ReduceSum"}) \X {0, 1} \X {2, 4, 8}, LAMBDA p : C(p[1], [axes |-> AIs(AxSets[p[3]]), keepdims |-> AI(p[2])], <<D(Pos(R3, 1))>>, 1, 17))
  \o Fam(ReduceOps \X {0, 1}, LAMBDA p : C1(p[1], [keepdims |-> AI(p[2])], <<D(Pos(<<4>>, 1)), P(IVec(<<0>>))>>))
CArg ==
  Fam({"ArgMax", "ArgMin"} \X {0, 1, 2, -1, -3, 9} \X {0, 1} \X {0, 1}, LAMBDA p : C1(p[1], IF p[2] = 9 THEN [keepdims |-> AI(p[3]), select_last_index |-> AI(p[4])]
        ELSE [axis |-> AI(p[2]), keepdims |-> AI(p[3]), select_last_index |-> AI(p[4])], <<D(MkF("F32", R3, LAMBDA k : I((k * k) % 5)))>>))
  \o Fam({"ArgMax", "ArgMin"} \X {0, 1} \X {"I64", "F32"}, LAMBDA p : C1(p[1], [axis |-> AI(0), keepdims |-> AI(p[2])], <<D(V(p[3], <<4>>, 1))>>))
CCum == Fam({0, 1} \X {0, 1} \X {0, 1, 2, -1, -2} \X {"F32", "I64"}, LAMBDA p : C1("CumSum", [exclusive |-> AI(p[1]), reverse |-> AI(p[2])], <<D(V(p[4], R3, 1)), P(IScal(p[3]))>>))
  \o Fam({0, -1}, LAMBDA p : C1("CumSum", NoAt, <<D(X(<<4>>)), P(IScal(p))>>))
CSoft == Fam({"Softmax", "LogSoftmax", "Hardmax"} \X {0, 1, 2, -1, -2, 9}, LAMBDA p : C1(p[1], IF p[2] = 9 THEN NoAt ELSE [axis |-> AI(p[2])], <<D(X(R3))>>))
  \o Fam({"Softmax", "LogSoftmax", "Hardmax"} \X {1, 2}, LAMBDA p : C1(p[1], NoAt, <<D(X(IF p[2] = 1 THEN <<4>> ELSE <<2, 3>>))>>))

------------------------------------------------------------------------------
CShape ==
  Fam({0, 1, -1, -2, 9, -9} \X {0, 1, 2, 3, -1, 9, -9}, LAMBDA p : C1("Shape", [start |-> AI(p[1]), end |-> AI(p[2])], <<D(X(R3))>>))
  \o Fam({1, 2, 3, 4}, LAMBDA p : C1("Shape", NoAt, <<D(X(Shapes[p]))>>))
  \o Fam({1, 2, 3, 4}, LAMBDA p : C1("Size", NoAt, <<D(X(Shapes[p]))>>))
  \o Fam({0, 1, -1}, LAMBDA p : C1("Shape", [start |-> AI(p)], <<D(V("I64", R3, 1))>>))
ReTo == << <<12>>, <<3, 4>>, <<-1>>, <<2, -1>>, <<0, -1>>, <<0, 0, 2>>, <<0, 6>>, <<-1, 0, 1>>, <<1, 2, 3, 2>>, <<2, 3, -1>>, <<4, -1, 1>> >>
CReshape ==
  Fam((1..Len(ReTo)) \X {"F32", "I64", "Bool"}, LAMBDA p : C1("Reshape", IF p[1] % 2 = 0 THEN [allowzero |-> AI(0)] ELSE NoAt, <<D(V(p[2], R3, 1)), P(IVec(ReTo[p[1]]))>>))
  \o Fam({1, 2, 3}, LAMBDA p : C1("Reshape", NoAt, <<D(X(<<1, 1>>)), P(IVec(<< <<>>, <<1>>, <<-1>> >>[p]))>>))
  \o Fam({1, 2, 3}, LAMBDA p : C1("Reshape", NoAt, <<D(X(<<>>)), P(IVec(<< <<1>>, <<-1>>, <<1, 1>> >>[p]))>>))
  \o Fam({1, 2, 3}, LAMBDA p : C1("Reshape", [allowzero |-> AI(1)], <<D(X(R3)), P(IVec(<< <<4, 3>>, <<-1, 2>>, <<12>> >>[p]))>>))
SqS == <<1, 2, 1, 3>>
CSqueeze ==
  Fam({<<0>>, <<2>>, <<-2>>, <<0, 2>>, <<2, 0>>, <<-4>>, <<-2, 0>>} \X {"F32", "I64"}, LAMBDA p : C1("Squeeze", NoAt, <<D(V(p[2], SqS, 1)), P(IVec(p[1]))>>))
  \o Fam({1, 2, 3}, LAMBDA p : C1("Squeeze", NoAt, <<D(X(<< SqS, <<1, 1>>, <<2, 3>> >>[p]))>>))
  \o Fam({<<0>>, <<1>>, <<2>>, <<-1>>, <<-3>>, <<0, 1>>, <<0, 3>>, <<3, 0>>, <<-1, 0>>, <<1, 2>>} \X {"F32", "I64"}, LAMBDA p : C1("Unsqueeze", NoAt, <<D(V(p[2], <<2, 3>>, 1)), P(IVec(p[1]))>>))
  \o Fam({<<0>>, <<-1>>, <<0, 1>>} \X {"F32", "I64", "Bool"}, LAMBDA p : C1("Unsqueeze", NoAt, <<D(V(p[2], <<>>, 1)), P(IVec(p[1]))>>))
  \o Fam({"F32", "I64"}, LAMBDA p : C1("Squeeze", NoAt, <<D(V(p, <<1>>, 1)), P(IVec(<<0>>))>>))
  \o Fam({0, 1, 2, 3, -1, -2, -3, 9}, LAMBDA p : C1("Flatten", IF p = 9 THEN NoAt ELSE [axis |-> AI(p)], <<D(X(R3))>>))
  \o Fam({0, 1}, LAMBDA p : C1("Flatten", [axis |-> AI(p)], <<D(X(<<3>>))>>))
Perms == << <<0, 1, 2>>, <<0, 2, 1>>, <<1, 0, 2>>, <<1, 2, 0>>, <<2, 0, 1>>, <<2, 1, 0>> >>
CTranspose ==
  Fam((1..6) \X {"F32", "I64", "Bool"}, LAMBDA p : C1("Transpose", [perm |-> AIs(Perms[p[1]])], <<D(V(p[2], R3, 1))>>))
  \o Fam({2, 3, 4, 5}, LAMBDA p : C1("Transpose", NoAt, <<D(X(Shapes[p]))>>))
  \o Fam({<<0, 3, 1, 2>>, <<3, 0, 2, 1>>}, LAMBDA p : C1("Transpose", [perm |-> AIs(p)], <<D(X(<<2, 3, 1, 4>>))>>))
CConcat ==
  Fam({0, 1, 2, -1, -2, -3} \X {1, 2, 3, 4} \X {"F32", "I64", "Bool"}, LAMBDA p : C1("Concat", [axis |-> AI(p[1])],
       [k \in 1..p[2] |-> D(V(p[3], [j \in 1..3 |-> IF j = Axis(p[1], 3) THEN 1 + (k % 3) ELSE R3[j]], k))]))
  \o Fam({1, 2, 3} \X {"F32", "I64"}, LAMBDA p : C1("Concat", [axis |-> AI(0)], [k \in 1..p[1] |-> D(V(p[2], <<k>>, k))]))
CSplit ==
  Fam({0, 1, -1, -2} \X {1, 2, 3}, LAMBDA p : C("Split", [axis |-> AI(p[1]), num_outputs |-> AI(p[2])], <<D(X(<<5, 4>>))>>, p[2], 18))
  \o Fam({<<0, <<2, 3>> >>, <<0, <<1, 1, 3>> >>, <<1, <<1, 3>> >>, <<-1, <<2, 2>> >>, <<-2, <<4, 1>> >>, <<0, <<5>> >>}, LAMBDA p : C("Split", [axis |-> AI(p[1])], <<D(X(<<5, 4>>)), P(IVec(p[2]))>>, Len(p[2]), 18))
  \o Fam({2, 4}, LAMBDA p : C("Split", NoAt, <<D(X(<<4, 3>>))>>, p, 17))
Sls == << <<0, 2, 0, 1>>, <<1, 9, 0, 1>>, <<-2, -1, 0, 1>>, <<0, 99999, 1, 2>>, <<-1, -99999, 0, -1>>, <<3, 0, 1, -1>>, <<-1, 0, -1, -2>>, <<2, 2, 0, 1>>, <<-9, 3, 1, 1>>, <<0, 2147483647, -1, 1>>, <<1, -1, 1, 1>>,
          <<3, -2147483647, 0, -1>>, <<4, 1, 1, -2>> >>
CSlice ==
  Fam((1..Len(Sls)) \X {1, 2, 3} \X {"F32", "I64"}, LAMBDA p : LET q == Sls[p[1]] IN C1("Slice", NoAt, <<D(V(p[3], <<4, 5>>, 1)), P(IVec(<<q[1]>>)), P(IVec(<<q[2]>>)), P(IVec(<<q[3]>>))>> \o (IF p[2] = 1 /\ q[4] = 1 THEN <<>> ELSE <<P(IVec(<<q[4]>>))>>)))
  \o Fam({1, 2, 3, 4}, LAMBDA p : C1("Slice", NoAt, << <<D(X(<<4, 5>>)), P(IVec(<<1, 2>>)), P(IVec(<<3, 5>>))>>, <<D(X(<<4, 5>>)), P(IVec(<<1, 2>>)), P(IVec(<<3, 9>>)), P(IVec(<<1, 0>>)), P(IVec(<<2, 1>>))>>,
                                                       <<D(X(<<4, 5>>)), P(IVec(<<-1, 0>>)), P(IVec(<<-9, 4>>)), P(IVec(<<0, 1>>)), P(IVec(<<-1, 3>>))>>, <<D(X(<<4, 5, 2>>)), P(IVec(<<0, 1>>)), P(IVec(<<2, 4>>)), P(IVec(<<-1, -2>>))>> >>[p]))
CGather ==
  Fam({0, 1, 2, -1, -2} \X {<<>>, <<3>>, <<2, 2>>, <<1>>} \X {"F32", "I64", "Bool"}, LAMBDA p : C1("Gather", [axis |-> AI(p[1])], <<D(V(p[3], R3, 1)), P(MkF("I64", p[2], LAMBDA k : I((k % 3) - (IF k % 2 = 0 THEN 2 ELSE 1))))>>))
  \o Fam({<<>>, <<3>>, <<2, 2>>} \X {"F32", "I64"}, LAMBDA p : C1("Gather", NoAt, <<D(V(p[2], <<4>>, 1)), P(MkF("I64", p[1], LAMBDA k : I(k % 4)))>>))
  \o Fam({<<>>, <<3>>, <<2, 2>>} \X {0, 1}, LAMBDA p : C1("Gather", [axis |-> AI(p[2])], <<W(X(<<4, 4>>)), D(MkF("I64", p[1], LAMBDA k : I((k * k) % 4)))>>))
  \o Fam({0, 1, 2, -1}, LAMBDA p : C1("GatherElements", [axis |-> AI(p)], <<D(X(R3)), P(MkF("I64", <<2, 2, 2>>, LAMBDA k : I((k % 2) - (IF k % 3 = 0 THEN 2 ELSE 0))))>>))
  \o Fam({0, 1}, LAMBDA p : C1("GatherElements", [axis |-> AI(p)], <<D(X(<<3, 3>>)), D(MkF("I64", <<2, 3>>, LAMBDA k : I((k * k) % 3)))>>))
  \o Fam({1, 2, 3, 4, 5}, LAMBDA p : LET q == << <<0, <<2, 1>> >>, <<0, <<2, 2>> >>, <<0, <<2, 3>> >>, <<1, <<2, 1>> >>, <<1, <<2, 2, 1>> >> >>[p]
                                     IN C1("GatherND", [batch_dims |-> AI(q[1])], <<D(X(R3)), P(MkF("I64", q[2], LAMBDA k : I(((k * k) + k) % 2)))>>))
CScatter ==
  Fam({0, 1, -1} \X {"none", "add", "mul", "max", "min"} \X {"F32", "I64"}, LAMBDA p : C1("ScatterElements", [axis |-> AI(p[1]), reduction |-> AS(p[2])],
       <<D(V(p[3], <<3, 3>>, 1)), P(T("I64", <<2, 2>>, IF p[2] = "none" THEN <<I(0), I(2), I(2), I(0)>> ELSE <<I(0), I(-1), I(2), I(-1)>>)), D(V(p[3], <<2, 2>>, 2))>>))
  \o Fam({"none", "add", "mul", "max", "min"} \X {1, 2, 3} \X {"F32", "I64"}, LAMBDA p : LET q == << << <<2, 1>>, <<2, 3>> >>, << <<3, 2>>, <<3>> >>, << <<2, 2, 1>>, <<2, 2, 3>> >> >>[p[2]]
       IN C1("ScatterND", [reduction |-> AS(p[1])], <<D(V(p[3], <<4, 3>>, 1)), P(MkF("I64", q[1], LAMBDA k : I(IF p[2] = 2 THEN (k * 2) % 3 ELSE IF p[1] = "none" THEN (4 - k) % 4 ELSE k % 2))), D(V(p[3], q[2], 2))>>))
CExpand ==
  Fam({<<2, 3>>, <<4, 2, 3>>, <<1, 3>>, <<2, 1>>, <<1>>, <<3>>} \X {"F32", "I64", "Bool"}, LAMBDA p : C1("Expand", NoAt, <<D(V(p[2], <<2, 3>>, 1)), P(IVec(p[1]))>>))
  \o Fam({<< <<3, 1>>, <<2, 1, 4>> >>, << <<1>>, <<3>> >>, << <<>>, <<2, 2>> >>, << <<2, 1>>, <<3>> >>, << <<>>, <<3>> >>}, LAMBDA p : C1("Expand", NoAt, <<D(X(p[1])), P(IVec(p[2]))>>))
  \o Fam({<< <<2, 3>>, <<2, 1>> >>, << <<2, 3>>, <<1, 2>> >>, << <<2, 3>>, <<2, 2>> >>, << <<3>>, <<2>> >>, << <<1, 2, 2>>, <<2, 1, 3>> >>} \X {"F32", "I64"}, LAMBDA p : C1("Tile", NoAt, <<D(V(p[2], p[1][1], 1)), P(IVec(p[1][2]))>>))
CPad ==
  Fam({"constant", "edge", "reflect", "wrap"} \X {<<0, 1, 0, 1>>, <<1, 0, 2, 1>>, <<0, 0, 1, 2>>, <<1, 1, 1, 1>>, <<2, 0, 0, 2>>, <<0, 0, 0, 0>>} \X {"F32", "I64"}, LAMBDA p : C(
        "Pad", [mode |-> AS(p[1])], <<D(V(p[3], <<3, 3>>, 1)), P(IVec(p[2]))>> \o (IF p[1] = "constant" THEN <<P(Scal(p[3], I(-7)))>> ELSE <<>>), 1, 19))
  \o Fam({<<0>>, <<1>>, <<-1>>, <<-2>>} \X {1, 2}, LAMBDA p : C("Pad", NoAt, <<D(X(<<2, 3>>)), P(IVec(<<1, 2>>)), IF p[2] = 1 THEN None ELSE P(Scal("F32", Half)), P(IVec(p[1]))>>, 1, 19))
  \o Fam({1, 2}, LAMBDA p : C("Pad", NoAt, <<D(X(<<2, 2, 2>>)), P(IVec(<<0, 1, 2, 1, 0, 1>>))>> \o (IF p = 1 THEN <<>> ELSE <<P(Scal("F32", One))>>), 1, 18))
  \o Fam({1, 2, 3}, LAMBDA p : C("Pad", NoAt, <<D(X(<<4, 3>>)), P(IVec(<< <<-1, 0, 0, 0>>, <<0, 0, -1, -1>>, <<1, -1, -1, 1>> >>[p]))>>, 1, 18))
CSpace ==
  Fam({"DCR", "CRD", ""} \X {1, 2}, LAMBDA p : C1("DepthToSpace", IF p[1] = "" THEN [blocksize |-> AI(2)] ELSE [blocksize |-> AI(2), mode |-> AS(p[1])], <<D(X(IF p[2] = 1 THEN <<1, 8, 1, 2>> ELSE <<2, 4, 2, 1>>))>>))
  \o Fam({1, 2}, LAMBDA p : C1("SpaceToDepth", [blocksize |-> AI(2)], <<D(X(IF p = 1 THEN <<1, 2, 2, 4>> ELSE <<2, 1, 4, 2>>))>>))
CTri ==
  Fam({0, 1} \X {-2, -1, 0, 1, 2} \X {<<3, 3>>, <<2, 3>>, <<2, 3, 2>>}, LAMBDA p : C1("Trilu", [upper |-> AI(p[1])], <<D(X(p[3])), P(IScal(p[2]))>>))
  \o Fam({"F32", "I64"} \X {1, 2}, LAMBDA p : C1("Trilu", IF p[2] = 1 THEN NoAt ELSE [upper |-> AI(0)], <<D(V(p[1], <<3, 2>>, 1))>>))
  \o Fam({-2, -1, 0, 1, 2} \X {<<3, 3>>, <<2, 3>>, <<3, 2>>} \X {0, 1, 7}, LAMBDA p : C1("EyeLike", IF p[3] = 0 THEN [k |-> AI(p[1])] ELSE [k |-> AI(p[1]), dtype |-> AI(p[3])], <<D(X(p[2]))>>))
COneHot ==
  Fam({0, 1, -1, -2, 9} \X {"F32", "I64"}, LAMBDA p : C1("OneHot", IF p[1] = 9 THEN NoAt ELSE [axis |-> AI(p[1])], <<D(Vec("I64", <<0, 2, -1>>)), P(IScal(3)), P(T(p[2], <<2>>, <<I(2), I(5)>>))>>))
  \o Fam({0, 1, 2, -1, -3}, LAMBDA p : C1("OneHot", [axis |-> AI(p)], <<D(T("I64", <<2, 2>>, <<I(0), I(1), I(-3), I(2)>>)), P(IVec(<<3>>)), P(T("F32", <<2>>, <<Zero, One>>))>>))
CRange ==
  Fam({<<0, 5, 1>>, <<1, 6, 2>>, <<5, 0, -2>>, <<-3, 3, 3>>, <<2, 2, 1>>, <<3, 1, 1>>}, LAMBDA p : C1("Range", NoAt, <<D(IScal(p[1])), D(IScal(p[2])), P(IScal(p[3]))>>))
  \o Fam({<<0, 5, 2>>, <<1, 4, 1>>, <<5, 0, -3>>}, LAMBDA p : C1("Range", NoAt, <<D(Scal("F32", Q(p[1], 2))), D(Scal("F32", Q(p[2], 2))), P(Scal("F32", Q(p[3], 2)))>>))
  \o Fam({<<2, 3>>, <<4>>, <<1, 2, 2>>, <<0, 2>>} \X {0, 1, 2, 3}, LAMBDA p : C1("ConstantOfShape", CASE p[2] = 0 -> NoAt [] p[2] = 1 -> [value |-> AT(T("F32", <<1>>, <<Q(5, 2)>>))] [] p[2] = 2 -> [value |-> AT(T("I64", <<1>>, <<I(-3)>>))] [] OTHER -> [value |-> AT(T("Bool", <<1>>, <<One>>))],
                                                           <<P(IVec(p[1]))>>))
  \o Fam({1, 2, 3, 4, 5, 6}, LAMBDA p : C1("Constant", << [value |-> AT(X(<<2, 3>>))], [value |-> AT(IScal(7))], [value_int |-> AI(-5)], [value_ints |-> AIs(<<3, -1, 2>>)], [value_float |-> AF(Q(-7, 4))], [value_floats |-> AFs(<<Half, Zero, Q(-3, 2)>>)] >>[p], <<>>))
  \o Fam({"F32", "I64", "Bool"} \X {2, 3, 4}, LAMBDA p : C1("NonZero", NoAt, <<D(MkF(p[1], Shapes[p[2]], LAMBDA k : I((k * k) % 2)))>>))
CTopK == Fam({0, 1, -1, 9} \X {0, 1} \X {1, 2} \X {"F32", "I64"}, LAMBDA p : C("TopK", IF p[1] = 9 THEN [largest |-> AI(p[2])] ELSE [axis |-> AI(p[1]), largest |-> AI(p[2])], <<D(V(p[4], <<3, 4>>, 1)), P(IVec(<<p[3]>>))>>, 2, 18))

------------------------------------------------------------------------------
MmS == << << <<2, 3>>, <<3, 2>> >>, << <<2, 2, 3>>, <<3, 2>> >>, << <<2, 3>>, <<2, 3, 2>> >>, << <<3>>, <<3>> >>, << <<3>>, <<3, 2>> >>, << <<2, 3>>, <<3>> >>, << <<2, 2, 3>>, <<2, 3, 2>> >>, << <<1, 2, 3>>, <<2, 3, 1>> >>,
          << <<2, 1, 2, 2>>, <<3, 2, 2>> >>, << <<3>>, <<2, 3, 2>> >>, << <<2, 2, 3>>, <<3>> >> >>
CMatMul ==
  Fam((1..Len(MmS)) \X {"F32", "I64"}, LAMBDA p : C1("MatMul", NoAt, <<D(V(p[2], MmS[p[1]][1], 1)), D(V(p[2], MmS[p[1]][2], 2))>>))
  \o Fam(1..Len(MmS), LAMBDA p : C1("MatMul", NoAt, <<D(X(MmS[p][1])), W(Y(MmS[p][2]))>>))
CGemm ==
  Fam({0, 1} \X {0, 1} \X {1, 2, 3, 4, 5, 6} \X {1, 2}, LAMBDA p : LET cs == << <<>>, <<D(Y(<<4>>))>>, <<D(Y(<<2, 4>>))>>, <<D(Y(<<1>>))>>, <<D(Y(<<2, 1>>))>>, <<D(Scal("F32", Half))>> >>[p[3]]
        IN C1("Gemm", IF p[4] = 1 THEN [transA |-> AI(p[1]), transB |-> AI(p[2])] ELSE [transA |-> AI(p[1]), transB |-> AI(p[2]), alpha |-> AF(Half), beta |-> AF(I(-2))],
              <<D(X(IF p[1] = 1 THEN <<3, 2>> ELSE <<2, 3>>)), D(V("F32", IF p[2] = 1 THEN <<4, 3>> ELSE <<3, 4>>, 3))>> \o cs))
  \o Fam({0, 1} \X {1, 2, 3} \X {1, 2}, LAMBDA p : C1("Gemm", IF p[3] = 1 THEN [transB |-> AI(p[1])] ELSE [transB |-> AI(p[1]), alpha |-> AF(Q(3, 2)), beta |-> AF(Half)],
              <<D(X(<<2, 3>>)), W(V("F32", IF p[1] = 1 THEN <<4, 3>> ELSE <<3, 4>>, 3))>> \o << <<>>, <<W(Y(<<4>>))>>, <<W(Y(<<1>>))>> >>[p[2]]))
  \o Fam({1, 2, 3, 4}, LAMBDA p : C1("MatMulInteger", NoAt, <<D(V(IF p % 2 = 0 THEN "U8" ELSE "I8", <<2, 3>>, 1)), D(V(IF p % 2 = 0 THEN "U8" ELSE "I8", <<3, 2>>, 2))>>
        \o (IF p >= 3 THEN <<P(Scal(IF p % 2 = 0 THEN "U8" ELSE "I8", I(3))), P(Scal(IF p % 2 = 0 THEN "U8" ELSE "I8", I(2)))>> ELSE <<>>)))
\* Convolutions: geometry <<pads, strides, dilations>> per number of dimensions.
Cfg1 == << << <<0, 0>>, <<1>>, <<1>> >>, << <<1, 1>>, <<1>>, <<1>> >>, << <<1, 0>>, <<2>>, <<1>> >>, << <<0, 2>>, <<1>>, <<2>> >>, << <<2, 1>>, <<2>>, <<2>> >> >>
Cfg2 == << << <<0, 0, 0, 0>>, <<1, 1>>, <<1, 1>> >>, << <<1, 2, 1, 2>>, <<1, 1>>, <<1, 1>> >>, << <<0, 1, 2, 0>>, <<2, 1>>, <<1, 1>> >>, << <<1, 0, 0, 2>>, <<1, 2>>, <<1, 2>> >>, << <<2, 0, 1, 1>>, <<1, 1>>, <<2, 1>> >> >>
Cfg3 == << << <<0, 0, 0, 0, 0, 0>>, <<1, 1, 1>>, <<1, 1, 1>> >>, << <<1, 0, 1, 1, 0, 1>>, <<1, 2, 1>>, <<1, 1, 1>> >>, << <<0, 1, 0, 1, 0, 2>>, <<1, 1, 2>>, <<1, 1, 1>> >> >>
GeoAt(c) == [pads |-> AIs(c[1]), strides |-> AIs(c[2]), dilations |-> AIs(c[3])]
Wt(s, salt) == MkF("F32", s, LAMBDA k : Q(Vn(k, salt), 4))
Bi(bias, n) == IF bias = 1 THEN <<W(Y(<<n>>))>> ELSE <<>>
CConv ==
  Fam((1..5) \X {1, 2} \X {0, 1}, LAMBDA p : C1("Conv", GeoAt(Cfg1[p[1]]) @@ [group |-> AI(p[2])], <<D(X(<<2, 2, 6>>)), W(Wt(<<2, 2 \div p[2], 2>>, 3))>> \o Bi(p[3], 2)))
  \o Fam((1..5) \X {1, 2} \X {0, 1}, LAMBDA p : C1("Conv", GeoAt(Cfg2[p[1]]) @@ [group |-> AI(p[2]), kernel_shape |-> AIs(<<2, 3>>)], <<D(X(<<1, 2, 5, 6>>)), W(Wt(<<2, 2 \div p[2], 2, 3>>, 3))>> \o Bi(p[3], 2)))
  \o Fam((1..3) \X {1, 2} \X {0, 1}, LAMBDA p : C1("Conv", GeoAt(Cfg3[p[1]]) @@ [group |-> AI(p[2])], <<D(X(<<1, 2, 3, 3, 2>>)), W(Wt(<<2, 2 \div p[2], 2, 1, 2>>, 3))>> \o Bi(p[3], 2)))
  \o Fam({1, 2, 3}, LAMBDA p : C1("Conv", NoAt, <<D(X(<< <<1, 2, 4>>, <<1, 2, 3, 4>>, <<1, 1, 2, 3, 2>> >>[p])), W(Wt(<< <<3, 2, 2>>, <<3, 2, 2, 2>>, <<2, 1, 1, 2, 2>> >>[p], 3))>>))
CAutoPad ==
  Fam({"SAME_UPPER", "SAME_LOWER", "VALID", "NOTSET"} \X {5, 6, 7} \X {1, 2, 3} \X {1, 2} \X {1, 2}, LAMBDA p : C1("Conv", [auto_pad |-> AS(p[1]), strides |-> AIs(<<p[4]>>), dilations |-> AIs(<<p[5]>>), kernel_shape |-> AIs(<<p[3]>>)], <<D(X(<<1, 1, p[2]>>)), W(Wt(<<1, 1, p[3]>>, 3))>>))
  \o Fam({"SAME_UPPER", "SAME_LOWER", "VALID"} \X {<<2, 3>>, <<3, 2>>, <<1, 4>>} \X {<<1, 1>>, <<2, 1>>, <<2, 3>>} \X {1, 2}, LAMBDA p : C1("Conv", [auto_pad |-> AS(p[1]), strides |-> AIs(p[3]), dilations |-> AIs(<<p[4], 1>>)], <<D(X(<<1, 1, 5, 6>>)), W(Wt(<<1, 1>> \o p[2], 3))>>))
  \o Fam({"SAME_UPPER", "SAME_LOWER", "VALID"} \X {<<1, 1, 1>>, <<2, 1, 2>>}, LAMBDA p : C1("Conv", [auto_pad |-> AS(p[1]), strides |-> AIs(p[2])], <<D(X(<<1, 1, 3, 4, 3>>)), W(Wt(<<1, 1, 2, 2, 3>>, 3))>>))
  \o Fam({"MaxPool", "AveragePool"} \X {"SAME_UPPER", "SAME_LOWER", "VALID"} \X {4, 5} \X {2, 3} \X {1, 2, 3}, LAMBDA p : C1(p[1], [auto_pad |-> AS(p[2]), kernel_shape |-> AIs(<<p[4]>>), strides |-> AIs(<<p[5]>>)], <<D(X(<<1, 2, p[3]>>))>>))
  \o Fam({"MaxPool", "AveragePool"} \X {"SAME_UPPER", "SAME_LOWER", "VALID"} \X {<<2, 2>>, <<3, 2>>} \X {<<1, 1>>, <<2, 3>>} \X {0, 1}, LAMBDA p : C1(p[1], IF p[1] = "MaxPool" \/ p[5] = 0 THEN [auto_pad |-> AS(p[2]), kernel_shape |-> AIs(p[3]), strides |-> AIs(p[4])]
        ELSE [auto_pad |-> AS(p[2]), kernel_shape |-> AIs(p[3]), strides |-> AIs(p[4]), count_include_pad |-> AI(1)], <<D(X(<<1, 1, 5, 4>>))>>))
  \o Fam({"SAME_UPPER", "SAME_LOWER", "VALID"} \X {2, 3} \X {1, 2}, LAMBDA p : C1("ConvTranspose", [auto_pad |-> AS(p[1]), strides |-> AIs(<<p[3]>>)], <<D(X(<<1, 1, 4>>)), W(Wt(<<1, 2, p[2]>>, 3))>>))
  \o Fam({"SAME_UPPER", "SAME_LOWER", "VALID"} \X {<<2, 3>>} \X {<<2, 1>>}, LAMBDA p : C1("ConvTranspose", [auto_pad |-> AS(p[1]), strides |-> AIs(p[3])], <<D(X(<<1, 1, 3, 3>>)), W(Wt(<<1, 1>> \o p[2], 3))>>))
CConvT ==
  Fam({<< <<0, 0>>, <<1>>, <<1>>, <<0>> >>, << <<1, 1>>, <<2>>, <<1>>, <<1>> >>, << <<1, 0>>, <<2>>, <<1>>, <<0>> >>, << <<0, 0>>, <<2>>, <<2>>, <<1>> >>} \X {1, 2} \X {0, 1}, LAMBDA p :
       C1("ConvTranspose", [pads |-> AIs(p[1][1]), strides |-> AIs(p[1][2]), dilations |-> AIs(p[1][3]), output_padding |-> AIs(p[1][4]), group |-> AI(p[2])], <<D(X(<<2, 2, 4>>)), W(Wt(<<2, 2, 3>>, 3))>> \o Bi(p[3], 2 * p[2])))
  \o Fam({<< <<0, 0, 0, 0>>, <<1, 1>>, <<1, 1>>, <<0, 0>> >>, << <<1, 0, 1, 0>>, <<2, 1>>, <<1, 1>>, <<1, 0>> >>, << <<0, 1, 1, 0>>, <<1, 2>>, <<1, 1>>, <<0, 1>> >>, << <<0, 0, 0, 0>>, <<2, 3>>, <<1, 2>>, <<0, 0>> >>} \X {1, 2} \X {0, 1}, LAMBDA p :
       C1("ConvTranspose", [pads |-> AIs(p[1][1]), strides |-> AIs(p[1][2]), dilations |-> AIs(p[1][3]), output_padding |-> AIs(p[1][4]), group |-> AI(p[2]), kernel_shape |-> AIs(<<2, 3>>)], <<D(X(<<1, 2, 3, 3>>)), W(Wt(<<2, 1, 2, 3>>, 3))>> \o Bi(p[3], p[2])))
  \o Fam({1, 2}, LAMBDA p : C1("ConvTranspose", [strides |-> AIs(<<1, 2, 1>>), group |-> AI(p)], <<D(X(<<1, 2, 2, 2, 2>>)), W(Wt(<<2, 1, 1, 2, 2>>, 3))>>))
  \o Fam({6, 7, 8}, LAMBDA p : C1("ConvTranspose", [strides |-> AIs(<<2>>), output_shape |-> AIs(<<p>>)], <<D(X(<<1, 1, 3>>)), W(Wt(<<1, 1, 3>>, 3))>>))
CPool ==
  Fam({"MaxPool", "AveragePool"} \X (1..5) \X {0, 1} \X {0, 1}, LAMBDA p : LET c == Cfg1[p[2]] IN C(p[1], [kernel_shape |-> AIs(<<3>>), pads |-> AIs(c[1]), strides |-> AIs(c[2]), ceil_mode |-> AI(p[3])]
        @@ (IF p[1] = "MaxPool" THEN (IF p[4] = 1 THEN [dilations |-> AIs(c[3])] ELSE NoAt) ELSE [count_include_pad |-> AI(p[4])]), <<D(X(<<1, 2, 6>>))>>, 1, 19))
  \o Fam({"MaxPool", "AveragePool"} \X (1..5) \X {0, 1} \X {0, 1}, LAMBDA p : LET c == Cfg2[p[2]] IN C(p[1], [kernel_shape |-> AIs(<<3, 3>>), pads |-> AIs(c[1]), strides |-> AIs(c[2]), ceil_mode |-> AI(p[3])]
        @@ (IF p[1] = "MaxPool" THEN (IF p[4] = 1 THEN [dilations |-> AIs(c[3])] ELSE NoAt) ELSE [count_include_pad |-> AI(p[4])]), <<D(X(<<1, 1, 6, 7>>))>>, 1, 19))
  \o Fam({"MaxPool", "AveragePool"} \X {1, 2}, LAMBDA p : C1(p[1], [kernel_shape |-> AIs(IF p[2] = 1 THEN <<2>> ELSE <<2, 3>>)], <<D(X(IF p[2] = 1 THEN <<1, 2, 4>> ELSE <<1, 2, 3, 4>>))>>))
  \o Fam({2, 3} \X {0, 1}, LAMBDA p : C("AveragePool", [kernel_shape |-> AIs(<<2>>), dilations |-> AIs(<<p[1]>>), ceil_mode |-> AI(p[2])], <<D(X(<<1, 1, 7>>))>>, 1, 19))
  \o Fam({"GlobalAveragePool", "GlobalMaxPool"} \X {<<2, 2, 3>>, <<1, 2, 2, 3>>}, LAMBDA p : C1(p[1], NoAt, <<D(X(p[2]))>>))
CNorm ==
  Fam({<<2, 3>>, <<2, 2, 3>>, <<1, 2, 2, 2>>} \X {1, 2}, LAMBDA p : LET c == <<p[1][2]>> IN C1("BatchNormalization", IF p[2] = 1 THEN NoAt ELSE [epsilon |-> AF(Q(1, 8))], <<D(X(p[1])), W(Y(c)), W(V("F32", c, 3)), W(V("F32", c, 4)), W(Pos(c, 5))>>))
  \o Fam({-1, 9} \X {<<2, 3>>, <<2, 2, 3>>} \X {1, 2} \X {0, 1}, LAMBDA p : LET n == <<p[2][Len(p[2])]>> IN C1("LayerNormalization", (IF p[1] = 9 THEN NoAt ELSE [axis |-> AI(p[1])]) @@ (IF p[3] = 1 THEN NoAt ELSE [epsilon |-> AF(Q(1, 8))]), <<D(X(p[2])), W(Y(n))>> \o (IF p[4] = 1 THEN <<W(V("F32", n, 3))>> ELSE <<>>)))
  \o Fam({1, -2}, LAMBDA p : C1("LayerNormalization", [axis |-> AI(p)], <<D(X(<<2, 2, 3>>)), W(Y(<<2, 3>>)), W(V("F32", <<2, 3>>, 3))>>))
  \o Fam({<<2, 2, 3>>, <<1, 2, 2, 3>>, <<1, 2, 2, 1, 2>>} \X {1, 2}, LAMBDA p : LET c == <<p[1][2]>> IN C1("InstanceNormalization", IF p[2] = 1 THEN NoAt ELSE [epsilon |-> AF(Q(1, 8))], <<D(X(p[1])), W(Y(c)), W(V("F32", c, 3))>>))
  \o Fam({<<1, 4, 3>>, <<2, 4, 1, 2>>} \X {1, 2, 4} \X {1, 2} \X {18, 21}, LAMBDA p : LET c == <<IF p[4] = 18 THEN p[2] ELSE 4>> IN C("GroupNormalization", [num_groups |-> AI(p[2])] @@ (IF p[3] = 1 THEN NoAt ELSE [epsilon |-> AF(Q(1, 8))]), <<D(X(p[1])), W(Y(c)), W(V("F32", c, 3))>>, 1, p[4]))
  \o Fam({1, 2}, LAMBDA p : C1("Dropout", NoAt, <<D(X(<<2, 3>>))>> \o (IF p = 2 THEN <<P(Scal("F32", Half))>> ELSE <<>>)))
Sm(s, salt) == MkF("F32", s, LAMBDA k : Q(Vn(k, salt), 16))
CRnn ==
  Fam({"LSTM", "GRU", "RNN"} \X {"forward", "reverse", "bidirectional"} \X {0, 1, 2, 3} \X {0, 1} \X {1, 2}, LAMBDA p :
       LET G == CASE p[1] = "LSTM" -> 4 [] p[1] = "GRU" -> 3 [] OTHER -> 1
           Dn == IF p[2] = "bidirectional" THEN 2 ELSE 1
           H == p[5]
           st == Sm(IF p[4] = 1 THEN <<2, Dn, H>> ELSE <<Dn, 2, H>>, 5)
       IN C(p[1], [hidden_size |-> AI(H), direction |-> AS(p[2])] @@ (IF p[4] = 1 THEN [layout |-> AI(1)] ELSE NoAt) @@ (IF p[1] = "GRU" /\ p[3] \in {1, 3} THEN [linear_before_reset |-> AI(1)] ELSE NoAt),
            <<D(X(IF p[4] = 1 THEN <<2, 2, 2>> ELSE <<2, 2, 2>>)), W(Sm(<<Dn, G * H, 2>>, 2)), W(Sm(<<Dn, G * H, H>>, 3))>>
            \o (IF p[3] >= 1 THEN <<W(Sm(<<Dn, 2 * G * H>>, 4))>> ELSE <<>>) \o (IF p[3] = 3 THEN <<None, D(st)>> \o (IF p[1] = "LSTM" THEN <<D([st EXCEPT !.v = [k \in DOMAIN st.v |-> Add(st.v[k], Q(1, 4))]])>> ELSE <<>>) ELSE <<>>),
            IF p[1] = "LSTM" THEN 3 ELSE 2, 18))
  \o Fam({<<"RNN", <<"Relu">> >>, <<"LSTM", <<"Sigmoid", "Relu", "Tanh">> >>, <<"GRU", <<"Sigmoid", "Relu">> >>, <<"RNN", <<"Sigmoid">> >>}, LAMBDA p :
       LET G == CASE p[1] = "LSTM" -> 4 [] p[1] = "GRU" -> 3 [] OTHER -> 1
       IN C(p[1], [hidden_size |-> AI(2), activations |-> ASs(p[2])], <<D(X(<<2, 1, 2>>)), W(Sm(<<1, G * 2, 2>>, 2)), W(Sm(<<1, G * 2, 2>>, 3)), W(Sm(<<1, 4 * G>>, 4))>>, IF p[1] = "LSTM" THEN 3 ELSE 2, 18))
CResize ==
  Fam({"nearest", "linear"} \X {"half_pixel", "asymmetric", "align_corners", "pytorch_half_pixel"} \X {"floor", "ceil", "round_prefer_floor", "round_prefer_ceil"} \X {1, 2, 3, 4}, LAMBDA p :
       LET sc == p[4] <= 2
           f == IF p[4] % 2 = 1 THEN <<4, 6>> ELSE <<3, 4>>
           x == X(<<1, 1, 2, 3>>)
       IN C1("Resize", [mode |-> AS(p[1]), coordinate_transformation_mode |-> AS(p[2]), nearest_mode |-> AS(p[3])],
             IF sc THEN <<D(x), None, P(T("F32", <<4>>, <<One, One, Q(f[1], 2), Q(f[2], 3)>>))>> ELSE <<D(x), None, None, P(IVec(<<1, 1, f[1], f[2]>>))>>))
  \o Fam({"half_pixel", "asymmetric", "align_corners"} \X {3, 5, 6}, LAMBDA p : C1("Resize", [mode |-> AS("linear"), coordinate_transformation_mode |-> AS(p[1])], <<D(X(<<1, 2, 3>>)), None, None, P(IVec(<<1, 2, p[2]>>))>>))
CMisc ==
  Fam({1, 2, 3, 4}, LAMBDA p : LET q == << << <<2, 2>>, <<1, 1>>, <<0, 0, 0, 0>>, <<1, 1>> >>, << <<2, 2>>, <<2, 1>>, <<0, 0, 0, 0>>, <<1, 1>> >>, << <<2, 1>>, <<1, 1>>, <<1, 0, 0, 1>>, <<1, 1>> >>, << <<2, 2>>, <<1, 1>>, <<0, 0, 0, 0>>, <<2, 1>> >> >>[p]
                                   o == [i \in 1..2 |-> OutDim(<<3, 4>>[i], q[3][i], q[3][i + 2], q[1][i], q[2][i], q[4][i], 0)]
                               IN C1("Col2Im", [strides |-> AIs(q[2]), pads |-> AIs(q[3]), dilations |-> AIs(q[4])], <<D(X(<<1, 2 * Size(q[1]), Size(o)>>)), P(IVec(<<3, 4>>)), P(IVec(q[1]))>>))
  \o Fam({0, 1, 2, 3, 4, 5} \X {3, 4}, LAMBDA p :
       LET k == p[1]
           q == IF p[2] = 4 THEN Sm(<<1, 2, 2, 2>>, 1) ELSE Sm(<<1, 2, 4>>, 1)
           \* where a causal mask of a non-square matrix starts is up to burn
           m == IF k = 1 THEN 2 ELSE 3
           kv == IF p[2] = 4 THEN <<1, 2, m, 2>> ELSE <<1, m, 4>>
       IN C("Attention", (IF p[2] = 3 THEN [q_num_heads |-> AI(2), kv_num_heads |-> AI(2)] ELSE NoAt) @@ (CASE k = 1 -> [is_causal |-> AI(1)] [] k = 2 -> [scale |-> AF(Half)] [] k = 5 -> [softcap |-> AF(I(2))] [] OTHER -> NoAt),
            <<D(q), D(Sm(kv, 2)), D(Sm(kv, 3))>> \o (CASE k = 3 -> <<D(Sm(<<2, 3>>, 4))>> [] k = 4 -> <<D(T("Bool", <<2, 3>>, <<One, Zero, One, One, One, Zero>>))>> [] OTHER -> <<>>), 1, 23))

------------------------------------------------------------------------------
Groups == <<"unary", "binary", "compare", "arith2", "variadic", "where", "reduce", "shape", "move", "index", "pad", "matmul", "conv", "autopad", "pool", "norm", "rnn", "misc">>
Group(g) == CASE g = "unary" -> CUnary \o CUnaryAttr \o CUnaryOther
              [] g = "binary" -> CBinary [] g = "compare" -> CCompare [] g = "arith2" -> CArith2 [] g = "variadic" -> CVariadic
              [] g = "where" -> CWhere \o CClip \o CCast
              [] g = "reduce" -> CReduce \o CArg \o CCum \o CSoft
              [] g = "shape" -> CShape \o CReshape \o CSqueeze \o CTranspose
              [] g = "move" -> CConcat \o CSplit \o CSlice \o CExpand
              [] g = "index" -> CGather \o CScatter \o COneHot \o CTopK
              [] g = "pad" -> CPad \o CSpace \o CTri \o CRange
              [] g = "matmul" -> CMatMul \o CGemm
              [] g = "conv" -> CConv \o CConvT
              [] g = "autopad" -> CAutoPad
              [] g = "pool" -> CPool
              [] g = "norm" -> CNorm
              [] g = "rnn" -> CRnn
              [] g = "misc" -> CResize \o CMisc
Wanted == SelectSeq(Groups, LAMBDA g : g \in Families)
All == FlattenS([i \in 1..Len(Wanted) |-> LET c == Group(Wanted[i]) IN [k \in 1..Len(c) |-> [g |-> Wanted[i], k |-> k, c |-> c[k]]]])
AllCases == TLCEval(All)

------------------------------------------------------------------------------
\* How the operands are given.
Modes == <<"default", "const", "run", "first", "shape", "dyn">>
Count(c, r) == Cardinality({k \in 1..Len(c.ops) : c.ops[k].role = r})
IsShapeable(x) == x.t = "I64" /\ Rank(x) = 1 /\ Len(x.v) > 0 /\ \A k \in DOMAIN x.v : x.v[k].n > 0 /\ x.v[k].n < 10
Applies(c, m) ==
  CASE m = "default" -> TRUE
    [] m = "const" -> Count(c, "p") + Count(c, "w") > 0 \/ Count(c, "d") > 1
    [] m = "run" -> Count(c, "p") + Count(c, "w") > 0
    [] m = "first" -> Count(c, "d") > 1
    [] m = "shape" -> \E k \in 1..Len(c.ops) : c.ops[k].role = "p" /\ IsShapeable(c.ops[k].x)
    [] m = "dyn" -> \E k \in 1..Len(c.ops) : c.ops[k].role = "d" /\ Rank(c.ops[k].x) > 0
Form(c, m, k) ==
  LET o == c.ops[k]
      ds == {j \in 1..Len(c.ops) : c.ops[j].role = "d"}
      last == \A j \in ds : j <= k
      first == \A j \in ds : j >= k
  IN CASE o.role = "a" -> "none"
       [] o.role = "d" -> IF m = "const" /\ last /\ Cardinality(ds) > 1 THEN "init" ELSE IF m = "first" /\ first THEN "const" ELSE "in"
       [] o.role = "p" -> IF m = "const" THEN "const" ELSE IF m = "run" THEN "in" ELSE IF m = "shape" /\ IsShapeable(o.x) THEN "shape" ELSE "init"
       [] o.role = "w" -> IF m = "const" THEN "const" ELSE IF m = "run" THEN "in" ELSE "init"
Name(k) == "x" \o ToString(k)
Nd(op, at, in, out) == [op |-> op, at |-> at, in |-> in, out |-> out]
Graph(c, m) ==
  LET form == [k \in 1..Len(c.ops) |-> Form(c, m, k)]
      pre == FlattenS([k \in 1..Len(c.ops) |-> IF form[k] = "const" THEN <<Nd("Constant", [value |-> AT(c.ops[k].x)], <<>>, <<Name(k)>>)>>
                                               ELSE IF form[k] = "shape" THEN <<Nd("Shape", NoAt, <<"s" \o ToString(k)>>, <<Name(k)>>)>> ELSE <<>>])
      outs == [k \in 1..c.nout |-> "y" \o ToString(k)]
  IN [nodes |-> pre \o <<Nd(c.op, c.at, [k \in 1..Len(c.ops) |-> IF form[k] = "none" THEN "" ELSE Name(k)], outs)>>,
      inits |-> FlattenS([k \in 1..Len(c.ops) |-> IF form[k] = "init" THEN <<[n |-> Name(k), x |-> c.ops[k].x]>> ELSE <<>>]),
      ins |-> FlattenS([k \in 1..Len(c.ops) |-> IF form[k] = "in" THEN <<[n |-> Name(k), x |-> c.ops[k].x, dyn |-> m = "dyn"]>>
                                                ELSE IF form[k] = "shape" THEN <<[n |-> "s" \o ToString(k), x |-> MkF("F32", Ints(c.ops[k].x), LAMBDA j : Zero), dyn |-> FALSE]>> ELSE <<>>]),
      outs |-> outs]
Record(e, m) ==
  LET g == TLCEval(Graph(e.c, m))
      env == FoldS(LAMBDA v, i : (i.n :> i.x) @@ v, << >>, g.ins)
      ys == RunGraph(g, env)
  IN [id |-> e.g \o "/" \o ToString(e.k) \o "/" \o m, op |-> e.c.op, mode |-> m, opset |-> e.c.opset, nodes |-> g.nodes, inits |-> g.inits, ins |-> g.ins,
      outs |-> [k \in 1..Len(ys) |-> [n |-> g.outs[k], x |-> ys[k]]]]

VARIABLES i, ph
Init == i \in {k \in 1..Len(AllCases) : k % Of = Share} /\ ph = 0
Next == ph = 0 /\ ph' = 1 /\ i' = i
\* The modes of case i that are emitted: the default one and one other, or all of them.
Chosen(k) == LET ms == SelectSeq(Modes, LAMBDA m : Applies(AllCases[k].c, m))
             IN IF AllModes \/ Len(ms) = 1 THEN ms ELSE <<"default", ms[2 + (k % (Len(ms) - 1))]>>
Emit == ph = 1 => LET ms == Chosen(i) IN \A j \in 1..Len(ms) : PrintT("@@" \o ToJson(Record(AllCases[i], ms[j])))
==============================================================================
