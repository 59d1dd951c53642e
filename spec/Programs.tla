------------------------------ MODULE Programs ------------------------------
(* Models built one node at a time. A state is a program under construction with *)
(* the value of everything in it; a transition appends one node whose operands   *)
(* are values there are. Each state is a complete model when some of its values  *)
(* are declared as outputs. The themes are alphabets around what the importer    *)
(* rewrites: identity elements, repeated and idempotent nodes, constants, shapes,*)
(* multiple use, several outputs, dead code.                                     *)
EXTENDS Onnx, Json

CONSTANTS Theme, Depth, MinDepth,
          First,      \* how many successors the initial state has at most
          Breadth     \* and every other state

Vn(k, salt) == (((k * 7) + (salt * 5)) % 31) - 15
Dat(t, s, salt) == MkF(t, s, LAMBDA k : CASE t = "F32" -> Q(Vn(k, salt), 4) [] t = "Bool" -> B(((k * k) + k + salt) % 3 > 0) [] OTHER -> I(Vn(k, salt)))
Nd(op, at, in, out) == [op |-> op, at |-> at, in |-> in, out |-> out]
In1(n, x) == [n |-> n, x |-> x, dyn |-> FALSE]
Dyn(n, x) == [n |-> n, x |-> x, dyn |-> TRUE]
Ini(n, x) == [n |-> n, x |-> x]
Fill(t, s, e) == MkF(t, s, LAMBDA k : e)

Z == Ini("zero", Scal("F32", Zero))
U == Ini("one", Scal("F32", One))
\* What a theme starts from: inputs, initializers, and its operators.
Start ==
  CASE Theme = "ident" -> [ins |-> <<In1("a", Dat("F32", <<2, 3>>, 1)), In1("b", Dat("F32", <<3>>, 2))>>,
                           inits |-> <<Z, U, Ini("zeros", Fill("F32", <<2, 3>>, Zero)), Ini("ones", Fill("F32", <<3>>, One)), Ini("big0", Fill("F32", <<1, 2, 3>>, Zero)),
                                       Ini("col1", Fill("F32", <<2, 1>>, One)), Ini("two", Scal("F32", I(2))), Ini("wide0", Fill("F32", <<2, 2, 3>>, Zero))>>,
                           ops |-> {"Add", "Sub", "Mul", "Div", "Pow", "Neg", "Identity"}]
    [] Theme = "identint" -> [ins |-> <<In1("a", Dat("I64", <<2, 3>>, 1)), In1("n", IScal(5))>>,
                           inits |-> <<Ini("zero", IScal(0)), Ini("one", IScal(1)), Ini("zeros", Fill("I64", <<3>>, Zero)), Ini("ones", Fill("I64", <<1, 2, 1>>, One)), Ini("two", IScal(2))>>,
                           ops |-> {"Add", "Sub", "Mul", "Div", "Identity"}]
    [] Theme = "idem" -> [ins |-> <<In1("a", Dat("F32", <<2, 3>>, 1))>>, inits |-> <<>>,
                          ops |-> {"Relu", "Ceil", "Floor", "Round", "Abs", "Sign", "Identity", "Neg", "Sigmoid"}]
    [] Theme = "cse" -> [ins |-> <<In1("a", Dat("F32", <<2, 2>>, 1)), In1("b", Dat("F32", <<2, 2>>, 2))>>, inits |-> <<Ini("w", Dat("F32", <<2, 2>>, 4))>>,
                         ops |-> {"Add", "Sub", "Softmax", "Transpose", "Split", "ReduceSum", "Cast", "Greater", "Where", "Relu", "Concat"}]
    [] Theme = "fold" -> [ins |-> <<In1("a", Dat("F32", <<2, 3>>, 1))>>,
                          inits |-> <<Ini("c1", IVec(<<2, 3>>)), Ini("c2", IVec(<<3>>)), Ini("c3", IScal(-2)), Ini("c4", Dat("F32", <<2, 3>>, 3)), Ini("c5", Scal("F32", Q(9, 4))),
                                      Ini("c6", T("I64", <<2, 2>>, <<I(1), I(-7), I(4), I(2)>>)), Ini("c7", T("F32", <<3>>, <<I(4), Q(1, 4), I(9)>>))>>,
                          ops |-> {"Add", "Sub", "Mul", "DivAny", "Sqrt", "Cast", "Concat", "Unsqueeze", "Gather", "Neg", "Slice1", "Squeeze", "Abs", "ReshapeTo", "Equal", "Transpose", "Min", "Max", "Mod", "Shape", "Floor"}]
    [] Theme \in {"shape", "dynshape"} -> [ins |-> <<IF Theme = "shape" THEN In1("x", Dat("F32", <<2, 3, 4>>, 1)) ELSE Dyn("x", Dat("F32", <<2, 3, 4>>, 1))>>,
                          inits |-> <<Ini("i0", IScal(0)), Ini("i1", IScal(-1)), Ini("i2", IVec(<<1>>)), Ini("m1", IVec(<<-1>>)), Ini("three", IScal(3))>>,
                          ops |-> {"Shape", "ShapeSE", "GatherC", "Slice1", "UnsqueezeC", "ConcatI", "ReshapeTo", "Mul", "Add", "DivAny", "CastI", "SqueezeC", "Equal", "ReduceProd", "ExpandTo", "Relu", "Transpose"}]
    [] Theme = "linear" -> [ins |-> <<In1("a", Dat("F32", <<2, 3>>, 1)), In1("b", Dat("F32", <<4, 2, 3>>, 2))>>,
                            inits |-> <<Ini("w", Dat("F32", <<3, 2>>, 3)), Ini("v", Dat("F32", <<2, 3>>, 4)), Ini("b2", Dat("F32", <<2>>, 5)), Ini("b3", Dat("F32", <<3>>, 6)),
                                        Ini("b12", Dat("F32", <<1, 2>>, 7)), Ini("b22", Dat("F32", <<2, 2>>, 8)), Ini("b1", Dat("F32", <<1>>, 9)), Ini("bs", Scal("F32", Q(3, 4))),
                                        Ini("b422", Dat("F32", <<4, 2, 2>>, 1))>>,
                            ops |-> {"MatMul", "AddOne", "Relu", "Gemm"}]
    [] Theme = "multi" -> [ins |-> <<In1("a", Dat("F32", <<2, 4>>, 1)), Dyn("b", Dat("F32", <<2, 4>>, 2))>>, inits |-> <<Ini("s", IVec(<<1, 3>>)), Ini("k", IVec(<<2>>))>>,
                           ops |-> {"SplitC", "TopK", "Concat", "Add", "Relu", "Transpose", "Softmax", "ReduceSum", "Unsqueeze", "Flatten", "Slice1", "Dropout", "ArgMax", "Gather"}]
    [] Theme = "mixed" -> [ins |-> <<In1("a", Dat("F32", <<2, 3>>, 1)), Dyn("b", Dat("F32", <<3>>, 2)), In1("m", Dat("I64", <<2, 3>>, 3)), In1("p", Dat("Bool", <<2, 3>>, 1)), In1("n", IScal(2))>>,
                           inits |-> <<Z, U, Ini("w", Dat("F32", <<3, 2>>, 3)), Ini("bias", Dat("F32", <<2>>, 5)), Ini("i1", IScal(1)), Ini("m1", IVec(<<-1>>)), Ini("iv", IVec(<<2, 1>>))>>,
                           ops |-> {"Add", "Sub", "Mul", "Div", "Relu", "Abs", "Neg", "Floor", "Identity", "MatMul", "Transpose", "Softmax", "ReduceSum", "ReduceMax", "Concat", "Unsqueeze", "Flatten", "Shape",
                                    "GatherC", "ReshapeTo", "Greater", "Equal", "Where", "Not", "And", "Cast", "Slice1", "SplitC", "ArgMax", "Sqrt", "Sigmoid", "Max", "Gather", "Gemm", "ExpandTo", "CumSum"}]

------------------------------------------------------------------------------
VARIABLES nodes, env, order, xi, hsh
\* nodes: the nodes so far; env: the value of every name; order: the names that hold computed values or inputs, in order;
\* xi: initializers nodes brought along; hsh: a number for the path that led here.
Names0 == [k \in 1..Len(Start.ins) |-> Start.ins[k].n]
Inits0 == {Start.inits[k].n : k \in 1..Len(Start.inits)}
Env0 == FoldS(LAMBDA e, q : (q.n :> q.x) @@ e, << >>, Start.ins \o Start.inits)
Init == nodes = <<>> /\ env = Env0 /\ order = Names0 /\ xi = <<>> /\ hsh = 7

F32s == {n \in DOMAIN env : env[n].t = "F32"}
Comp == {order[k] : k \in 1..Len(order)}
Ten(S) == {n \in S : Rank(env[n]) > 0}
Vals == DOMAIN env \ {xi[k].n : k \in 1..Len(xi)}
TV(t) == {n \in Vals : env[n].t = t}
\* Operands of which one is computed, unless the theme is about constants.
Mix(a, b) == Theme = "fold" \/ a \in Comp \/ b \in Comp
One1(a) == Theme = "fold" \/ a \in Comp
Small(x) == \A k \in DOMAIN x.v : Fits(x.v[k]) /\ x.v[k].n < 2000 /\ x.v[k].n > -2000
Pow2(e) == e.k = "q" /\ Abs0(e.n) \in {1, 2, 4} /\ e.d \in {1, 2, 4}
P0(op, at, in) == [op |-> op, at |-> at, in |-> in, x |-> <<>>, no |-> 1]
PX(op, at, in, x) == [op |-> op, at |-> at, in |-> in, x |-> x, no |-> 1]
N1 == <<>>
\* Binary arithmetic: never of two scalars of floats (those are checked one by one), and broadcastable.
BinOk(a, b) == env[a].t = env[b].t /\ BOk(env[a].s, env[b].s) /\ Mix(a, b)
Disc == {"Ceil", "Floor", "Round", "Sign"}
Dim(n, k) == env[n].s[k]
CandOf(op) ==
  CASE op \in {"Relu", "Sigmoid"} -> {P0(op, N1, <<a>>) : a \in {a \in Ten(TV("F32")) : One1(a) /\ Exact(env[a])}}
    [] op \in Disc \cup {"Sqrt"} -> {P0(op, N1, <<a>>) : a \in {a \in Ten(TV("F32")) : One1(a) /\ Exact(env[a]) /\ (op = "Sqrt" => \A k \in DOMAIN env[a].v : env[a].v[k].n >= 0)}}
    [] op \in {"Abs", "Neg"} -> {P0(op, N1, <<a>>) : a \in {a \in TV("F32") \cup TV("I64") : One1(a)}}
    [] op = "Identity" -> {P0(op, N1, <<a>>) : a \in {a \in Vals : One1(a)}}
    [] op = "Dropout" -> {PX(op, N1, <<a, "#1">>, <<Scal("F32", Q(1, 2))>>) : a \in {a \in Ten(TV("F32")) : One1(a)}}
    [] op = "Not" -> {P0(op, N1, <<a>>) : a \in {a \in Ten(TV("Bool")) : One1(a)}}
    [] op \in {"Add", "Sub", "Mul"} -> UNION {{P0(op, N1, <<a, b>>) : b \in {b \in TV(t) : BinOk(a, b) /\ Small(env[a]) /\ Small(env[b])}} : <<a, t>> \in UNION {{<<a, t>> : a \in TV(t)} : t \in {"F32", "I64"}}}
    [] op = "AddOne" -> UNION {{P0("Add", N1, <<a, b>>) : b \in {b \in TV("F32") : BinOk(a, b) /\ (a \in Comp \/ b \in Comp)}} : a \in TV("F32")}
    [] op = "Div" -> UNION {{P0(op, N1, <<a, b>>) : b \in {b \in TV(env[a].t) : BinOk(a, b) /\ (Rank(env[a]) > 0 \/ Rank(env[b]) = 0) /\ \A k \in DOMAIN env[b].v : Pow2(env[b].v[k])}} : a \in TV("F32") \cup TV("I64")}
    [] op = "DivAny" -> UNION {{P0("Div", N1, <<a, b>>) : b \in {b \in TV(env[a].t) : BinOk(a, b) /\ (Rank(env[a]) > 0 \/ Rank(env[b]) = 0) /\ \A k \in DOMAIN env[b].v : Fits(env[b].v[k]) /\ env[b].v[k].n # 0}} : a \in TV("F32") \cup TV("I64")}
    [] op = "Mod" -> UNION {{P0("Mod", [fmod |-> AI(0)], <<a, b>>) : b \in {b \in Ten(TV("I64")) : BinOk(a, b) /\ \A k \in DOMAIN env[b].v : env[b].v[k].n # 0}} : a \in Ten(TV("I64"))}
    [] op = "Pow" -> {P0(op, N1, <<a, b>>) : a \in {a \in Ten(TV("F32")) : a \in Comp /\ Exact(env[a])}, b \in {"one", "two", "ones"} \cap Vals}
    [] op \in {"Min", "Max"} -> UNION {{P0(op, N1, <<a, b>>) : b \in {b \in Ten(TV("F32")) : BinOk(a, b) /\ Exact(env[a]) /\ Exact(env[b])}} : a \in Ten(TV("F32"))}
    [] op \in {"Greater", "Equal"} -> UNION {{P0(op, N1, <<a, b>>) : b \in {b \in Ten(TV(env[a].t)) : BinOk(a, b) /\ Exact(env[a]) /\ Exact(env[b])}} : a \in Ten(TV("F32") \cup TV("I64"))}
    [] op = "And" -> UNION {{P0(op, N1, <<a, b>>) : b \in {b \in Ten(TV("Bool")) : BinOk(a, b)}} : a \in Ten(TV("Bool"))}
    [] op = "Where" -> UNION {UNION {{P0(op, N1, <<c, a, b>>) : b \in {b \in Ten(TV("F32")) : BinOk(a, b) /\ BOk(env[c].s, BShape(env[a].s, env[b].s))}} : a \in Ten(TV("F32"))} : c \in Ten(TV("Bool"))}
    [] op = "Softmax" -> {P0(op, [axis |-> AI(k)], <<a>>) : k \in {0, -1}, a \in {a \in Ten(TV("F32")) : a \in Comp /\ Small(env[a])}}
    [] op = "Transpose" -> {P0(op, IF Rank(env[a]) = 3 THEN [perm |-> AIs(<<0, 2, 1>>)] ELSE [perm |-> AIs(<<1, 0>>)], <<a>>) : a \in {a \in TV("F32") \cup TV("I64") : One1(a) /\ Rank(env[a]) \in {2, 3}}}
                           \cup {P0(op, [perm |-> AIs(<<0, 1>>)], <<a>>) : a \in {a \in TV("F32") : One1(a) /\ Rank(env[a]) = 2}}
    [] op = "ReduceSum" -> {PX(op, [keepdims |-> AI(kd)], <<a, "#1">>, <<IVec(<<ax>>)>>) : kd \in {0, 1}, ax \in {0, -1}, a \in {a \in TV("F32") : a \in Comp /\ Rank(env[a]) \in {2, 3}}}
    [] op = "ReduceMax" -> {PX(op, [keepdims |-> AI(kd)], <<a, "#1">>, <<IVec(<<ax>>)>>) : kd \in {0, 1}, ax \in {0, -1}, a \in {a \in TV("F32") : a \in Comp /\ Rank(env[a]) \in {2, 3} /\ Exact(env[a])}}
    [] op = "ReduceProd" -> {PX(op, [keepdims |-> AI(1)], <<a, "#1">>, <<IVec(<<0>>)>>) : a \in {a \in TV("I64") : One1(a) /\ Rank(env[a]) = 1}}
    [] op = "ArgMax" -> {P0(op, [axis |-> AI(k), keepdims |-> AI(1)], <<a>>) : k \in {0, -1}, a \in {a \in Ten(TV("F32")) : a \in Comp /\ Exact(env[a])}}
    [] op = "CumSum" -> {PX(op, N1, <<a, "#1">>, <<IScal(0)>>) : a \in {a \in Ten(TV("F32")) : a \in Comp}}
    [] op = "Cast" -> {P0(op, [to |-> AI(k)], <<a>>) : k \in {1, 6, 7, 9}, a \in {a \in (IF Theme = "fold" THEN Vals ELSE Ten(Vals)) : One1(a) /\ Small(env[a])}}
    [] op = "CastI" -> {P0("Cast", [to |-> AI(k)], <<a>>) : k \in {1, 6, 7}, a \in {a \in Ten(TV("I64")) : One1(a)}}
    [] op = "Concat" -> UNION {UNION {{P0(op, [axis |-> AI(k)], <<a, b>>) : k \in {k \in {0, -1} : \A j \in 1..Rank(env[a]) : j # Axis(k, Rank(env[a])) => Dim(a, j) = Dim(b, j)}} :
                            b \in {b \in TV(env[a].t) : Mix(a, b) /\ Rank(env[b]) = Rank(env[a])}} : a \in Ten(TV("F32") \cup TV("I64"))}
    [] op = "ConcatI" -> UNION {{P0("Concat", [axis |-> AI(0)], <<a, b>>) : b \in {b \in TV("I64") : (a \in Comp \/ b \in Comp) /\ Rank(env[b]) = 1}} : a \in {a \in TV("I64") : Rank(env[a]) = 1}}
    [] op = "Unsqueeze" -> {PX(op, N1, <<a, "#1">>, <<IVec(<<k>>)>>) : k \in {0, -1}, a \in {a \in TV("F32") \cup TV("I64") : One1(a) /\ Rank(env[a]) < 3}}
    [] op = "UnsqueezeC" -> {PX("Unsqueeze", N1, <<a, "#1">>, <<IVec(<<0>>)>>) : a \in {a \in TV("I64") : a \in Comp /\ Rank(env[a]) = 0}}
    [] op = "Squeeze" -> {PX(op, N1, <<a, "#1">>, <<IVec(<<0>>)>>) : a \in {a \in Ten(TV("F32") \cup TV("I64")) : One1(a) /\ Dim(a, 1) = 1}}
    [] op = "SqueezeC" -> {PX("Squeeze", N1, <<a, "#1">>, <<IVec(<<0>>)>>) : a \in {a \in TV("I64") : a \in Comp /\ env[a].s = <<1>>}}
    [] op = "Gather" -> UNION {{PX(op, [axis |-> AI(0)], <<a, "#1">>, <<i>>) : a \in {a \in Ten(TV("F32") \cup TV("I64")) : One1(a) /\ Dim(a, 1) > 1 /\ ~(Rank(env[a]) = 1 /\ i.s = <<>> /\ i.v[1].n < 0)}} :
                            i \in {IScal(0), IScal(-1), IVec(<<1, 0>>)}}
    [] op = "GatherC" -> {PX(op0, [axis |-> AI(0)], <<a, "#1">>, <<i>>) : op0 \in {"Gather"}, i \in {IScal(0), IScal(1), IScal(-1), IVec(<<1>>), IVec(<<-1, 0>>)}, a \in {a \in TV("I64") : a \in Comp /\ Rank(env[a]) = 1 /\ Dim(a, 1) > 1}}
    [] op = "Slice1" -> {PX("Slice", N1, <<a, "#1", "#2", "#3">>, <<IVec(<<q[1]>>), IVec(<<q[2]>>), IVec(<<0>>)>>) : q \in {<<0, 1>>, <<1, 2>>, <<-1, 9>>, <<0, -1>>}, a \in {a \in Ten(TV("F32") \cup TV("I64")) : One1(a) /\ Dim(a, 1) > 1}}
    [] op = "Shape" -> {P0(op, N1, <<a>>) : a \in {a \in Ten(TV("F32")) : One1(a)}}
    [] op = "ShapeSE" -> {P0("Shape", [start |-> AI(q[1]), end |-> AI(q[2])], <<a>>) : q \in {<<0, 1>>, <<1, 3>>, <<-2, -1>>, <<-1, 3>>}, a \in {a \in TV("F32") : a \in Comp /\ Rank(env[a]) = 3}}
    [] op = "ReshapeTo" -> {P0("Reshape", N1, <<a, s>>) : a \in {a \in Ten(TV("F32")) : One1(a)}, s \in {s \in TV("I64") : Rank(env[s]) = 1 /\ Dim(s, 1) < 5}}
    [] op = "ExpandTo" -> {P0("Expand", N1, <<a, s>>) : a \in {a \in Ten(TV("F32")) : One1(a)}, s \in {s \in TV("I64") : Rank(env[s]) = 1 /\ Dim(s, 1) < 5}}
    [] op = "Flatten" -> {P0(op, [axis |-> AI(1)], <<a>>) : a \in {a \in TV("F32") : a \in Comp /\ Rank(env[a]) \in {2, 3}}}
    [] op = "Split" -> {[op |-> "Split", at |-> [axis |-> AI(k), num_outputs |-> AI(2)], in |-> <<a>>, x |-> <<>>, no |-> 2] : k \in {0, 1}, a \in {a \in TV("F32") : a \in Comp /\ env[a].s = <<2, 2>>}}
    [] op = "SplitC" -> {[op |-> "Split", at |-> [axis |-> AI(-1)], in |-> <<a, "#1">>, x |-> <<IVec(<<1, Dim(a, Rank(env[a])) - 1>>)>>, no |-> 2] : a \in {a \in Ten(TV("F32")) : a \in Comp /\ Dim(a, Rank(env[a])) > 1}}
    [] op = "TopK" -> {[op |-> "TopK", at |-> [axis |-> AI(-1)], in |-> <<a, "k">>, x |-> <<>>, no |-> 2] : a \in {a \in Ten(TV("F32")) : a \in Comp /\ Exact(env[a]) /\ Dim(a, Rank(env[a])) > 1}}
    [] op = "MatMul" -> UNION {{P0(op, N1, <<a, b>>) : b \in {b \in TV("F32") : Mix(a, b) /\ Rank(env[b]) \in {2, 3} /\ Dim(a, Rank(env[a])) = Dim(b, Rank(env[b]) - 1) /\ (Rank(env[a]) = 2 \/ Rank(env[b]) = 2 \/ Dim(a, 1) = Dim(b, 1))}} :
                            a \in {a \in TV("F32") : Rank(env[a]) \in {2, 3} /\ Exact(env[a])}}
    [] op = "Gemm" -> UNION {UNION {{P0(op, IF tb = 1 THEN [transB |-> AI(1)] ELSE N1, IF c = "" THEN <<a, b>> ELSE <<a, b, c>>) : c \in {""} \cup {c \in TV("F32") : Rank(env[c]) = 1 /\ Dim(c, 1) = Dim(b, 2 - tb)}} :
                            <<b, tb>> \in {<<b, tb>> \in TV("F32") \X {0, 1} : Rank(env[b]) = 2 /\ (a \in Comp) /\ Dim(b, 1 + tb) = Dim(a, 2)}} : a \in {a \in TV("F32") : Rank(env[a]) = 2}}

\* A candidate is possible if the operator is defined there and the result stays small.
ReOk(c) == IF c.op = "Reshape" THEN LET s == Ints(env[c.in[2]])
                                        pos == SelectSeq(s, LAMBDA d : d > 0)
                                        n == ProdFrom(pos, 1)
                                    IN (\A k \in DOMAIN s : s[k] >= -1 /\ s[k] # 0) /\ Len(s) > 0 /\ Cardinality({k \in DOMAIN s : s[k] = -1}) <= 1
                                       /\ (IF Len(pos) = Len(s) THEN n = Size(env[c.in[1]].s) ELSE Size(env[c.in[1]].s) % n = 0)
           ELSE IF c.op = "Expand" THEN LET s == Ints(env[c.in[2]]) IN (\A k \in DOMAIN s : s[k] > 0 /\ s[k] < 7) /\ Len(s) >= Rank(env[c.in[1]]) /\ BOk(env[c.in[1]].s, s) /\ ProdFrom(s, 1) < 60
           ELSE TRUE
CandsOf(o) == {c \in CandOf(o) : ReOk(c)}
OpSeq == SetToSeq(Start.ops)
Name(j, k) == "v" \o ToString(j) \o (IF k = 1 THEN "" ELSE "_" \o ToString(k))
XName(j, k) == "c" \o ToString(j) \o "_" \o ToString(k)
Mix2(a, b) == (((a % 65521) * 1103) + ((b % 65521) * 7919) + 12345) % 65521
\* The successors explored: all if there are few, otherwise a sample that depends on the path only; every operator gets its turn.
Pick(want) ==
  LET ops == SelectSeq(OpSeq, LAMBDA o : CandsOf(o) # {})
      nop == Len(ops)
      choose(j) == LET o == ops[1 + (Mix2(hsh, j * 31) % nop)]
                       cs == SetToSeq(CandsOf(o))
                   IN cs[1 + (Mix2(Mix2(hsh, j), Len(nodes)) % Len(cs))]
      all == UNION {CandsOf(ops[k]) : k \in 1..nop}
  IN IF nop = 0 THEN {} ELSE IF want >= Cardinality(all) THEN all ELSE {choose(j) : j \in 1..want}
Append1(c) ==
  LET j == Len(nodes) + 1
      in == [k \in 1..Len(c.in) |-> IF c.in[k] = "#1" THEN XName(j, 1) ELSE IF c.in[k] = "#2" THEN XName(j, 2) ELSE IF c.in[k] = "#3" THEN XName(j, 3) ELSE c.in[k]]
      out == [k \in 1..c.no |-> Name(j, k)]
      e1 == FoldS(LAMBDA e, k : (XName(j, k) :> c.x[k]) @@ e, env, Iota(Len(c.x)))
      ys == TLCEval(Eval(c.op, c.at, [k \in 1..Len(in) |-> Operand(in[k], e1)], c.no, e1))
  IN /\ \A k \in 1..c.no : Size(ys[k].s) <= 64 /\ Size(ys[k].s) > 0 /\ Rank(ys[k]) <= 4
     /\ nodes' = Append(nodes, Nd(c.op, c.at, in, out))
     /\ env' = FoldS(LAMBDA e, k : (out[k] :> ys[k]) @@ e, e1, Iota(c.no))
     /\ order' = order \o out
     /\ xi' = xi \o [k \in 1..Len(c.x) |-> Ini(XName(j, k), c.x[k])]
\* the path number follows from the node appended
HashNode(c) == FoldS(LAMBDA h, k : Mix2(h, k), Len(c.op) + (17 * Cardinality(DOMAIN c.at)), [k \in 1..Len(c.in) |-> (IF c.in[k] \in DOMAIN env THEN Size(env[c.in[k]].s) + 10 * (CHOOSE q \in 0..Len(order) : (q = 0 /\ c.in[k] \notin Comp) \/ (q > 0 /\ order[q] = c.in[k])) ELSE 3)])
Next == /\ Len(nodes) < Depth
        /\ \E c \in Pick(IF nodes = <<>> THEN First ELSE Breadth) : Append1(c) /\ hsh' = Mix2(hsh, HashNode(c))

------------------------------------------------------------------------------
\* Which values are outputs: 0: the last node's; 1: everything unused; 2: the last and another; 3: everything unused and another, in reverse.
Used == {nodes[j].in[k] : <<j, k>> \in UNION {{<<j, k>> : k \in 1..Len(nodes[j].in)} : j \in 1..Len(nodes)}}
Made == SubSeq(order, Len(Names0) + 1, Len(order))
Sinks == SelectSeq(Made, LAMBDA n : n \notin Used)
Other == Made[1 + (hsh % Len(Made))]
Rev(s) == [k \in 1..Len(s) |-> s[Len(s) + 1 - k]]
Outs(v) == LET l == nodes[Len(nodes)].out
               plus(s) == IF Other \in {s[k] : k \in 1..Len(s)} THEN s ELSE Append(s, Other)
           IN CASE v = 0 -> l [] v = 1 -> Sinks [] v = 2 -> plus(l) [] OTHER -> Rev(plus(Sinks))
UsedX == Used \ Comp
Emit == Len(nodes) >= MinDepth =>
  LET o == Outs((hsh \div 7) % 4)
  IN PrintT("@@" \o ToJson([id |-> Theme, op |-> "program", opset |-> 18, nodes |-> nodes,
                            inits |-> SelectSeq(Start.inits \o xi, LAMBDA q : q.n \in Used), ins |-> Start.ins,
                            outs |-> [k \in 1..Len(o) |-> [n |-> o[k], x |-> env[o[k]]]],
                            mid |-> [j \in DOMAIN nodes |-> [k \in DOMAIN nodes[j].out |-> IF nodes[j].out[k] \in DOMAIN env THEN <<env[nodes[j].out[k]]>> ELSE <<>>]]]))
\* Every value a node reads was there before, and is made once.
WellFormed == \A j \in 1..Len(nodes) : \A k \in 1..Len(nodes[j].in) : nodes[j].in[k] \in DOMAIN env
==============================================================================
