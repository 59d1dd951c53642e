------------------------------ MODULE Control ------------------------------
(* Models with branches and loops: If, Loop and Scan, nested in one another, with *)
(* captured outer values of every origin, any number of states and scan outputs,  *)
(* names used again in sibling graphs, and captured values used later.            *)
EXTENDS Onnx, Json

CONSTANTS Family, AllModes

Vn(k, salt) == (((k * 7) + (salt * 5)) % 31) - 15
Dat(t, s, salt) == MkF(t, s, LAMBDA k : IF t = "F32" THEN Q(Vn(k, salt), 4) ELSE I(Vn(k, salt)))
Nd(op, at, in, out) == [op |-> op, at |-> at, in |-> in, out |-> out]
In1(n, x) == [n |-> n, x |-> x, dyn |-> FALSE]
Dyn(n, x) == [n |-> n, x |-> x, dyn |-> TRUE]
Ini(n, x) == [n |-> n, x |-> x]
BScal(b) == Scal("Bool", B(b))
N1 == <<>>
\* A subgraph. types: a sample of every input and output; scans: of every scan output's element.
G(ins, inits, nodes, outs, types, scans) == [ins |-> ins, inits |-> inits, nodes |-> nodes, outs |-> outs, types |-> types, scans |-> scans, name |-> "body"]

X == Dat("F32", <<2, 3>>, 1)
W == Dat("F32", <<3>>, 4)
X2 == Dat("F32", <<2>>, 6)

------------------------------------------------------------------------------
\* Branches over the captured values x (graph input), w (initializer), m (computed). p: prefix of names.
BranchKinds == {"shape", "relu", "addw", "mid", "own", "cst", "pass", "chain", "same", "unused"}
Br(p, kind, two) ==
  LET y == p \o "y"
      q == p \o "q"
      b == CASE kind = "relu" -> [i |-> <<>>, n |-> <<Nd("Relu", N1, <<"x">>, <<y>>)>>]
             [] kind = "addw" -> [i |-> <<>>, n |-> <<Nd("Add", N1, <<"x", "w">>, <<y>>)>>]
             [] kind = "mid" -> [i |-> <<>>, n |-> <<Nd("Mul", N1, <<"m", "x">>, <<y>>)>>]
             [] kind = "own" -> [i |-> <<Ini(p \o "k", Dat("F32", <<3>>, 9))>>, n |-> <<Nd("Sub", N1, <<"x", p \o "k">>, <<y>>)>>]
             [] kind = "cst" -> [i |-> <<>>, n |-> <<Nd("Constant", [value |-> AT(Dat("F32", <<2, 3>>, 11))], <<>>, <<p \o "c">>), Nd("Add", N1, <<p \o "c", "x">>, <<y>>)>>]
             [] kind = "shape" -> [i |-> <<>>, n |-> <<Nd("Reshape", N1, <<"m", "shx">>, <<y>>)>>]
             [] kind = "pass" -> [i |-> <<>>, n |-> <<Nd("Identity", N1, <<"x">>, <<y>>)>>]
             [] kind = "chain" -> [i |-> <<>>, n |-> <<Nd("Neg", N1, <<"x">>, <<p \o "h">>), Nd("Add", N1, <<p \o "h", "m">>, <<p \o "g">>), Nd("Mul", N1, <<p \o "g", p \o "h">>, <<y>>)>>]
             [] kind = "same" -> [i |-> <<>>, n |-> <<Nd("Abs", N1, <<"x">>, <<"h">>), Nd("Mul", N1, <<"h", "w">>, <<y>>)>>]
             [] kind = "unused" -> [i |-> <<>>, n |-> <<Nd("Exp", N1, <<"x">>, <<p \o "dead">>), Nd("Sub", N1, <<"m", "w">>, <<y>>)>>]
      q2 == CASE kind \in {"relu", "mid"} -> <<Nd("ReduceMax", [keepdims |-> AI(0)], <<"x", "ax1">>, <<q>>)>>
              [] kind \in {"pass", "same"} -> <<Nd("ReduceSum", [keepdims |-> AI(0)], <<y, "ax1">>, <<q>>)>>
              [] OTHER -> <<Nd("ReduceMin", [keepdims |-> AI(0)], <<"m", "ax1">>, <<q>>)>>
  IN G(<<>>, b.i, b.n \o (IF two THEN q2 ELSE <<>>), IF two THEN <<y, q>> ELSE <<y>>, (y :> X) @@ (q :> X2), <<>>)

\* The condition: where it comes from.
CondNodes(src) ==
  CASE src = "in" -> <<>>
    [] src = "not" -> <<Nd("Not", N1, <<"c0">>, <<"c">>)>>     \* of a vector of one element
    [] src = "cmp" -> <<Nd("ReduceSum", [keepdims |-> AI(0)], <<"x">>, <<"rs">>), Nd("Greater", N1, <<"rs", "thr">>, <<"c">>)>>
    [] src = "cmp1" -> <<Nd("ReduceSum", [keepdims |-> AI(1)], <<"x2", "ax0">>, <<"rs">>), Nd("Less", N1, <<"rs", "thr">>, <<"c">>)>>
    [] src = "const" -> <<>>
    [] src = "idx" -> <<Nd("Shape", N1, <<"x">>, <<"sh">>), Nd("Gather", [axis |-> AI(0)], <<"sh", "one">>, <<"dim">>), Nd("Equal", N1, <<"dim", "three">>, <<"c">>)>>
After(how, res) ==
  CASE how = "none" -> [n |-> <<>>, o |-> res]
    [] how = "use" -> [n |-> <<Nd("Add", N1, <<res[1], "x">>, <<"z">>)>>, o |-> <<"z">> \o Tail(res)]
    [] how = "cap" -> [n |-> <<>>, o |-> <<"m">> \o res]
    [] how = "mul" -> [n |-> <<Nd("Mul", N1, <<"m", res[1]>>, <<"z">>)>>, o |-> <<"z", res[1]>>]
IfCase(k1, k2, src, val, after, two) ==
  LET res == IF two THEN <<"r", "r2">> ELSE <<"r">>
      a == After(after, res)
  IN [ins |-> <<In1("x", X)>> \o (CASE src = "in" -> <<In1("c", BScal(val))>> [] src = "not" -> <<In1("c0", T("Bool", <<1>>, <<B(~val)>>))>> [] src = "cmp1" -> <<In1("x2", X2)>> [] OTHER -> <<>>),
      inits |-> <<Ini("w", W), Ini("ax1", IVec(<<1>>))>> \o (IF src = "const" THEN <<Ini("c", BScal(val))>> ELSE <<>>)
                \o (IF src \in {"cmp", "cmp1"} THEN <<Ini("thr", Scal("F32", IF val THEN I(-100) ELSE I(100))), Ini("ax0", IVec(<<0>>))>> ELSE <<>>)
                \o (IF src = "idx" THEN <<Ini("one", IScal(1)), Ini("three", IScal(IF val THEN 3 ELSE 4))>> ELSE <<>>),
      nodes |-> <<Nd("Sigmoid", N1, <<"x">>, <<"m">>)>> \o (IF "shape" \in {k1, k2} THEN <<Nd("Shape", N1, <<"m">>, <<"shx">>)>> ELSE <<>>) \o CondNodes(src) \o <<Nd("If", [then_branch |-> AG(Br("t", k1, two)), else_branch |-> AG(Br("e", k2, two))], <<"c">>, res)>> \o a.n,
      outs |-> a.o]
Ifs == {<<"if", k1, k2, "in", v, "none", FALSE>> : k1 \in BranchKinds, k2 \in BranchKinds, v \in BOOLEAN}
       \cup {<<"if", k1, k2, s, v, a, t>> : k1 \in {"relu", "chain", "pass"}, k2 \in {"own", "same", "unused"}, s \in {"in", "not", "cmp", "const"}, v \in BOOLEAN, a \in {"none", "use", "cap", "mul"}, t \in BOOLEAN}
       \cup {<<"if", k1, "mid", s, v, "use", TRUE>> : k1 \in BranchKinds, s \in {"cmp1", "idx"}, v \in BOOLEAN}

\* Two Ifs in a row with the same names inside, the second capturing the first's result.
TwoIfs(k1, k2, v, w) ==
  [ins |-> <<In1("x0", X), In1("c", BScal(v)), In1("d", BScal(w))>>, inits |-> <<Ini("w", W), Ini("ax1", IVec(<<1>>))>>,
   nodes |-> <<Nd("Relu", N1, <<"x0">>, <<"x">>), Nd("Sigmoid", N1, <<"x">>, <<"m">>),
               Nd("If", [then_branch |-> AG(Br("t", k1, FALSE)), else_branch |-> AG(Br("e", k2, FALSE))], <<"c">>, <<"r">>),
               Nd("If", [then_branch |-> AG(G(<<>>, <<>>, <<Nd("Abs", N1, <<"r">>, <<"h2">>), Nd("Add", N1, <<"h2", "x">>, <<"ty2">>)>>, <<"ty2">>, ("ty2" :> X), <<>>)),
                          else_branch |-> AG(G(<<>>, <<>>, <<Nd("Abs", N1, <<"m">>, <<"h2">>), Nd("Sub", N1, <<"h2", "r">>, <<"ey2">>)>>, <<"ey2">>, ("ey2" :> X), <<>>))], <<"d">>, <<"r2">>)>>,
   outs |-> <<"r2", "r">>]
\* Several Ifs and loops in a row, each with constants of its own.
Row(kinds, v) ==
  LET at(j, c) == G(<<>>, <<Ini("k", Dat("F32", <<2>>, c))>>, <<Nd("Constant", [value |-> AT(Dat("F32", <<2>>, c + 1))], <<>>, <<"kk">>), Nd("Mul", N1, <<"a" \o ToString(j), "k">>, <<"h">>), Nd("Add", N1, <<"h", "kk">>, <<"y">>)>>, <<"y">>, ("y" :> X2), <<>>)
      lb(j, c) == LET b == at(j, c) IN
                  G(<<"i", "ci", "s">>, b.inits, <<b.nodes[1], Nd("Mul", N1, <<"s", "k">>, <<"h">>), b.nodes[3], Nd("Identity", N1, <<"ci">>, <<"co">>)>>, <<"co", "y">>,
                    ("i" :> IScal(0)) @@ ("ci" :> BScal(TRUE)) @@ ("co" :> BScal(TRUE)) @@ ("s" :> X2) @@ ("y" :> X2), <<>>)
      nd(j) == IF kinds[j] = "if" THEN Nd("If", [then_branch |-> AG(at(j, 2 * j)), else_branch |-> AG(at(j, 2 * j + 5))], <<"c">>, <<"a" \o ToString(j + 1)>>)
               ELSE Nd("Loop", [body |-> AG(lb(j, 3 * j))], <<"mx", "", "a" \o ToString(j)>>, <<"a" \o ToString(j + 1)>>)
  IN [ins |-> <<In1("x2", X2), In1("c", BScal(v))>>, inits |-> <<Ini("mx", IScal(2))>>,
      nodes |-> <<Nd("Neg", N1, <<"x2">>, <<"a1">>)>> \o [j \in 1..Len(kinds) |-> nd(j)], outs |-> <<"a" \o ToString(Len(kinds) + 1), "a2">>]
\* If in a branch of If: the inner branches capture the outer branch's own value h, the graph's values and its initializer.
NestIf(k, inner, v, w) ==
  LET in1 == CASE inner = "local" -> <<Nd("Add", N1, <<"hh", "x">>, <<"iy">>)>>
               [] inner = "outer" -> <<Nd("Mul", N1, <<"m", "w">>, <<"iy">>)>>
               [] inner = "init" -> <<Nd("Add", N1, <<"hh", "bk">>, <<"iy">>)>>
      g == G(<<>>, <<Ini("bk", Dat("F32", <<3>>, 3))>>, <<Nd("Neg", N1, <<"x">>, <<"hh">>),
              Nd("If", [then_branch |-> AG(G(<<>>, <<>>, in1, <<"iy">>, ("iy" :> X), <<>>)), else_branch |-> AG(G(<<>>, <<>>, <<Nd("Sub", N1, <<"bk", "hh">>, <<"jy">>)>>, <<"jy">>, ("jy" :> X), <<>>))], <<"d">>, <<"ir">>),
              Nd("Add", N1, <<"ir", "hh">>, <<"ty">>)>>, <<"ty">>, ("ty" :> X), <<>>)
  IN [ins |-> <<In1("x", X), In1("c", BScal(v)), In1("d", BScal(w))>>, inits |-> <<Ini("w", W), Ini("ax1", IVec(<<1>>))>>,
      nodes |-> <<Nd("Sigmoid", N1, <<"x">>, <<"m">>), Nd("If", [then_branch |-> AG(IF k = "then" THEN g ELSE Br("e", k, FALSE)), else_branch |-> AG(IF k = "then" THEN Br("e", "addw", FALSE) ELSE g)], <<"c">>, <<"r">>)>>,
      outs |-> <<"r">>]
\* Scalars and integers as results of branches.
ScalIf(kind, v) ==
  LET s == CASE kind = "f" -> Scal("F32", I(2)) [] kind = "i" -> IScal(2) [] OTHER -> IVec(<<2, 3>>)
      th == CASE kind = "shape" -> <<Nd("Shape", N1, <<"x">>, <<"ty">>)>> [] OTHER -> <<Nd("Add", N1, <<"s", "s">>, <<"ty">>)>>
      el == CASE kind = "shape" -> <<Nd("Add", N1, <<"s", "s">>, <<"ey">>)>> [] OTHER -> <<Nd("Neg", N1, <<"s">>, <<"ey">>)>>
  IN [ins |-> <<In1("x", X), In1("c", BScal(v)), In1("s", s)>>, inits |-> <<>>,
      nodes |-> <<Nd("If", [then_branch |-> AG(G(<<>>, <<>>, th, <<"ty">>, ("ty" :> s), <<>>)), else_branch |-> AG(G(<<>>, <<>>, el, <<"ey">>, ("ey" :> s), <<>>))], <<"c">>, <<"r">>)>>,
      outs |-> <<"r">>]
NestIfs == {<<"nest", k, i, v, w>> : k \in {"then", "relu", "mid"}, i \in {"local", "outer", "init"}, v \in BOOLEAN, w \in BOOLEAN}
           \cup {<<"two", k1, k2, v, w>> : k1 \in {"relu", "chain", "same"}, k2 \in {"own", "same"}, v \in BOOLEAN, w \in BOOLEAN}
           \cup {<<"row", k, v>> : k \in {<<"if", "if">>, <<"if", "loop">>, <<"loop", "loop">>, <<"loop", "if", "loop">>, <<"if", "if", "if">>}, v \in BOOLEAN}
           \cup {<<"scal", k, v>> : k \in {"f", "i", "shape"}, v \in BOOLEAN}

------------------------------------------------------------------------------
\* Loops. A state update: [in: sample, ini: body initializers, n: nodes from the state s to t]
Upd(kind, s, t) ==
  CASE kind = "cap" -> [x |-> X2, ini |-> <<>>, n |-> <<Nd("Add", N1, <<s, "x2">>, <<t>>)>>]
    [] kind = "mid" -> [x |-> X2, ini |-> <<>>, n |-> <<Nd("Sub", N1, <<"m2", s>>, <<t>>)>>]
    [] kind = "init" -> [x |-> X2, ini |-> <<Ini(s \o "k", Scal("F32", I(2)))>>, n |-> <<Nd("Mul", N1, <<s, s \o "k">>, <<t>>)>>]
    [] kind = "gin" -> [x |-> X2, ini |-> <<>>, n |-> <<Nd("Add", N1, <<s, "gk">>, <<t>>)>>]
    [] kind = "iter" -> [x |-> X2, ini |-> <<>>, n |-> <<Nd("Cast", [to |-> AI(1)], <<"i">>, <<s \o "f">>), Nd("Add", N1, <<s, s \o "f">>, <<t>>)>>]
    [] kind = "pass" -> [x |-> X2, ini |-> <<>>, n |-> <<Nd("Identity", N1, <<s>>, <<t>>)>>]
    [] kind = "direct" -> [x |-> X2, ini |-> <<>>, n |-> <<>>]
    [] kind = "idir" -> [x |-> IScal(7), ini |-> <<>>, n |-> <<>>]
    [] kind = "scal" -> [x |-> Scal("F32", Q(3, 4)), ini |-> <<Ini(s \o "k", Scal("F32", I(2)))>>, n |-> <<Nd("Add", N1, <<s, s \o "k">>, <<t>>)>>]
    [] kind = "int" -> [x |-> IScal(5), ini |-> <<>>, n |-> <<Nd("Add", N1, <<s, "i">>, <<t>>)>>]
    [] kind = "twice" -> [x |-> X2, ini |-> <<>>, n |-> <<Nd("Add", N1, <<s, "x2">>, <<s \o "u">>), Nd("Mul", N1, <<s \o "u", s \o "u">>, <<s \o "v">>), Nd("Sub", N1, <<s \o "v", "x2">>, <<t>>)>>]
    [] kind = "wide" -> [x |-> X, ini |-> <<>>, n |-> <<Nd("Add", N1, <<s, "w">>, <<t>>)>>]
St(k) == "s" \o ToString(k)
Tn(k) == "t" \o ToString(k)
\* upds: the updates; cond: how the body's condition comes about; scans: what is collected
LoopBody(upds, cond, scans, swap) ==
  LET us == [k \in 1..Len(upds) |-> Upd(upds[k], St(k), Tn(k))]
      flat(f(_)) == FoldS(LAMBDA a, k : a \o f(k), <<>>, Iota(Len(us)))
      cn == CASE cond = "pass" -> <<Nd("Identity", N1, <<"ci">>, <<"co">>)>>
              [] cond = "lt" -> <<Nd("Less", N1, <<"i", "lim">>, <<"co">>)>>
              [] cond = "add" -> <<Nd("Add", N1, <<"i", "bone">>, <<"i1">>), Nd("Less", N1, <<"i1", "lim">>, <<"co">>)>>
              [] cond = "state" -> <<Nd("Less", N1, <<Tn(1), "thr">>, <<"co">>)>>
              [] cond \in {"const", "direct"} -> <<>>
      sc == [k \in 1..Len(scans) |-> CASE scans[k] = "state" -> [n |-> <<Nd("Identity", N1, <<Tn(1)>>, <<"o" \o ToString(k)>>)>>, x |-> us[1].x]
                                       [] scans[k] = "old" -> [n |-> <<Nd("Neg", N1, <<St(1)>>, <<"o" \o ToString(k)>>)>>, x |-> us[1].x]
                                       [] scans[k] = "iter" -> [n |-> <<Nd("Identity", N1, <<"i">>, <<"o" \o ToString(k)>>)>>, x |-> IScal(0)]
                                       [] scans[k] = "cap" -> [n |-> <<Nd("Relu", N1, <<"x2">>, <<"o" \o ToString(k)>>)>>, x |-> X2]]
      tn == [k \in 1..Len(us) |-> LET j == IF swap THEN Len(us) + 1 - k ELSE k IN IF upds[j] \in {"direct", "idir"} THEN St(j) ELSE Tn(j)]
      outs == <<CASE cond = "const" -> "bt" [] cond = "direct" -> "ci" [] OTHER -> "co">> \o tn \o [k \in 1..Len(scans) |-> "o" \o ToString(k)]
  IN G(<<"i", "ci">> \o [k \in 1..Len(us) |-> St(k)],
       flat(LAMBDA k : us[k].ini) \o (IF cond = "add" THEN <<Ini("bone", IScal(1))>> ELSE <<>>) \o (IF cond = "const" THEN <<Ini("bt", BScal(TRUE))>> ELSE <<>>),
       flat(LAMBDA k : us[k].n) \o cn \o FoldS(LAMBDA a, k : a \o sc[k].n, <<>>, Iota(Len(sc))), outs,
       ("i" :> IScal(0)) @@ ("ci" :> BScal(TRUE)) @@ ("co" :> BScal(TRUE)) @@ ("bt" :> BScal(TRUE))
         @@ FoldS(LAMBDA e, k : (St(k) :> us[k].x) @@ (Tn(k) :> us[k].x) @@ e, << >>, Iota(Len(us))) @@ FoldS(LAMBDA e, k : (("o" \o ToString(k)) :> sc[k].x) @@ e, << >>, Iota(Len(sc))),
       [k \in 1..Len(sc) |-> sc[k].x])
MaxOf(src) == CASE src = "none" -> "" [] OTHER -> "mx"
LoopNodes(body, mx, c0, upds, nres, p) ==
  <<Nd("Loop", [body |-> AG(body)], <<MaxOf(mx), IF c0 = "none" THEN "" ELSE "c0">> \o [k \in 1..Len(upds) |-> "q" \o ToString(k)], [k \in 1..nres |-> p \o ToString(k)])>>
LoopIns(mx, c0, upds, qsrc) ==
  [ins |-> <<In1("x2", X2)>> \o (IF mx[1] = "in" THEN <<In1("mx", IScal(mx[2]))>> ELSE <<>>) \o (IF c0[1] = "in" THEN <<In1("c0", BScal(c0[2]))>> ELSE <<>>)
           \o (IF qsrc = "in" THEN [k \in 1..Len(upds) |-> In1("q" \o ToString(k), Upd(upds[k], "s", "t").x)] ELSE <<>>),
   inits |-> <<Ini("w", W), Ini("lim", IScal(2)), Ini("thr", Scal("F32", I(4))), Ini("gk", Dat("F32", <<2>>, 8))>> \o (IF mx[1] = "init" THEN <<Ini("mx", IScal(mx[2]))>> ELSE <<>>)
             \o (IF c0[1] = "init" THEN <<Ini("c0", BScal(c0[2]))>> ELSE <<>>)
             \o (IF qsrc = "init" THEN [k \in 1..Len(upds) |-> Ini("q" \o ToString(k), Upd(upds[k], "s", "t").x)] ELSE <<>>)]
LoopCase(mx, c0, upds, cond, scans, swap, qsrc, after) ==
  LET i == LoopIns(mx, c0, upds, qsrc)
      nres == Len(upds) + Len(scans)
      b == LoopBody(upds, cond, scans, swap)
  IN [ins |-> i.ins, inits |-> i.inits,
      nodes |-> <<Nd("Sigmoid", N1, <<"x2">>, <<"m2">>)>> \o LoopNodes(b, mx[1], c0[1], upds, nres, "r")
                \o (IF after = "use" THEN <<Nd("Add", N1, <<"r1", "x2">>, <<"z">>)>> ELSE <<>>),
      outs |-> (IF after = "use" THEN <<"z">> ELSE <<>>) \o [k \in 1..nres |-> "r" \o ToString(k)] \o (IF after = "cap" THEN <<"m2">> ELSE <<>>)]
Maxs == {<<"init", 3>>, <<"init", 1>>, <<"in", 3>>, <<"in", 0>>, <<"none", 0>>}
C0s == {<<"none", TRUE>>, <<"init", TRUE>>, <<"in", TRUE>>, <<"in", FALSE>>}
Ends(mx, cond) == mx[1] # "none" \/ cond \in {"lt", "add", "state"}
AllLoops == {<<"loop", mx, c0, u, cond, s, FALSE, "in", "none">> :
             <<mx, c0, u, cond, s>> \in {<<mx, c0, u, cond, s>> \in Maxs \X C0s \X {<<"cap">>, <<"int", "init">>} \X {"pass", "lt", "add", "const"} \X {<<>>, <<"state">>} : Ends(mx, cond)}}
         \cup {<<"loop", <<"init", 3>>, <<"in", TRUE>>, u, cond, s, FALSE, q, a>> :
             u \in {<<"cap">>, <<"mid">>, <<"init">>, <<"iter">>, <<"scal">>, <<"int">>, <<"twice">>, <<"wide">>, <<"pass">>, <<"gin">>}, cond \in {"pass", "lt"},
             s \in {<<>>, <<"state">>, <<"iter">>, <<"old", "cap">>}, q \in {"in", "init"}, a \in {"none"}}
         \cup {<<"loop", <<"in", 3>>, <<"none", TRUE>>, u, "const", s, sw, "in", a>> : u \in {<<"cap", "init">>, <<"mid", "cap">>, <<"iter", "twice">>}, s \in {<<>>, <<"old", "iter">>}, sw \in BOOLEAN, a \in {"use", "cap"}}
         \cup {<<"loop", <<"none", 0>>, <<"in", TRUE>>, <<"scal">>, "state", s, FALSE, "in", "none">> : s \in {<<>>, <<"state">>}}
         \cup {<<"loop", mx, <<"in", TRUE>>, u, cond, <<>>, sw, "in", a>> : mx \in {<<"init", 2>>, <<"init", 3>>}, cond \in {"pass", "direct"}, sw \in BOOLEAN, a \in {"none", "use"},
             u \in {<<"int", "idir">>, <<"idir", "idir">>, <<"iter", "direct">>, <<"pass", "pass">>, <<"pass", "cap">>, <<"cap", "pass">>, <<"direct", "direct">>, <<"direct", "cap">>, <<"cap", "direct">>, <<"direct", "twice">>}}
         \cup {<<"loop", <<"init", 2>>, <<"none", TRUE>>, <<>>, "const", s, FALSE, "in", "none">> : s \in {<<"iter">>, <<"cap">>}}

Loops == {f \in AllLoops : f[9] = "use" => f[4] # <<>> /\ f[4][1] \notin {"int", "idir", "scal"}}

------------------------------------------------------------------------------
\* Scans over axis `ax` of xs; elements are vectors of two or scalars.
ScanCase(ns, nin, outs, ax, dir, oax, odir, elem, attrs) ==
  LET len == 3
      s == IF elem = "vec" THEN IF ax = 0 THEN <<3, 2>> ELSE <<2, 3>> ELSE <<3>>
      e == IF elem = "vec" THEN <<2>> ELSE <<>>
      el(k) == Dat("F32", e, k)
      xs(k) == "xs" \o ToString(k)
      o(k) == "o" \o ToString(k)
      sn == <<"cap", "elem">>
      upd(k) == IF nin = 0 THEN <<>> ELSE IF k = 1 THEN <<Nd("Add", N1, <<St(1), "e1">>, <<Tn(1)>>)>> ELSE <<Nd("Mul", N1, <<St(2), "e" \o ToString(nin)>>, <<"u2">>), Nd("Add", N1, <<"u2", St(1)>>, <<Tn(2)>>)>>
      out(k) == CASE outs[k] = "state" -> <<Nd("Identity", N1, <<Tn(1)>>, <<o(k)>>)>>
                  [] outs[k] = "elem" -> <<Nd("Add", N1, <<"e" \o ToString(nin), "sc">>, <<o(k)>>)>>
                  [] outs[k] = "old" -> <<Nd("Sub", N1, <<"e1", St(1)>>, <<o(k)>>)>>
                  [] outs[k] = "mid" -> <<Nd("Mul", N1, <<"ms", "e1">>, <<o(k)>>)>>
      body == G([k \in 1..ns |-> St(k)] \o [k \in 1..nin |-> "e" \o ToString(k)], <<>>,
                FoldS(LAMBDA a, k : a \o upd(k), <<>>, Iota(ns)) \o FoldS(LAMBDA a, k : a \o out(k), <<>>, Iota(Len(outs))),
                [k \in 1..ns |-> Tn(k)] \o [k \in 1..Len(outs) |-> o(k)],
                FoldS(LAMBDA f, k : (St(k) :> el(1)) @@ (Tn(k) :> el(1)) @@ (("e" \o ToString(k)) :> el(1)) @@ (o(k) :> el(1)) @@ f, << >>, Iota(3)), <<>>)
      at == [body |-> AG(body), num_scan_inputs |-> AI(nin)]
            @@ (IF attrs THEN [scan_input_axes |-> AIs(Rep(ax, nin)), scan_input_directions |-> AIs(Rep(dir, nin)), scan_output_axes |-> AIs(Rep(oax, Len(outs))), scan_output_directions |-> AIs(Rep(odir, Len(outs)))] ELSE << >>)
      nres == ns + Len(outs)
  IN [ins |-> [k \in 1..ns |-> In1("q" \o ToString(k), el(k + 2))] \o [k \in 1..nin |-> In1(xs(k), Dat("F32", s, k))],
      inits |-> <<Ini("sc", Scal("F32", I(2)))>>,
      nodes |-> <<Nd("ReduceSum", [keepdims |-> AI(0)], <<xs(1)>>, <<"ms">>), Nd("Scan", at, [k \in 1..ns |-> "q" \o ToString(k)] \o [k \in 1..nin |-> xs(k)], [k \in 1..nres |-> "r" \o ToString(k)])>>,
      outs |-> [k \in 1..nres |-> "r" \o ToString(k)] \o <<"ms">>]
\* Body outputs that are the body's own inputs: swapped states, and states or elements collected as they are.
ScanDirect(sts, outs) ==
  LET c == ScanCase(2, 1, [k \in 1..Len(outs) |-> "elem"], 0, 0, 0, 0, "vec", FALSE)
      el(k) == Dat("F32", <<2>>, k)
      nm(k) == sts[k]
      body == G(<<"s1", "s2", "e1">>, <<>>, <<Nd("Add", N1, <<"s1", "e1">>, <<"t1">>), Nd("Sub", N1, <<"s2", "e1">>, <<"t2">>)>>, sts \o outs,
                ("s1" :> el(1)) @@ ("s2" :> el(1)) @@ ("e1" :> el(1)) @@ ("t1" :> el(1)) @@ ("t2" :> el(1)), <<>>)
  IN [c EXCEPT !.nodes = <<c.nodes[1], Nd("Scan", [body |-> AG(body), num_scan_inputs |-> AI(1)], <<"q1", "q2", "xs1">>, [k \in 1..2 + Len(outs) |-> "r" \o ToString(k)])>>]
Scans == {<<"sdir", a, b>> : a \in {<<"s2", "s1">>, <<"t1", "s1">>, <<"s2", "t2">>, <<"t2", "t1">>, <<"t1", "s2">>, <<"t1", "t1">>}, b \in {<<>>, <<"s1">>, <<"e1">>, <<"s2", "t1">>, <<"t1", "t1">>}}
         \cup {<<"scan", ns, nin, o, ax, d, oax, od, "vec", TRUE>> : <<ns, nin, o, ax, d, oax, od>> \in
             {<<ns, nin, o, ax, d, oax, od>> \in {0, 1, 2} \X {1, 2} \X {<<"state">>, <<"elem">>, <<"old", "elem">>, <<"mid">>, <<>>} \X {0, 1, -1} \X {0, 1} \X {0, 1} \X {0, 1} :
                  (ns = 0 => \A k \in DOMAIN o : o[k] \in {"elem", "mid"}) /\ (ns + Len(o) > 0) /\ (o = <<>> => oax = 0 /\ od = 0)
                  /\ (AllModes \/ d + oax + od + (IF ax # 0 THEN 1 ELSE 0) <= 1)}}
         \cup {<<"scan", ns, nin, o, 0, 0, 0, 0, el, FALSE>> : ns \in {1, 2}, nin \in {1, 2}, o \in {<<"state">>, <<"elem">>, <<"old", "elem">>, <<"mid">>, <<>>}, el \in {"vec", "scal"}}

------------------------------------------------------------------------------
\* Control flow in control flow.
IfInLoop(v, mx, br) ==
  LET bo == G(<<"i", "ci", "s1">>, <<>>, <<Nd("Less", N1, <<"i", "lim">>, <<"small">>),
              Nd("If", [then_branch |-> AG(G(<<>>, <<>>, <<IF br = "state" THEN Nd("Add", N1, <<"s1", "x2">>, <<"ty">>) ELSE Nd("Add", N1, <<"m2", "x2">>, <<"ty">>)>>, <<"ty">>, ("ty" :> X2), <<>>)),
                         else_branch |-> AG(G(<<>>, <<>>, <<Nd("Mul", N1, <<"s1", "m2">>, <<"ey">>)>>, <<"ey">>, ("ey" :> X2), <<>>))], <<"small">>, <<"t1">>),
              Nd("Identity", N1, <<"ci">>, <<"co">>)>>, <<"co", "t1">>, ("i" :> IScal(0)) @@ ("ci" :> BScal(TRUE)) @@ ("co" :> BScal(TRUE)) @@ ("s1" :> X2) @@ ("t1" :> X2), <<>>)
  IN [ins |-> <<In1("x2", X2), In1("c0", BScal(v))>>, inits |-> <<Ini("lim", IScal(2)), Ini("mx", IScal(mx))>>,
      nodes |-> <<Nd("Sigmoid", N1, <<"x2">>, <<"m2">>), Nd("Loop", [body |-> AG(bo)], <<"mx", "c0", "x2">>, <<"r1">>)>>, outs |-> <<"r1">>]
LoopInIf(v, u, s) ==
  LET b == LoopBody(u, "pass", s, FALSE)
      nres == Len(u) + Len(s)
      th == G(<<>>, <<>>, LoopNodes(b, "init", "in", u, nres, "r"), <<"r1">>, ("r1" :> X2), <<>>)
      el == G(<<>>, <<>>, <<Nd("Neg", N1, <<"x2">>, <<"ey">>)>>, <<"ey">>, ("ey" :> X2), <<>>)
  IN [ins |-> <<In1("x2", X2), In1("c", BScal(v)), In1("q1", X2)>>, inits |-> <<Ini("mx", IScal(3)), Ini("c0", BScal(TRUE)), Ini("gk", Dat("F32", <<2>>, 8))>>,
      nodes |-> <<Nd("Sigmoid", N1, <<"x2">>, <<"m2">>), Nd("If", [then_branch |-> AG(th), else_branch |-> AG(el)], <<"c">>, <<"y">>)>>, outs |-> <<"y">>]
LoopInLoop(u, n1, n2) ==
  LET inner == LoopBody(u, "pass", <<>>, FALSE)
      bo == G(<<"j", "cj", "z1">>, <<>>, <<Nd("Add", N1, <<"z1", "x2">>, <<"q1">>), Nd("Loop", [body |-> AG(inner)], <<"mi", "cj", "q1">>, <<"w1">>), Nd("Identity", N1, <<"cj">>, <<"ck">>)>>, <<"ck", "w1">>,
              ("j" :> IScal(0)) @@ ("cj" :> BScal(TRUE)) @@ ("ck" :> BScal(TRUE)) @@ ("z1" :> X2) @@ ("w1" :> X2), <<>>)
  IN [ins |-> <<In1("x2", X2), In1("c0", BScal(TRUE))>>, inits |-> <<Ini("mx", IScal(n1)), Ini("mi", IScal(n2)), Ini("gk", Dat("F32", <<2>>, 8))>>,
      nodes |-> <<Nd("Sigmoid", N1, <<"x2">>, <<"m2">>), Nd("Loop", [body |-> AG(bo)], <<"mx", "c0", "x2">>, <<"r1">>)>>, outs |-> <<"r1", "m2">>]
IfInScan(v, cap) ==
  LET bo == G(<<"s1", "e1">>, <<>>, <<Nd("If", [then_branch |-> AG(G(<<>>, <<>>, <<Nd("Add", N1, <<"s1", IF cap THEN "x2" ELSE "e1">>, <<"ty">>)>>, <<"ty">>, ("ty" :> X2), <<>>)),
                        else_branch |-> AG(G(<<>>, <<>>, <<Nd("Mul", N1, <<"e1", "x2">>, <<"ey">>)>>, <<"ey">>, ("ey" :> X2), <<>>))], <<"c">>, <<"t1">>), Nd("Neg", N1, <<"t1">>, <<"o1">>)>>, <<"t1", "o1">>,
              ("s1" :> X2) @@ ("e1" :> X2) @@ ("t1" :> X2) @@ ("o1" :> X2), <<>>)
  IN [ins |-> <<In1("x2", X2), In1("c", BScal(v)), In1("xs1", Dat("F32", <<3, 2>>, 1))>>, inits |-> <<>>,
      nodes |-> <<Nd("Scan", [body |-> AG(bo), num_scan_inputs |-> AI(1)], <<"x2", "xs1">>, <<"r1", "r2">>)>>, outs |-> <<"r1", "r2">>]
ScanInIf(v, o) ==
  LET c == ScanCase(1, 1, o, 0, 0, 0, 0, "vec", FALSE)
      th == G(<<>>, <<>>, <<c.nodes[2]>>, <<"r1">>, ("r1" :> X2), <<>>)
      el == G(<<>>, <<>>, <<Nd("Neg", N1, <<"q1">>, <<"ey">>)>>, <<"ey">>, ("ey" :> X2), <<>>)
  IN [ins |-> c.ins \o <<In1("c", BScal(v))>>, inits |-> c.inits, nodes |-> <<c.nodes[1], Nd("If", [then_branch |-> AG(th), else_branch |-> AG(el)], <<"c">>, <<"y">>)>>, outs |-> <<"y", "ms">>]
\* Names of a body that are names of the enclosing graph too.
Shadow(how, mx) ==
  LET env(f) == ("i" :> IScal(0)) @@ ("ci" :> BScal(TRUE)) @@ f
      lb(st, ini, ns, out) == G(<<"i", "ci", st>>, ini, ns, <<"ci", out>>, env((st :> X2) @@ (out :> X2)), <<>>)
      lp(b, q) == Nd("Loop", [body |-> AG(b)], <<"mx", "c0", q>>, <<"r1">>)
      br(ini, ns, out) == G(<<>>, ini, ns, <<out>>, (out :> X2), <<>>)
      iff(a, b) == Nd("If", [then_branch |-> AG(a), else_branch |-> AG(b)], <<"c0">>, <<"r1">>)
      sc(ins, ns, outs) == Nd("Scan", [body |-> AG(G(ins, <<>>, ns, outs, FoldS(LAMBDA e, k : (outs[k] :> X2) @@ e, FoldS(LAMBDA e, k : (ins[k] :> X2) @@ e, << >>, Iota(2)), Iota(2)), <<>>)), num_scan_inputs |-> AI(1)], <<"x2", "xs1">>, <<"r1", "r2">>)
      n == CASE how = "state-init" -> lp(lb("x2", <<>>, <<Nd("Add", N1, <<"x2", "m2">>, <<"t1">>)>>, "t1"), "x2")
             [] how = "state-mid" -> lp(lb("m2", <<>>, <<Nd("Add", N1, <<"m2", "x2">>, <<"t1">>)>>, "t1"), "x2")
             [] how = "state-midinit" -> lp(lb("m2", <<>>, <<Nd("Add", N1, <<"m2", "x2">>, <<"t1">>)>>, "t1"), "m2")
             [] how = "local-mid" -> lp(lb("s1", <<>>, <<Nd("Relu", N1, <<"s1">>, <<"m2">>), Nd("Add", N1, <<"m2", "x2">>, <<"t1">>)>>, "t1"), "x2")
             [] how = "out-result" -> lp(lb("s1", <<>>, <<Nd("Add", N1, <<"s1", "m2">>, <<"r1">>)>>, "r1"), "x2")
             [] how = "init-init" -> lp(lb("s1", <<Ini("k", Dat("F32", <<2>>, 9))>>, <<Nd("Add", N1, <<"s1", "k">>, <<"t1">>)>>, "t1"), "x2")
             [] how = "if-local" -> iff(br(<<>>, <<Nd("Relu", N1, <<"x2">>, <<"m2">>), Nd("Add", N1, <<"m2", "k">>, <<"ty">>)>>, "ty"), br(<<>>, <<Nd("Sub", N1, <<"m2", "k">>, <<"ey">>)>>, "ey"))
             [] how = "if-init" -> iff(br(<<Ini("k", Dat("F32", <<2>>, 9))>>, <<Nd("Mul", N1, <<"m2", "k">>, <<"ty">>)>>, "ty"), br(<<>>, <<Nd("Sub", N1, <<"m2", "k">>, <<"ey">>)>>, "ey"))
             [] how = "if-out" -> iff(br(<<>>, <<Nd("Mul", N1, <<"m2", "k">>, <<"r1">>)>>, "r1"), br(<<>>, <<Nd("Sub", N1, <<"m2", "k">>, <<"r1">>)>>, "r1"))
             [] how = "scan-elem" -> sc(<<"s1", "xs1">>, <<Nd("Add", N1, <<"s1", "xs1">>, <<"t1">>), Nd("Mul", N1, <<"xs1", "k">>, <<"o1">>)>>, <<"t1", "o1">>)
             [] how = "scan-state" -> sc(<<"x2", "e1">>, <<Nd("Add", N1, <<"x2", "e1">>, <<"t1">>), Nd("Mul", N1, <<"x2", "m2">>, <<"o1">>)>>, <<"t1", "o1">>)
             [] how = "scan-mid" -> sc(<<"m2", "e1">>, <<Nd("Add", N1, <<"m2", "e1">>, <<"t1">>), Nd("Mul", N1, <<"m2", "x2">>, <<"o1">>)>>, <<"t1", "o1">>)
  IN [ins |-> <<In1("x2", X2), In1("c0", BScal(mx # 2))>> \o (IF how \in {"scan-elem", "scan-state", "scan-mid"} THEN <<In1("xs1", Dat("F32", <<3, 2>>, 1))>> ELSE <<>>),
      inits |-> <<Ini("mx", IScal(mx)), Ini("k", Dat("F32", <<2>>, 4))>>,
      nodes |-> <<Nd("Sigmoid", N1, <<"x2">>, <<"m2">>), n, Nd("Add", N1, <<"r1", "m2">>, <<"z1">>), Nd("Mul", N1, <<"z1", "x2">>, <<"z2">>), Nd("Add", N1, <<"z2", "k">>, <<"z">>)>>,
      outs |-> <<"z", "r1", "m2">>]
Shadows == {<<"shadow", h, m>> : h \in {"state-init", "state-mid", "state-midinit", "local-mid", "out-result", "init-init", "if-local", "if-init", "if-out", "scan-elem", "scan-state", "scan-mid"}, m \in {1, 2, 3}}
Mixed == {<<"ifinloop", v, mx, b>> : v \in BOOLEAN, mx \in {0, 1, 4}, b \in {"state", "mid"}}
         \cup {<<"loopinif", v, u, s>> : v \in BOOLEAN, u \in {<<"cap">>, <<"mid">>, <<"init">>, <<"gin">>, <<"iter">>}, s \in {<<>>, <<"state">>}}
         \cup {<<"loopinloop", u, n1, n2>> : u \in {<<"cap">>, <<"mid">>, <<"init">>, <<"iter">>, <<"gin">>}, n1 \in {1, 2}, n2 \in {0, 2}}
         \cup {<<"ifinscan", v, c>> : v \in BOOLEAN, c \in BOOLEAN} \cup {<<"scaninif", v, o>> : v \in BOOLEAN, o \in {<<"state">>, <<"elem">>}}

------------------------------------------------------------------------------
Feats == CASE Family = "if" -> Ifs [] Family = "nestif" -> NestIfs [] Family = "loop" -> Loops [] Family = "scan" -> Scans [] Family = "mixed" -> Mixed [] Family = "shadow" -> Shadows
Build(f) ==
  CASE f[1] = "if" -> IfCase(f[2], f[3], f[4], f[5], f[6], f[7])
    [] f[1] = "nest" -> NestIf(f[2], f[3], f[4], f[5])
    [] f[1] = "two" -> TwoIfs(f[2], f[3], f[4], f[5])
    [] f[1] = "scal" -> ScalIf(f[2], f[3])
    [] f[1] = "loop" -> LoopCase(f[2], f[3], f[4], f[5], f[6], f[7], f[8], f[9])
    [] f[1] = "scan" -> ScanCase(f[2], f[3], f[4], f[5], f[6], f[7], f[8], f[9], f[10])
    [] f[1] = "row" -> Row(f[2], f[3])
    [] f[1] = "sdir" -> ScanDirect(f[2], f[3])
    [] f[1] = "shadow" -> Shadow(f[2], f[3])
    [] f[1] = "ifinloop" -> IfInLoop(f[2], f[3], f[4])
    [] f[1] = "loopinif" -> LoopInIf(f[2], f[3], f[4])
    [] f[1] = "loopinloop" -> LoopInLoop(f[2], f[3], f[4])
    [] f[1] = "ifinscan" -> IfInScan(f[2], f[3])
    [] f[1] = "scaninif" -> ScanInIf(f[2], f[3])
Full(c) == LET e0 == FoldS(LAMBDA e, q : (q.n :> q.x) @@ e, << >>, c.ins \o c.inits)
               e == TLCEval(RunNodes(c.nodes, e0))
           IN [id |-> Family, op |-> "program", opset |-> 18, nodes |-> c.nodes, inits |-> c.inits, ins |-> c.ins, outs |-> [k \in 1..Len(c.outs) |-> [n |-> c.outs[k], x |-> e[c.outs[k]]]],
                            mid |-> [j \in DOMAIN c.nodes |-> [k \in DOMAIN c.nodes[j].out |-> IF c.nodes[j].out[k] \in DOMAIN e THEN <<e[c.nodes[j].out[k]]>> ELSE <<>>]]]

VARIABLE feat
Init == feat \in Feats
Next == FALSE /\ feat' = feat
Emit == PrintT("@@" \o ToJson(Full(Build(feat))))
==============================================================================
