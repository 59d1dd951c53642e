------------------------------- MODULE Patterns -------------------------------
(* Models around the graph patterns the importer recognises and rewrites as a   *)
(* whole: decomposed attention, permutation through a computed shape, parts of  *)
(* static shapes, a product and an addition. A behaviour chooses the features   *)
(* of the model one by one (so every combination in the bound is a state), and  *)
(* the models include those that look like the pattern and are not.             *)
EXTENDS Onnx, Json

CONSTANTS Pattern, Keep, Of     \* emit one in Of of the combinations (that with number Keep)

Vn(k, salt) == (((k * 7) + (salt * 5)) % 31) - 15
Dat(s, salt) == MkF("F32", s, LAMBDA k : Q(Vn(k, salt), 8))
Nd(op, at, in, out) == [op |-> op, at |-> at, in |-> in, out |-> <<out>>]
In1(n, x) == [n |-> n, x |-> x, dyn |-> FALSE]
Dyn(n, x) == [n |-> n, x |-> x, dyn |-> TRUE]
Ini(n, x) == [n |-> n, x |-> x]
NA == <<>>
If1(c, s) == IF c THEN s ELSE <<>>

------------------------------------------------------------------------------
(* Decomposed attention. Features:                                              *)
(*  kt     how the keys are transposed: swapped last axes, another permutation, none *)
(*  scale  where a factor is: nowhere, Div, Mul (either side), on the queries, on both operands (constant or computed), not a scalar *)
(*  mask   none, added right or left, of rank 2 or 4                             *)
(*  axis   the axis of Softmax                                                   *)
(*  use    what else is used: nothing, an intermediate as an output or by another node *)
AttnFeat == << {"swap", "swapshare", "other", "pre"}, {"none", "div", "mul", "lmul", "q", "both", "bothrt", "vec"}, {"none", "right", "left", "right4", "scalar"}, {-1, 3, 2},
               {"none", "scores", "probs", "scaled", "keys", "probs2", "vleft"} >>
Attn(f) ==
  LET kt == f[1]  sc == f[2]  mk == f[3]  ax == f[4]  us == f[5]
      \* batch 1, heads 2, queries 2, keys 2, head size 4 (its default factor is 1/2); V has 3 columns
      perm == IF kt = "other" THEN <<0, 1, 2, 3>> ELSE IF kt = "pre" THEN <<0, 2, 3, 1>> ELSE <<0, 1, 3, 2>>
      ks == IF kt = "other" THEN <<1, 2, 4, 2>> ELSE IF kt = "pre" THEN <<1, 2, 2, 4>> ELSE <<1, 2, 2, 4>>
      qin == IF kt = "pre" THEN <<1, 2, 2, 4>> ELSE <<1, 2, 2, 4>>
      ins == <<In1("q", Dat(qin, 1)), In1("k", Dat(ks, 2)), In1("v", Dat(IF us = "vleft" THEN <<1, 2, 3, 2>> ELSE <<1, 2, 2, 3>>, 3))>> \o If1(mk \in {"right", "left"}, <<In1("m", Dat(<<2, 2>>, 5))>>)
             \o If1(mk = "right4", <<In1("m", Dat(<<1, 2, 2, 2>>, 6))>>) \o If1(sc = "bothrt", <<In1("f", T("F32", <<1>>, <<Q(3, 4)>>))>>)
      inits == If1(sc \in {"div", "mul", "lmul", "q", "both"}, <<Ini("c", Scal("F32", Q(3, 4)))>>) \o If1(sc = "vec", <<Ini("c", T("F32", <<2>>, <<Q(1, 2), Q(3, 2)>>))>>)
               \o If1(mk = "scalar", <<Ini("m", Scal("F32", Q(1, 4)))>>)
      qn == IF kt = "pre" THEN "qt" ELSE "q"
      nodes == If1(kt = "pre", <<Nd("Transpose", [perm |-> AIs(<<0, 2, 1, 3>>)], <<"q">>, "qt")>>)
               \o <<Nd("Transpose", [perm |-> AIs(perm)], <<"k">>, "kt")>>
               \o If1(sc \in {"q", "both"}, <<Nd("Mul", NA, <<qn, "c">>, "qs")>>) \o If1(sc = "bothrt", <<Nd("Mul", NA, <<qn, "f">>, "qs")>>)
               \o If1(sc = "both", <<Nd("Mul", NA, <<"kt", "c">>, "ks")>>) \o If1(sc = "bothrt", <<Nd("Mul", NA, <<"kt", "f">>, "ks")>>)
               \o <<Nd("MatMul", NA, <<IF sc \in {"q", "both", "bothrt"} THEN "qs" ELSE qn, IF sc \in {"both", "bothrt"} THEN "ks" ELSE "kt">>, "scores")>>
               \o If1(sc = "div", <<Nd("Div", NA, <<"scores", "c">>, "scaled")>>) \o If1(sc \in {"mul", "vec"}, <<Nd("Mul", NA, <<"scores", "c">>, "scaled")>>)
               \o If1(sc = "lmul", <<Nd("Mul", NA, <<"c", "scores">>, "scaled")>>)
               \o If1(mk # "none", <<Nd("Add", NA, IF mk = "left" THEN <<"m", IF sc \in {"div", "mul", "vec", "lmul"} THEN "scaled" ELSE "scores">> ELSE <<IF sc \in {"div", "mul", "vec", "lmul"} THEN "scaled" ELSE "scores", "m">>, "masked")>>)
               \o <<Nd("Softmax", [axis |-> AI(ax)], <<IF mk # "none" THEN "masked" ELSE IF sc \in {"div", "mul", "vec", "lmul"} THEN "scaled" ELSE "scores">>, "probs")>>
               \o <<Nd("MatMul", NA, IF us = "vleft" THEN <<"v", "probs">> ELSE <<"probs", "v">>, "y")>>
               \o If1(us = "probs2", <<Nd("Relu", NA, <<"probs">>, "z")>>) \o If1(us = "keys", <<Nd("Relu", NA, <<"kt">>, "z")>>) \o If1(kt = "swapshare", <<Nd("Add", NA, <<"kt", "kt">>, "kk")>>)
      sco == IF sc \in {"div", "mul", "vec", "lmul"} THEN "scaled" ELSE "scores"
      outs == CASE us = "scores" -> <<"y", "scores">> [] us = "probs" -> <<"probs", "y">> [] us = "scaled" -> <<"y", sco>> [] us \in {"probs2", "keys"} -> <<"y", "z">> [] OTHER -> <<"y">>
  IN [ins |-> ins, inits |-> inits, nodes |-> nodes, outs |-> outs \o If1(kt = "swapshare", <<"kk">>)]

------------------------------------------------------------------------------
(* A value reshaped to sizes that were taken from a shape one by one.           *)
(*  sel    which dimensions, in which order (negative: from the end)             *)
(*  src    the shape of the value itself or of another one                        *)
(*  dyn    is the extent of the value declared                                    *)
(*  how    each dimension by Gather and Unsqueeze, by Gather with a vector index, or by Slice *)
(*  use    is one of the parts used elsewhere                                     *)
PermFeat == << {<<0, 1>>, <<1, 0>>, <<-1, 0>>, <<-2, -1>>, <<0, 0>>, <<0, 2, 1>>, <<2, 0, 1>>, <<0, -1, 1>>, <<0, 1, 2>>, <<1, 0, 2>>, <<0, 2, 1, 3>>, <<0, 1>> \o <<-1>>},
               {"self", "twin"}, {FALSE, TRUE}, {"gather", "vector", "slice"}, {"none", "part", "shape"} >>
Perm(f) ==
  LET sel == f[1]  n == Len(sel)
      sh == IF n = 2 THEN <<3, 3>> ELSE IF n = 3 THEN <<2, 3, 2>> ELSE <<1, 3, 2, 2>>
      sq == IF sel = <<0, 0>> THEN <<2, 2>> ELSE IF n = 2 THEN <<2, 3>> ELSE sh
      mk(nm, salt) == IF f[3] THEN Dyn(nm, Dat(sq, salt)) ELSE In1(nm, Dat(sq, salt))
      ins == <<mk("x", 1)>> \o If1(f[2] = "twin", <<mk("w", 4)>>)
      from == IF f[2] = "twin" THEN "w" ELSE "x"
      nm(p, j) == p \o ToString(j)
      part(j) == CASE f[4] = "gather" -> <<Nd("Gather", [axis |-> AI(0)], <<"s", nm("i", j)>>, nm("g", j)), Nd("Unsqueeze", NA, <<nm("g", j), "ax">>, nm("u", j))>>
                   [] f[4] = "vector" -> <<Nd("Gather", [axis |-> AI(0)], <<"s", nm("i", j)>>, nm("u", j))>>
                   [] OTHER -> <<Nd("Slice", NA, <<"s", nm("i", j), nm("e", j), "ax">>, nm("u", j))>>
      idx(j) == CASE f[4] = "gather" -> <<Ini(nm("i", j), IScal(sel[j]))>>
                  [] f[4] = "vector" -> <<Ini(nm("i", j), IVec(<<sel[j]>>))>>
                  [] OTHER -> <<Ini(nm("i", j), IVec(<<sel[j]>>)), Ini(nm("e", j), IVec(<<IF sel[j] = -1 THEN 99 ELSE sel[j] + 1>>))>>
      js == [j \in 1..n |-> j]
      cat(g(_)) == FoldS(LAMBDA acc, j : acc \o g(j), <<>>, js)
  IN [ins |-> ins, inits |-> cat(idx) \o If1(f[4] # "vector", <<Ini("ax", IVec(<<0>>))>>),
      nodes |-> <<Nd("Shape", NA, <<from>>, "s")>> \o cat(part) \o <<Nd("Concat", [axis |-> AI(0)], [j \in 1..n |-> nm("u", j)], "t"), Nd("Reshape", NA, <<"x", "t">>, "y")>>,
      outs |-> <<"y">> \o If1(f[5] = "part", <<"u1">>) \o If1(f[5] = "shape", <<"t">>)]

------------------------------------------------------------------------------
(* A part of a shape, used as a number.                                          *)
(*  range  the attributes of Shape                                                *)
(*  part   Gather of one index (scalar or vector) or Slice with a step            *)
ShapeAt == {NA, [start |-> AI(1)], [start |-> AI(-2)], [end |-> AI(2)], [end |-> AI(-1)], [start |-> AI(1), end |-> AI(3)], [start |-> AI(-3), end |-> AI(-1)], [start |-> AI(0), end |-> AI(2)]}
ConstFeat == << ShapeAt, {"g0", "g1", "g-1", "v0", "v-1", "v01", "s0:1", "s1:9", "s-1:9", "s0:-1", "s9:0:-1", "s-1:-9:-1", "s0:9:2"}, {FALSE, TRUE}, {"out", "arith", "expand"} >>
Const(f) ==
  LET p == f[2]
      ini(s) == CASE p = "g0" -> <<Ini("i", IScal(0))>> [] p = "g1" -> <<Ini("i", IScal(1))>> [] p = "g-1" -> <<Ini("i", IScal(-1))>> [] p = "v0" -> <<Ini("i", IVec(<<0>>))>> [] p = "v-1" -> <<Ini("i", IVec(<<-1>>))>>
                  [] p = "v01" -> <<Ini("i", IVec(<<0, 1>>))>>
                  [] OTHER -> LET q == CASE p = "s0:1" -> <<0, 1, 1>> [] p = "s1:9" -> <<1, 9, 1>> [] p = "s-1:9" -> <<-1, 9, 1>> [] p = "s0:-1" -> <<0, -1, 1>> [] p = "s9:0:-1" -> <<9, 0, -1>> [] p = "s-1:-9:-1" -> <<-1, -9, -1>> [] OTHER -> <<0, 9, 2>>
                              IN <<Ini("b", IVec(<<q[1]>>)), Ini("e", IVec(<<q[2]>>)), Ini("ax", IVec(<<0>>)), Ini("st", IVec(<<q[3]>>))>>
      isG == p \in {"g0", "g1", "g-1", "v0", "v-1", "v01"}
      get == IF isG THEN Nd("Gather", [axis |-> AI(0)], <<"s", "i">>, "p") ELSE Nd("Slice", NA, <<"s", "b", "e", "ax", "st">>, "p")
  IN [ins |-> <<IF f[3] THEN Dyn("x", Dat(<<2, 3, 4>>, 1)) ELSE In1("x", Dat(<<2, 3, 4>>, 1))>>,
      inits |-> ini(0) \o If1(f[4] = "arith", <<Ini("two", IScal(2))>>) \o If1(f[4] = "expand", <<Ini("w", Dat(<<1>>, 3))>>),
      nodes |-> <<Nd("Shape", f[1], <<"x">>, "s"), get>> \o If1(f[4] = "arith", <<Nd("Mul", NA, <<"p", "two">>, "y")>>)
                \o (IF f[4] # "expand" THEN <<>> ELSE IF p \in {"g0", "g1", "g-1"} THEN <<Nd("Unsqueeze", NA, <<"p", "ax0">>, "u"), Nd("Expand", NA, <<"w", "u">>, "y")>> ELSE <<Nd("Expand", NA, <<"w", "p">>, "y")>>),
      outs |-> IF f[4] = "out" THEN <<"p">> ELSE <<"y">>]
\* the length of the part has to allow its use
ConstOk(f) == LET lens == [r \in {f[1]} |-> LET a == IF "start" \in DOMAIN r THEN r.start.v ELSE 0  b == IF "end" \in DOMAIN r THEN r.end.v ELSE 3
                                                IN (IF b < 0 THEN b + 3 ELSE b) - (IF a < 0 THEN a + 3 ELSE a)]
                  n == lens[f[1]]
              IN n > 0 /\ (f[2] \in {"g1", "v01"} => n > 1) /\ (f[2] \in {"s1:9", "s0:-1", "s9:0:-1"} => n > 1)

------------------------------------------------------------------------------
(* A product and what is added to it.                                            *)
LinFeat == << {"w", "wT", "rt", "w3"}, {"r2", "r3", "r1"}, {"none", "vec", "row", "col", "one", "scalar", "full", "rt"}, {"right", "left"}, {"none", "out", "later", "gap", "twice"} >>
Lin(f) ==
  LET xs == CASE f[2] = "r1" -> <<3>> [] f[2] = "r2" -> <<2, 3>> [] OTHER -> <<2, 2, 3>>
      w == CASE f[1] = "wT" -> Dat(<<2, 3>>, 2) [] f[1] = "w3" -> Dat(<<2, 3, 2>>, 2) [] OTHER -> Dat(<<3, 2>>, 2)
      b == CASE f[3] = "vec" -> Dat(<<2>>, 3) [] f[3] = "row" -> Dat(<<1, 2>>, 4) [] f[3] = "col" -> Dat(<<2, 1>>, 5) [] f[3] = "one" -> Dat(<<1>>, 6) [] f[3] = "scalar" -> Dat(<<>>, 7)
             [] f[3] = "full" -> Dat(<<2, 2, 2>>, 8) [] OTHER -> Dat(<<2>>, 9)
      wn == IF f[1] = "wT" THEN "wt" ELSE "w"
      add == IF f[3] = "none" THEN <<>> ELSE <<Nd("Add", NA, IF f[4] = "left" THEN <<"b", "m">> ELSE <<"m", "b">>, "y")>>
  IN [ins |-> <<In1("x", Dat(xs, 1))>> \o If1(f[1] = "rt", <<In1("w", w)>>) \o If1(f[3] = "rt", <<In1("b", b)>>),
      inits |-> If1(f[1] # "rt", <<Ini("w", w)>>) \o If1(f[3] \notin {"none", "rt"}, <<Ini("b", b)>>),
      nodes |-> If1(f[1] = "wT", <<Nd("Transpose", [perm |-> AIs(<<1, 0>>)], <<"w">>, "wt")>>) \o <<Nd("MatMul", NA, <<"x", wn>>, "m")>>
                \o If1(f[5] = "gap", <<Nd("Relu", NA, <<"x">>, "g")>>) \o add \o If1(f[5] = "later", <<Nd("Relu", NA, <<"m">>, "z")>>)
                \o If1(f[5] = "twice", <<Nd("MatMul", NA, <<"x", wn>>, "m2"), Nd("Add", NA, <<"m2", "m">>, "z")>>),
      outs |-> <<IF f[3] = "none" THEN "m" ELSE "y">> \o If1(f[5] = "out" /\ f[3] # "none", <<"m">>) \o If1(f[5] \in {"later", "twice"}, <<"z">>) \o If1(f[5] = "gap", <<"g">>)]

------------------------------------------------------------------------------
(* Chains of rewritable nodes: each link is an identity, an idempotent or an     *)
(* ordinary node; longer than what one pass removes at a time.                   *)
ChainFeat == << {1, 2, 3, 5, 9, 14}, {"add0", "mul1", "identity", "relu", "ceil", "neg", "cast", "transpose", "mixed"}, {"none", "mid", "in"}, {"F32", "scalar"} >>
Chain(f) ==
  LET n == f[1]
      kind(j) == IF f[2] = "mixed" THEN <<"add0", "relu", "identity", "mul1", "neg">>[1 + (j % 5)] ELSE f[2]
      nm(j) == IF j = 0 THEN "x" ELSE "t" \o ToString(j)
      link(j) == CASE kind(j) = "add0" -> Nd("Add", NA, <<nm(j - 1), "zero">>, nm(j)) [] kind(j) = "mul1" -> Nd("Mul", NA, <<"one", nm(j - 1)>>, nm(j))
                   [] kind(j) = "identity" -> Nd("Identity", NA, <<nm(j - 1)>>, nm(j)) [] kind(j) = "relu" -> Nd("Relu", NA, <<nm(j - 1)>>, nm(j))
                   [] kind(j) = "ceil" -> Nd("Ceil", NA, <<nm(j - 1)>>, nm(j)) [] kind(j) = "neg" -> Nd("Neg", NA, <<nm(j - 1)>>, nm(j))
                   [] kind(j) = "cast" -> Nd("Cast", [to |-> AI(1)], <<nm(j - 1)>>, nm(j)) [] OTHER -> Nd("Transpose", [perm |-> AIs(<<1, 0>>)], <<nm(j - 1)>>, nm(j))
      ks == {kind(j) : j \in 1..n}
  IN [ins |-> <<In1("x", IF f[4] = "scalar" THEN Dat(<<>>, 1) ELSE Dat(<<2, 3>>, 1))>>,
      inits |-> If1("add0" \in ks, <<Ini("zero", Scal("F32", Zero))>>) \o If1("mul1" \in ks, <<Ini("one", Scal("F32", One))>>),
      nodes |-> [j \in 1..n |-> link(j)] \o <<Nd("Abs", NA, <<nm(n)>>, "y")>>,
      outs |-> <<"y">> \o If1(f[3] = "mid", <<nm((n + 1) \div 2)>>) \o If1(f[3] = "in", <<nm(1), nm(n)>>)]
ChainOk(f) == f[4] = "scalar" => f[2] \in {"add0", "mul1", "identity", "neg"}

------------------------------------------------------------------------------
Feat == CASE Pattern = "attention" -> AttnFeat [] Pattern = "permute" -> PermFeat [] Pattern = "constshape" -> ConstFeat [] Pattern = "linear" -> LinFeat [] OTHER -> ChainFeat
Build(f) == CASE Pattern = "attention" -> Attn(f) [] Pattern = "permute" -> Perm(f) [] Pattern = "constshape" -> Const(f) [] Pattern = "linear" -> Lin(f) [] OTHER -> Chain(f)
Ok(f) == CASE Pattern = "constshape" -> ConstOk(f) /\ ~(f[4] = "expand" /\ f[2] \in {"g0", "g1", "g-1"})
           [] Pattern = "chain" -> ChainOk(f)
           [] Pattern = "permute" -> (f[4] = "slice" => f[5] # "none" \/ f[2] = "self")
           [] Pattern = "linear" -> (f[1] = "w3" => f[2] = "r3") /\ (f[2] = "r1" => f[3] \notin {"full", "col"}) /\ (f[3] = "none" => f[4] = "right" /\ f[5] \in {"none", "twice"})
                                    /\ (f[3] = "col" => f[2] # "r1") /\ (f[1] = "rt" => f[5] = "none")
           [] Pattern = "attention" -> (f[1] = "pre" => f[2] \in {"both", "bothrt", "none", "mul"}) /\ (f[1] \in {"other", "pre", "swapshare"} => f[3] \in {"none", "right"} /\ f[4] = -1)
                                       /\ (f[2] = "vec" => f[3] = "none") /\ (f[4] # -1 => f[3] \in {"none", "right"} /\ f[5] = "none") /\ (f[5] = "vleft" => f[3] = "none" /\ f[1] = "swap")
                                       /\ (f[3] \in {"left", "right4", "scalar"} => f[5] \in {"none", "scores"})
           [] OTHER -> TRUE

VARIABLE feat
Init == feat = <<>>
Next == Len(feat) < Len(Feat) /\ \E v \in Feat[Len(feat) + 1] : feat' = Append(feat, v)

Code(v) == Len(ToString(v)) + (13 * Len(feat))
Num1(f) == FoldS(LAMBDA h, k : ((h * 31) + CHOOSE j \in 1..Cardinality(Feat[k]) : SetToSeq(Feat[k])[j] = f[k]) % 60013, 7, Iota(Len(f)))
Emit == (Len(feat) = Len(Feat) /\ Ok(feat) /\ Num1(feat) % Of = Keep) =>
  LET m == Build(feat)
      used == UNION {{m.nodes[j].in[k] : k \in 1..Len(m.nodes[j].in)} : j \in 1..Len(m.nodes)}
      inits == SelectSeq(m.inits, LAMBDA q : q.n \in used)
      e == RunNodes(m.nodes, FoldS(LAMBDA e, q : (q.n :> q.x) @@ e, << >>, m.ins \o inits))
  IN PrintT("@@" \o ToJson([id |-> Pattern, op |-> "program", opset |-> 18, nodes |-> m.nodes, inits |-> inits, ins |-> m.ins,
                            outs |-> [k \in 1..Len(m.outs) |-> [n |-> m.outs[k], x |-> e[m.outs[k]]]],
                            mid |-> [j \in DOMAIN m.nodes |-> [k \in DOMAIN m.nodes[j].out |-> IF m.nodes[j].out[k] \in DOMAIN e THEN <<e[m.nodes[j].out[k]]>> ELSE <<>>]]]))
==============================================================================
