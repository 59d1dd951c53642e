------------------------------ MODULE Interface ------------------------------
(* The interface of a model: its inputs, used or not, with initializers listed among  *)
(* them, and its outputs, whatever they are. A model grows by inputs, initializers,   *)
(* nodes (many of which the importer removes or merges) and outputs, in any order.    *)
EXTENDS Control, Randomization

CONSTANTS File, Steps
VARIABLES m, id
Found == JsonDeserialize(File)

Types == {"F32", "F64", "F16", "I64", "I32", "I8", "U8", "Bool"}
Shapes == {<<>>, <<1>>, <<3>>, <<2, 3>>, <<1, 2, 2>>}
Elem(t, k, salt) == CASE t = "Bool" -> B(((k * k) + k + salt) % 3 > 0) [] t \in {"F32", "F64", "F16"} -> Q(Vn(k, salt), 4) [] t = "U8" -> I((k + salt) % 7) [] OTHER -> I(Vn(k, salt))
Val(t, s, salt) == MkF(t, s, LAMBDA k : Elem(t, k, salt))
Empty == [ins |-> <<>>, inits |-> <<>>, listed |-> <<>>, nodes |-> <<>>, outs |-> <<>>, env |-> << >>]
Nm(p, s) == p \o ToString(Len(s) + 1)

AddIn(t, s, dyn) == LET n == Nm("x", m.ins) IN [m EXCEPT !.ins = Append(@, [n |-> n, x |-> Val(t, s, Len(m.ins) + 2), dyn |-> dyn]), !.env = (n :> Val(t, s, Len(m.ins) + 2)) @@ @]
\* An initializer; at: where it is listed among the inputs ("no", "front", "back").
AddInit(t, s, lst) == LET n == Nm("w", m.inits) v == Val(t, s, Len(m.inits) + 5)
                      IN [m EXCEPT !.inits = Append(@, Ini(n, v)), !.env = (n :> v) @@ @, !.listed = IF lst = "no" THEN @ ELSE Append(@, [n |-> n, after |-> IF lst = "front" THEN 0 ELSE Len(m.ins)])]
AddZero == LET n == Nm("w", m.inits) v == Scal("F32", Zero) IN [m EXCEPT !.inits = Append(@, Ini(n, v)), !.env = (n :> v) @@ @]
Node(nd) == [m EXCEPT !.nodes = Append(@, nd), !.env = TLCEval(RunNodes(<<nd>>, @))]
Out1 == <<Nm("n", m.nodes)>>
Floats == {"F32", "F64"}
CanRun == DOMAIN m.env # {}
V(n) == m.env[n]
NodesOn(v) == {Nd("Identity", N1, <<v>>, Out1)}
              \union (IF V(v).t \in Floats THEN (IF V(v).s = <<>> THEN {} ELSE {Nd("Relu", N1, <<v>>, Out1)}) \union {Nd("Neg", N1, <<v>>, Out1), Nd("Add", N1, <<v, v>>, Out1)} ELSE {})
              \union (IF V(v).t = "I64" THEN {Nd("Mul", N1, <<v, v>>, Out1)} ELSE {})
              \union (IF V(v).t = "Bool" THEN {Nd("Not", N1, <<v>>, Out1)} ELSE {})
              \union (IF Len(V(v).s) > 0 THEN {Nd("Shape", N1, <<v>>, Out1)} ELSE {})
              \union (IF Len(V(v).s) > 1 THEN {Nd("Transpose", [perm |-> AIs([k \in 1..Len(V(v).s) |-> k - 1])], <<v>>, Out1)} ELSE {})
              \union (IF V(v).t = "F32" THEN {Nd("Cast", [to |-> AI(1)], <<v>>, Out1)} \union {Nd("Add", N1, <<v, w>>, Out1) : w \in {m.inits[k].n : k \in {k \in DOMAIN m.inits : m.inits[k].x = Scal("F32", Zero)}}} ELSE {})
Consts == {Nd("Constant", [value |-> AT(Val(t, s, 3))], <<>>, Out1) : t \in {"F32", "I64"}, s \in {<<>>, <<3>>}}
\* The same node once more.
Again == {[m.nodes[k] EXCEPT !.out = Out1] : k \in DOMAIN m.nodes}
Pick1(S) == IF S = {} THEN {} ELSE RandomSubset(1, S)
\* a node that yields a value of no known form would end the run
GInit == feat = <<>> /\ id = 0 /\ m = Empty
GNext == /\ Len(m.ins) + Len(m.inits) + Len(m.nodes) + Len(m.outs) < Steps
         /\ \E what \in Pick1({"in", "init", "zero", "node", "node2", "node3", "again", "const", "out", "out2", "outnode"}) :
              CASE what = "in" -> \E t \in Pick1(Types), s \in Pick1(Shapes), d \in Pick1({TRUE, FALSE, FALSE}) : m' = AddIn(t, s, d /\ s # <<>>)
                [] what = "init" -> \E t \in Pick1(Types), s \in Pick1(Shapes), l \in Pick1({"no", "front", "back"}) : m' = AddInit(t, s, l)
                [] what = "zero" -> m' = AddZero
                [] what \in {"node", "node2", "node3"} -> IF CanRun THEN \E v \in Pick1(DOMAIN m.env) : \E nd \in Pick1(NodesOn(v)) : m' = Node(nd) ELSE m' = AddIn("F32", <<2, 3>>, FALSE)
                [] what = "again" -> IF m.nodes # <<>> THEN \E nd \in Pick1(Again) : m' = Node(nd) ELSE m' = AddIn("F32", <<3>>, FALSE)
                [] what = "const" -> \E nd \in Pick1(Consts) : m' = Node(nd)
                [] what \in {"out", "out2"} -> IF CanRun THEN \E v \in Pick1(DOMAIN m.env) : m' = [m EXCEPT !.outs = IF v \in {m.outs[k] : k \in DOMAIN m.outs} THEN @ ELSE Append(@, v)] ELSE m' = AddIn("I64", <<>>, FALSE)
                [] what = "outnode" -> IF m.nodes # <<>> THEN \E k \in Pick1(DOMAIN m.nodes) : LET v == m.nodes[k].out[1] IN m' = [m EXCEPT !.outs = IF v \in {m.outs[j] : j \in DOMAIN m.outs} THEN @ ELSE Append(@, v)] ELSE m' = AddIn("F32", <<3>>, TRUE)
         /\ UNCHANGED <<feat, id>>
Ready == Len(m.ins) + Len(m.inits) + Len(m.nodes) + Len(m.outs) = Steps /\ m.outs # <<>>
\* All models with few parts, one by one: what the output is, and what else there is.
SInit == /\ feat = <<>> /\ id = 0
         /\ \E t \in Types, s \in Shapes, what \in {"input", "init", "identity", "unused", "listed", "twice", "const"} :
              LET x == [n |-> "x1", x |-> Val(t, s, 2), dyn |-> FALSE]
                  w == Ini("w1", Val(t, s, 5))
              IN m = [ins |-> <<x>> \o (IF what \in {"unused", "twice"} THEN <<[x EXCEPT !.n = "x2", !.x = Val("F32", <<3>>, 7)]>> ELSE <<>>),
                      inits |-> IF what \in {"init", "listed"} THEN <<w>> ELSE <<>>, listed |-> IF what = "listed" THEN <<[n |-> "w1", after |-> 0]>> ELSE <<>>,
                      nodes |-> CASE what \in {"identity", "unused"} -> <<Nd("Identity", N1, <<"x1">>, <<"n1">>)>>
                                  [] what = "twice" -> <<Nd("Identity", N1, <<"x1">>, <<"n1">>), Nd("Identity", N1, <<"n1">>, <<"n2">>)>>
                                  [] what = "const" -> <<Nd("Constant", [value |-> AT(w.x)], <<>>, <<"n1">>)>> [] OTHER -> <<>>,
                      outs |-> CASE what = "input" -> <<"x1">> [] what \in {"init", "listed"} -> <<"w1">> [] what = "twice" -> <<"n2", "n1">> [] OTHER -> <<"n1">>, env |-> << >>]
SNext == FALSE /\ UNCHANGED <<feat, m, id>>
EmitM == PrintT("@@" \o ToJson([case |-> Full(m), listed |-> m.listed]))
EmitReady == Ready => EmitM

\* --- the judge: [id, all, ins, outs, gotIns, gotOuts, params, results]: declared [n, t, s]; imported [n, k, t, r]; generated [n, f, r]
\* (f: "float", "int", "bool" tensor, or the type of a native scalar, or "shape" with its length as r).
Kind(t) == CASE t \in {"F32", "F64", "F16", "BF16"} -> "float" [] t = "Bool" -> "bool" [] OTHER -> "int"
Native(t) == CASE t = "F32" -> "f32" [] t = "F64" -> "f64" [] t = "I64" -> "i64" [] t = "I32" -> "i32" [] t = "I8" -> "i8" [] t = "U8" -> "u8" [] t = "Bool" -> "bool" [] t = "F16" -> "half::f16" [] t = "U32" -> "u32" [] t = "U64" -> "u64" [] OTHER -> t
TypeOk(d, g) == IF g.k = "Shape" THEN d.t = "I64" /\ Len(d.s) = 1 /\ g.r \in {d.s[1], 1} ELSE g.t = d.t /\ (IF g.k = "Tensor" THEN g.r = Len(d.s) ELSE d.s = <<>>)
FormOk(d, g) == CASE g.f = "shape" -> d.t = "I64" /\ d.s = <<g.r>>
                  [] g.f \in {"float", "int", "bool"} -> g.f = Kind(d.t) /\ (g.r = Len(d.s) \/ (d.s = <<>> /\ g.r = 1))
                  [] OTHER -> d.s = <<>> /\ g.f = Native(d.t)
\* A name of the model, or that name with something added to it.
Named(d, g) == g = d \/ (Len(g) > Len(d) + 1 /\ SubSeq(g, 1, Len(d) + 1) = d \o "_")
Said(d, g) == d.t \o " of rank " \o ToString(Len(d.s)) \o " but " \o (IF DOMAIN g = {"n", "k", "t", "r"} THEN g.k \o " " \o g.t ELSE g.f) \o " " \o ToString(g.r)
Same(what, d, g, ok(_, _), names) == IF Len(d) # Len(g) THEN {what \o "s: " \o ToString(Len(g)) \o " instead of " \o ToString(Len(d))}
                            ELSE {what \o ": " \o Said(d[k], g[k]) : k \in {k \in DOMAIN d : ~ok(d[k], g[k])}}
                                 \union (IF names THEN {what \o " " \o d[k].n \o " is called " \o g[k].n : k \in {k \in DOMAIN d : ~Named(d[k].n, g[k].n)}} ELSE {})
JInit == feat = <<>> /\ m = Empty /\ id \in DOMAIN Found
JEmit == LET o == Found[id]
         IN PrintT("@@" \o ToJson([id |-> o.id, say |-> Same("input", o.ins, o.gotIns, TypeOk, TRUE) \union Same("output", o.outs, o.gotOuts, LAMBDA d, g : ~o.all \/ TypeOk(d, g), FALSE)
                                                        \union Same("parameter", o.ins, o.params, FormOk, TRUE) \union Same("result", o.outs, o.results, LAMBDA d, g : ~o.all \/ FormOk(d, g), FALSE)]))
==============================================================================
