------------------------------- MODULE Weights -------------------------------
(* Weights: layers of every kind, one or two of them, side by side, sharing weights,  *)
(* or inside branches and bodies; generated with weights in a file or embedded, and   *)
(* loaded in every way, again and again. The layers are models of one operator read   *)
(* from a file (its one input is the data, its initializers are the weights).         *)
EXTENDS Control

CONSTANT File
VARIABLES at, hist
Found == JsonDeserialize(File)

\* --- a copy of a layer: names start with p, weights are those of the layer moved by v places
Turn(x, v) == [x EXCEPT !.v = [k \in DOMAIN x.v |-> x.v[(((k + v) - 1) % Len(x.v)) + 1]]]
Copy(c, p, v, src) ==
    LET inp == c.ins[1].n
        ren(n) == CASE n = "" -> "" [] n = inp -> src [] OTHER -> p \o n
    IN [inits |-> [k \in DOMAIN c.inits |-> Ini(p \o c.inits[k].n, IF c.inits[k].x.t = "F32" THEN Turn(c.inits[k].x, v) ELSE c.inits[k].x)],
        nodes |-> [k \in DOMAIN c.nodes |-> [c.nodes[k] EXCEPT !.in = [j \in DOMAIN @ |-> ren(@[j])], !.out = [j \in DOMAIN @ |-> ren(@[j])]]],
        out |-> p \o c.outs[1].n, x |-> c.outs[1].x]
Sub1(c) == G(<<>>, c.inits, c.nodes, <<c.out>>, (c.out :> c.x), <<>>)
Inp(c) == In1("x", c.ins[1].x)

Main2(c) == LET a == Copy(c, "a", 0, "x") b == Copy(c, "b", 1, "x")
            IN [ins |-> <<Inp(c)>>, inits |-> a.inits \o b.inits, nodes |-> a.nodes \o b.nodes, outs |-> <<a.out, b.out>>]
\* Two layers with the same weights.
Share(c) == LET a == Copy(c, "a", 0, "x") b == Copy(c, "a", 0, "xx")
                n == Len(b.nodes)
                last == [b.nodes[n] EXCEPT !.out = [j \in DOMAIN @ |-> IF @[j] = "" THEN "" ELSE "b" \o @[j]]]
            IN [ins |-> <<Inp(c)>>, inits |-> a.inits, nodes |-> <<Nd("Sigmoid", N1, <<"x">>, <<"xx">>)>> \o a.nodes \o <<last>>, outs |-> <<a.out, "b" \o a.out>>]
Branches(c, v) == [ins |-> <<Inp(c), In1("c", BScal(v))>>, inits |-> <<>>,
                   nodes |-> <<Nd("If", [then_branch |-> AG(Sub1(Copy(c, "a", 0, "x"))), else_branch |-> AG(Sub1(Copy(c, "b", 1, "x")))], <<"c">>, <<"r">>)>>, outs |-> <<"r">>]
MainIf(c, v) == LET m == Copy(c, "m", 2, "x") b == Branches(c, v)
                IN [b EXCEPT !.inits = m.inits, !.nodes = m.nodes \o @, !.outs = <<m.out, "r">>]
\* Weights of the graph around, used in a branch.
Captured(c, v) == LET a == Copy(c, "a", 0, "x") b == Copy(c, "b", 1, "x")
                  IN [ins |-> <<Inp(c), In1("c", BScal(v))>>, inits |-> a.inits \o b.inits,
                      nodes |-> <<Nd("If", [then_branch |-> AG(Sub1([a EXCEPT !.inits = <<>>])), else_branch |-> AG(Sub1([b EXCEPT !.inits = <<>>]))], <<"c">>, <<"r">>)>>, outs |-> <<"r">>]
Zero0(x) == [x EXCEPT !.v = [k \in DOMAIN x.v |-> I(1)]]
\* s := s + layer(x), in a loop.
BodyOf(a, pre) == G(<<"i", "ci", "s">>, a.inits, a.nodes \o <<Nd("Add", N1, <<"s", a.out>>, <<"t">>), Nd("Identity", N1, <<"ci">>, <<"co">>)>>, <<"co", "t">>,
                    ("i" :> IScal(0)) @@ ("ci" :> BScal(TRUE)) @@ ("co" :> BScal(TRUE)) @@ ("s" :> a.x) @@ ("t" :> a.x), <<>>)
Looped(c, n) == LET a == Copy(c, "a", 1, "x")
                IN [ins |-> <<Inp(c), In1("s0", Zero0(a.x))>>, inits |-> <<Ini("mx", IScal(n))>>, nodes |-> <<Nd("Loop", [body |-> AG(BodyOf(a, ""))], <<"mx", "", "s0">>, <<"r">>)>>, outs |-> <<"r">>]
Scanned(c) == LET a == Copy(c, "a", 1, "x")
                  body == G(<<"s", "e">>, a.inits, a.nodes \o <<Nd("Add", N1, <<"s", a.out>>, <<"t">>), Nd("Neg", N1, <<"e">>, <<"o">>)>>, <<"t", "o">>,
                            ("s" :> a.x) @@ ("t" :> a.x) @@ ("e" :> X2) @@ ("o" :> X2), <<X2>>)
              IN [ins |-> <<Inp(c), In1("s0", Zero0(a.x)), In1("xs", Dat("F32", <<3, 2>>, 1))>>, inits |-> <<>>,
                  nodes |-> <<Nd("Scan", [body |-> AG(body), num_scan_inputs |-> AI(1)], <<"s0", "xs">>, <<"r", "rs">>)>>, outs |-> <<"r">>]
\* A branch of an If in a body of a Loop, and one beside it.
Nested(c, v) == LET a == Copy(c, "a", 1, "x") b == Copy(c, "b", 0, "x") d == Copy(c, "d", 2, "x")
                    body == G(<<"i", "ci", "s">>, d.inits, d.nodes \o <<Nd("If", [then_branch |-> AG(Sub1(a)), else_branch |-> AG(Sub1(b))], <<"c">>, <<"q">>), Nd("Add", N1, <<"s", "q">>, <<"t0">>), Nd("Add", N1, <<"t0", d.out>>, <<"t">>),
                              Nd("Identity", N1, <<"ci">>, <<"co">>)>>, <<"co", "t">>, ("i" :> IScal(0)) @@ ("ci" :> BScal(TRUE)) @@ ("co" :> BScal(TRUE)) @@ ("s" :> a.x) @@ ("t" :> a.x), <<>>)
                IN [ins |-> <<Inp(c), In1("c", BScal(v)), In1("s0", Zero0(a.x))>>, inits |-> <<Ini("mx", IScal(2))>>, nodes |-> <<Nd("Loop", [body |-> AG(body)], <<"mx", "", "s0">>, <<"r">>)>>, outs |-> <<"r">>]
ScanIf(c, v) == LET s == Scanned(c) b == Copy(c, "b", 0, "x")
                    g == [s.nodes[1] EXCEPT !.out = <<"h", "hs">>]
                IN [ins |-> s.ins \o <<In1("c", BScal(v))>>, inits |-> <<>>,
                    nodes |-> <<Nd("If", [then_branch |-> AG(G(<<>>, <<>>, <<g>>, <<"h">>, ("h" :> b.x), <<>>)), else_branch |-> AG(Sub1(b))], <<"c">>, <<"r">>)>>, outs |-> <<"r">>]
Places == {"main2", "share", "then", "else", "mainif", "cap", "capelse", "loop", "loop0", "scan", "nestthen", "nestelse", "scanif"}
Place(c, p) == CASE p = "main2" -> Main2(c) [] p = "share" -> Share(c) [] p = "then" -> Branches(c, TRUE) [] p = "else" -> Branches(c, FALSE) [] p = "mainif" -> MainIf(c, TRUE)
                 [] p = "cap" -> Captured(c, TRUE) [] p = "capelse" -> Captured(c, FALSE) [] p = "loop" -> Looped(c, 2) [] p = "loop0" -> Looped(c, 0) [] p = "scan" -> Scanned(c)
                 [] p = "nestthen" -> Nested(c, TRUE) [] p = "nestelse" -> Nested(c, FALSE) [] p = "scanif" -> ScanIf(c, TRUE)
PInit == feat = <<>> /\ hist = <<>> /\ \E k \in DOMAIN Found, p \in Places : at = <<k, p>>
PEmit == PrintT("@@" \o ToJson([k |-> at[1], place |-> at[2], case |-> Full(Place(Found[at[1]], at[2]))]))
WStop == FALSE /\ UNCHANGED <<feat, at, hist>>

\* --- loading: what a process does with one generated module
\* "default" and "file" read the weights file; "embedded" (and default of an embedding module) do not need it.
Ways(embed) == IF embed THEN {"default", "embedded"} ELSE {"default", "file"}
LInit == feat = <<>> /\ at = <<>> /\ hist = <<>>
LNext == Len(hist) < 3 /\ \E e \in BOOLEAN : (\A k \in DOMAIN hist : hist[k].embed = e) /\ \E w \in Ways(e) : hist' = Append(hist, [embed |-> e, way |-> w]) /\ UNCHANGED <<feat, at>>
LEmit == Len(hist) = 3 => PrintT("@@" \o ToJson(hist))

\* --- the judge: [id, written, file, loads]; file and params are sequences of [path, s, t, v] (v: the number of the values);
\* loads[k] = [params, result]: result 0 if the outputs are those of the specification.
Set(s) == {s[k] : k \in DOMAIN s}
Say(o) == LET files == Set(o.file)
              paths == {f.path : f \in files}
          IN (IF o.written # Len(o.file) THEN {"a parameter is written twice"} ELSE {})
             \union UNION {LET ps == Set(o.loads[k].params)
                               names == {q.path : q \in ps}
                           IN (IF Cardinality(names) # Len(o.loads[k].params) THEN {"a parameter has the path of another"} ELSE {})
                              \union (IF names \ paths # {} THEN {"a parameter is not in the file"} ELSE {})
                              \union (IF paths \ names # {} THEN {"the file holds what is no parameter"} ELSE {})
                              \union (IF \E q \in ps, f \in files : q.path = f.path /\ (q.s # f.s \/ q.t # f.t) THEN {"a parameter is of another type or shape than in the file"} ELSE {})
                              \union (IF \E q \in ps, f \in files : q.path = f.path /\ q.v # f.v THEN {"a parameter is not what the file holds"} ELSE {})
                              \union (IF o.loads[k].result # 0 THEN {"the model loaded gives other results"} ELSE {}) : k \in DOMAIN o.loads}
WJInit == feat = <<>> /\ hist = <<>> /\ at \in DOMAIN Found
WJEmit == PrintT("@@" \o ToJson([id |-> Found[at].id, say |-> Say(Found[at])]))
=============================================================================
