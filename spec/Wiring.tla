------------------------------- MODULE Wiring -------------------------------
\* An imported graph and the model it was imported from, side by side. The importer takes the model's nodes in order and appends
\* one node per model node (or one for several, or none); the specification follows the graph node by node and keeps, for every
\* name of the graph, which values of the model it can stand for. Values are known by their content on a sample, or, inside
\* bodies, by the term that computes them.
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json
CONSTANT File
Cases == JsonDeserialize(File)
Range(s) == {s[k] : k \in DOMAIN s}
RECURSIVE FoldN(_, _, _, _)
FoldN(op(_, _), acc, k, n) == IF k > n THEN acc ELSE FoldN(op, TLCEval(op(acc, k)), k + 1, n)
RECURSIVE Join(_, _)
Join(s, k) == IF k > Len(s) THEN "" ELSE s[k] \o "," \o Join(s, k + 1)
Has(f, n) == n \in DOMAIN f

------------------------------------------------------------------------------
\* The model: canonical names of its values. A value of known content is its content; another one is the term that makes it.
\* A scope: [canon: name -> canonical, type: canonical -> [t, s] or none, cont: canonical -> content]
Known(v) == v.c # ""
CanonOf(v) == v.c \o ToString(v.s)
Shapes(s) == s
Merge(f, g) == g @@ f
\* g: graph of the model, up: scope around it, path: where it is
Scope(g, up, path) ==
  LET known == {k \in DOMAIN g.vals : Known(g.vals[k])}
      base == [canon |-> FoldN(LAMBDA e, k : IF Known(g.vals[k]) THEN (g.vals[k].n :> CanonOf(g.vals[k])) @@ e ELSE e,
                               FoldN(LAMBDA e, k : (g.ins[k] :> (path \o "$" \o g.ins[k])) @@ e, up.canon, 1, Len(g.ins)), 1, Len(g.vals)),
               type |-> FoldN(LAMBDA e, k : IF Known(g.vals[k]) THEN (CanonOf(g.vals[k]) :> [t |-> g.vals[k].t, s |-> g.vals[k].s]) @@ e ELSE e, up.type, 1, Len(g.vals)),
               cont |-> FoldN(LAMBDA e, k : IF Known(g.vals[k]) THEN (CanonOf(g.vals[k]) :> g.vals[k].c) @@ e ELSE e, up.cont, 1, Len(g.vals))]
      own == {g.vals[k].n : k \in known}
      term(sc, j, o) ==
        LET m == g.nodes[j]
            nm == m.out[o]
        IN IF nm \in own THEN sc
           ELSE [sc EXCEPT !.canon = (nm :> IF m.op = "Identity" /\ Has(sc.canon, m.in[1]) THEN sc.canon[m.in[1]]
                   ELSE (IF m.subs = <<>> THEN m.op \o "@" \o m.at ELSE path \o "/" \o ToString(j)) \o "("
                        \o Join([k \in DOMAIN m.in |-> IF Has(sc.canon, m.in[k]) THEN sc.canon[m.in[k]] ELSE "?"], 1) \o ")#" \o ToString(o)) @@ @]
      nodes == FoldN(LAMBDA sc, j : FoldN(LAMBDA s2, o : term(s2, j, o), sc, 1, Len(g.nodes[j].out)), base, 1, Len(g.nodes))
      \* declared types of a body's values
      decl == {k \in DOMAIN g.vals : ~Known(g.vals[k]) /\ Has(nodes.canon, g.vals[k].n)}
  IN [nodes EXCEPT !.type = FoldN(LAMBDA e, k : IF k \in decl THEN (nodes.canon[g.vals[k].n] :> [t |-> g.vals[k].t, s |-> g.vals[k].s]) @@ e ELSE e, nodes.type, 1, Len(g.vals))]
NoScope == [canon |-> << >>, type |-> << >>, cont |-> << >>]

------------------------------------------------------------------------------
\* The graph. rel: name -> canonical names it can stand for; Whole when a node replaces several of the model's.
Whole == "*"
Content(a) == a.c # ""
\* Whether operand a of the graph is the model's value n
Is(a, n, sc, rel) ==
  IF n = "" THEN a.src = "Optional"
  ELSE /\ a.src # "Optional"
       /\ IF Content(a) THEN Has(sc.canon, n) /\ (sc.canon[n] \in DOMAIN sc.cont /\ sc.cont[sc.canon[n]] = a.c)
          ELSE Has(rel, a.n) /\ (Whole \in rel[a.n] \/ (Has(sc.canon, n) /\ sc.canon[n] \in rel[a.n]))
Suffix == {"1d", "2d", "3d"}
SameOp(m, o) == \/ m = o
                \/ \E d \in Suffix : o = m \o d
                \/ <<m, o>> \in {<<"RNN", "Rnn">>, <<"LSTM", "Lstm">>, <<"GRU", "Gru">>}
OperandsOf(x) == SubSeq(x.in, 1, Len(x.in) - Len(x.refs))
Max(a, b) == IF a > b THEN a ELSE b
Matches(m, x, sc, rel) ==
  /\ SameOp(m.op, x.op)
  /\ LET os == OperandsOf(x)
     IN \A k \in 1..Max(Len(os), Len(m.in)) :
          LET n == IF k > Len(m.in) THEN "" ELSE m.in[k]
          IN IF k > Len(os) THEN n = "" ELSE Is(os[k], n, sc, rel)
\* Nodes of the graph that stand for several of the model's.
Fused(on) == {"Linear"} \union (IF on THEN {"Attention", "Transpose"} ELSE {})
LinearOk(m, x, sc, rel) == x.op = "Linear" /\ m.op \in {"Gemm", "MatMul"} /\ Is(x.in[1], m.in[1], sc, rel)

TypeOk(a, ty) ==
  /\ a.t = ty.t
  /\ CASE a.k = "Tensor" -> a.r = Len(ty.s) /\ (a.has => Len(a.st) = Len(ty.s) /\ \A k \in DOMAIN a.st : a.st[k] = <<>> \/ a.st[k][1] = ty.s[k])
       [] a.k = "Shape" -> ty.t = "I64" /\ Len(ty.s) = 1 /\ ty.s[1] = a.r
       [] OTHER -> ty.s = <<>>
Typed(a, cs, sc) == {c \in cs : c = Whole \/ ~Has(sc.type, c) \/ TypeOk(a, sc.type[c])}
ShowA(a) == a.k \o " " \o a.t \o " " \o (IF a.k = "Tensor" THEN (IF a.has THEN ToString([k \in DOMAIN a.st |-> IF a.st[k] = <<>> THEN "?" ELSE ToString(a.st[k][1])]) ELSE "rank " \o ToString(a.r))
                                        ELSE IF a.k = "Shape" THEN ToString(a.r) ELSE "")
ShowT(cs, sc) == LET c == CHOOSE c \in cs : TRUE IN sc.type[c].t \o " " \o ToString(sc.type[c].s)
Lie(what, a, cs, sc) == "C08 " \o what \o ": " \o ShowA(a) \o " but the value is " \o ShowT(cs, sc)
\* What an output o (number k) of node x stands for
Stands(x, k, ms, g, sc, on) ==
  LET a == x.out[k]
  IN IF x.op = "Constant" \/ Content(a) THEN {c \in DOMAIN sc.cont : sc.cont[c] = a.c}
     ELSE LET hit == {sc.canon[g.nodes[m].out[k]] : m \in {m \in ms : k <= Len(g.nodes[m].out) /\ g.nodes[m].out[k] # ""}}
          IN IF ms = {} /\ x.op \in Fused(on) THEN {Whole} ELSE hit
Show(x) == x.n \o " (" \o x.op \o ")"

\* Names read anywhere in a graph
RECURSIVE Reads(_)
Reads(h) == {h.outs[k].n : k \in DOMAIN h.outs}
            \union UNION {{h.nodes[j].in[k].n : k \in DOMAIN h.nodes[j].in} \union UNION {Reads(h.nodes[j].subs[q]) : q \in DOMAIN h.nodes[j].subs} : j \in DOMAIN h.nodes}
NodeReads(x) == {x.in[k].n : k \in DOMAIN x.in} \union UNION {Reads(x.subs[q]) : q \in DOMAIN x.subs}
\* Walk(g, h, sc, rel0, on): the graph h against the model's g. A state is [rel, bad, lies]: lies are the names of wrong types.
RECURSIVE Walk(_, _, _, _, _, _)
Step(g, h, sc, st, j, on, path) ==
  LET x == h.nodes[j]
      undefined == {x.in[k].n : k \in {k \in DOMAIN x.in : x.in[k].src \in {"Dynamic", "Constant"} /\ ~Content(x.in[k]) /\ ~Has(st.rel, x.in[k].n)}}
      \* values listed as captured that the node's own bodies provide need not exist outside
      provided == UNION {{x.subs[q].ins[k].n : k \in DOMAIN x.subs[q].ins} : q \in DOMAIN x.subs}
      ms == IF x.op = "Constant" THEN {} ELSE {m \in DOMAIN g.nodes : Matches(g.nodes[m], x, sc, st.rel)}
      lin == {m \in DOMAIN g.nodes : LinearOk(g.nodes[m], x, sc, st.rel)}
      all == IF x.op = "Linear" THEN {} ELSE ms
      outs == [k \in DOMAIN x.out |-> Stands(x, k, all, g, sc, on)]
      typed == [k \in DOMAIN x.out |-> Typed(x.out[k], outs[k], sc)]
      \* the bodies: captured names stand for what the operand they come with stands for
      os == Len(x.in) - Len(x.refs)
      inner == FoldN(LAMBDA e, k : LET a == x.in[os + k] IN
                       (x.refs[k] :> IF Content(a) THEN {c \in DOMAIN sc.cont : sc.cont[c] = a.c} ELSE IF Has(st.rel, a.n) THEN st.rel[a.n] ELSE {}) @@ e, st.rel, 1, Len(x.refs))
      bodies(m) == UNION {Walk(g.nodes[m].subs[q], x.subs[q], sc, inner, on, path \o "/" \o ToString(m) \o "." \o ToString(q)).bad : q \in DOMAIN x.subs}
      tried == IF x.subs = <<>> THEN {} ELSE {bodies(m) : m \in ms}
      subs == IF tried = {} \/ {} \in tried THEN {} ELSE CHOOSE b \in tried : \A b2 \in tried : Cardinality(b) <= Cardinality(b2)
      \* only the first wrong type on a path is reported
      misled == {x.in[k].n : k \in DOMAIN x.in} \cap st.lies
      lies == {x.out[k].n : k \in {k \in DOMAIN x.out : outs[k] # {} /\ typed[k] = {}}}
      bad == (IF undefined \ provided # {} THEN {"C03 " \o Show(x) \o " reads " \o ToString(undefined \ provided) \o ", which nothing before it makes"} ELSE {})
             \union (IF x.op # "Constant" /\ ms = {} /\ x.op \notin Fused(on) THEN {"C03 " \o Show(x) \o " has the operands of no node of the model"} ELSE {})
             \union (IF x.op = "Linear" /\ lin = {} THEN {"C03 " \o Show(x) \o " has the operand of no product of the model"} ELSE {})
             \union {Lie(Show(x), x.out[k], outs[k], sc) : k \in {k \in DOMAIN x.out : misled = {} /\ x.op # "Constant" /\ outs[k] # {} /\ typed[k] = {}}}
  IN [rel |-> FoldN(LAMBDA e, k : (x.out[k].n :> IF typed[k] = {} THEN outs[k] ELSE typed[k]) @@ e, st.rel, 1, Len(x.out)),
      bad |-> st.bad \union bad \union subs,
      lies |-> st.lies \union lies]
Live(h) ==
  LET n == Len(h.nodes)
  IN FoldN(LAMBDA l, i : LET x == h.nodes[n + 1 - i] IN
             IF \E k \in DOMAIN x.out : x.out[k].n \in l.names THEN [l EXCEPT !.names = @ \union NodeReads(x)] ELSE [l EXCEPT !.dead = @ \union {Show(x)}],
           [names |-> {h.outs[k].n : k \in DOMAIN h.outs}, dead |-> {}], 1, n).dead
Walk(g, h, up, rel0, on, path) ==
  LET sc == TLCEval(Scope(g, up, path))
      start == FoldN(LAMBDA e, k : (h.ins[k].n :> IF k <= Len(g.ins) /\ Has(sc.canon, g.ins[k]) THEN {sc.canon[g.ins[k]]} ELSE {}) @@ e, rel0, 1, Len(h.ins))
      inbad == {Lie("input " \o h.ins[k].n, h.ins[k], {sc.canon[g.ins[k]]}, sc) :
                  k \in {k \in DOMAIN h.ins : k <= Len(g.ins) /\ Has(sc.canon, g.ins[k]) /\ Typed(h.ins[k], {sc.canon[g.ins[k]]}, sc) = {}}}
      end == FoldN(LAMBDA st, j : Step(g, h, sc, st, j, on, path), [rel |-> start, bad |-> inbad, lies |-> {}], 1, Len(h.nodes))
      nout == IF Len(g.outs) # Len(h.outs) THEN {"C03 " \o ToString(Len(h.outs)) \o " outputs instead of " \o ToString(Len(g.outs))} ELSE {}
      outs == {"C03 output " \o g.outs[k] \o " is not that value of the model" : k \in {k \in DOMAIN h.outs : k <= Len(g.outs) /\ ~Is(h.outs[k], g.outs[k], sc, end.rel)}}
      made == {"C03 output " \o h.outs[k].n \o " is made by nothing" : k \in {k \in DOMAIN h.outs : h.outs[k].src # "Static" /\ ~Has(end.rel, h.outs[k].n)}}
      otype == {Lie("output " \o g.outs[k], h.outs[k], {sc.canon[g.outs[k]]}, sc) :
                  k \in {k \in DOMAIN h.outs : k <= Len(g.outs) /\ h.outs[k].n \notin end.lies /\ Has(sc.canon, g.outs[k]) /\ Typed(h.outs[k], {sc.canon[g.outs[k]]}, sc) = {}}}
      \* only the main graph is simplified
      dead == IF on /\ path = "" THEN {"C18 " \o d \o " does not contribute" : d \in Live(h)} ELSE {}
      \* an Identity that stays has to turn a value that comes from elsewhere into an output
      ident == IF on /\ path = "" THEN {"C18 " \o Show(h.nodes[j]) \o " has no effect" :
                 j \in {j \in DOMAIN h.nodes : h.nodes[j].op = "Identity" /\ ~(\E k \in DOMAIN h.outs : h.outs[k].n = h.nodes[j].out[1].n)}} ELSE {}
  IN [rel |-> end.rel, bad |-> end.bad \union nout \union outs \union made \union otype \union dead \union ident]
\* A name made twice where both can be seen: in one graph, or in a graph and in one around it.
RECURSIVE Twice(_, _)
Twice(h, above) ==
  LET outs == FoldN(LAMBDA a, j : a \o [k \in DOMAIN h.nodes[j].out |-> h.nodes[j].out[k].n], [k \in DOMAIN h.ins |-> h.ins[k].n], 1, Len(h.nodes))
      made == Range(outs) \ {h.ins[k].n : k \in DOMAIN h.ins}
  IN {outs[k] : k \in {k \in DOMAIN outs : \E q \in DOMAIN outs : q < k /\ outs[q] = outs[k]}} \union (made \cap above)
     \union UNION {UNION {Twice(h.nodes[j].subs[q], above \union Range(outs)) : q \in DOMAIN h.nodes[j].subs} : j \in DOMAIN h.nodes}
Once(h) == {"C03 " \o n \o " is made twice" : n \in Twice(h, {})}
Judge(c) == Walk(c.model, c.graph, NoScope, << >>, c.on, "").bad \union Once(c.graph)

VARIABLES case, bad
Init == case \in DOMAIN Cases /\ bad = Judge(Cases[case])
Next == FALSE /\ UNCHANGED <<case, bad>>
Emit == PrintT("@@" \o ToJson([id |-> Cases[case].id, on |-> Cases[case].on, bad |-> bad]))
==============================================================================
