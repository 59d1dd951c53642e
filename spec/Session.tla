------------------------------- MODULE Session -------------------------------
(* A process that uses the importer: any sequence of imports and generations of any *)
(* models, opened in any way, with failures in between. What an event gives depends *)
(* on nothing but the model, simplification, and whether its data can be reached.   *)
EXTENDS Names, Randomization

CONSTANTS Kinds,        \* of events: "import", "gen"
          Length        \* of the histories
VARIABLE hist

\* --- the models: those of Names.tla, and some which capture many values of the graph around
Num2Str(n) == ToString(n)
WideIns(n) == [k \in 1..n |-> In1("v" \o Num2Str(k), Dat("F32", <<2, 3>>, k))]
\* y = v_a + v_b + ... in the given order.
WideSum(p, order) == [k \in 1..(Len(order) - 1) |-> Nd("Add", N1, <<IF k = 1 THEN order[1] ELSE p \o Num2Str(k - 1), order[k + 1]>>, <<p \o Num2Str(k)>>)]
Wide(n) == LET up == [k \in 1..n |-> "v" \o Num2Str(k)]
               down == [k \in 1..n |-> "v" \o Num2Str((n + 1) - k)]
               last(p) == p \o Num2Str(n - 1)
           IN [ins |-> <<In1("c", BScal(TRUE))>> \o WideIns(n), inits |-> <<>>,
               nodes |-> <<Nd("If", [then_branch |-> [ty |-> "g", v |-> G(<<>>, <<>>, WideSum("t", up), <<last("t")>>, (last("t") :> X), <<>>)],
                                     else_branch |-> [ty |-> "g", v |-> G(<<>>, <<>>, WideSum("e", down), <<last("e")>>, (last("e") :> X), <<>>)]], <<"c">>, <<"r">>),
                           Nd("Relu", N1, <<"r">>, <<"y">>)>>, outs |-> <<"y">>]
\* Many equal nodes and many constants, for merging and folding.
Merged == [ins |-> <<In1("x", Dat("F32", <<2, 3>>, 1))>>, inits |-> [k \in 1..6 |-> Ini("w" \o Num2Str(k), Dat("F32", <<3>>, k % 2))],
           nodes |-> [k \in 1..6 |-> Nd("Mul", N1, <<"x", "w" \o Num2Str(k)>>, <<"p" \o Num2Str(k)>>)] \o [k \in 1..6 |-> Nd("Sub", N1, <<"p" \o Num2Str(k), "p" \o Num2Str(((k + 2) % 6) + 1)>>, <<"q" \o Num2Str(k)>>)],
           outs |-> [k \in 1..6 |-> "q" \o Num2Str(((k * 5) % 7))]]
Layers == [ins |-> <<In1("x", Dat("F32", <<2, 3>>, 1))>>, inits |-> [k \in 1..8 |-> Ini("w" \o Num2Str(k), Dat("F32", <<3, 3>>, k))],
           nodes |-> [k \in 1..8 |-> Nd("MatMul", N1, <<IF k = 1 THEN "x" ELSE "h" \o Num2Str(k - 1), "w" \o Num2Str(k)>>, <<"h" \o Num2Str(k)>>)], outs |-> <<"h8", "h3">>]
Made == Templates @@ ("wide4" :> Wide(4)) @@ ("wide9" :> Wide(9)) @@ ("merged" :> Merged) @@ ("layers" :> Layers)
MadeInit == hist = <<>> /\ feat = <<>> /\ tpl \in DOMAIN Made /\ ren = <<>>
MadeEmit == PrintT("@@" \o ToJson([tpl |-> tpl, case |-> Full(Made[tpl])]))

\* --- the events
Used == {"layer", "merged", "wide4", "ifinloop", "scaninif", "layers", "long"}   \* "long" is "layer" after millions of characters of documentation
External == {"outside"}                       \* "layer" with its weights in a file of their own
Broken == {"truncated", "unsorted", "unknown"}
All == Used \union External \union Broken
Paths == {"abs", "rel", "bare", "dot", "updown", "slashes", "link"}
Streams == {"bytes", "reader", "slow"}
Events == (IF "import" \in Kinds THEN [do : {"import"}, m : All, way : Paths \union Streams, simp : BOOLEAN, embed : {FALSE}] ELSE {})
          \union (IF "gen" \in Kinds THEN [do : {"gen"}, m : All, way : {"abs"}, simp : BOOLEAN, embed : BOOLEAN] ELSE {})
Outcome(e) == IF e.m \in Broken \/ (e.m \in External /\ e.way \in Streams) THEN "refused" ELSE "made"
\* What the result may depend on.
Key(e) == <<e.do, e.m, e.simp, e.embed>>

SInit == feat = <<>> /\ tpl = "" /\ ren = <<>> /\ hist = <<>>
SNext == /\ Len(hist) < Length
         /\ \E e \in (IF Length = 1 THEN Events ELSE RandomSubset(1, Events)) : hist' = Append(hist, e)
         /\ UNCHANGED <<feat, tpl, ren>>
SEmit == Len(hist) = Length => PrintT("@@" \o ToJson([hist |-> hist]))

\* --- what was seen: [hist, seen]; seen[k] is the number of the result of event k, or 0 if it was refused, -1 if anything else.
\* The first histories are of one event each, in processes of their own.
Refs == {k \in DOMAIN Found : Len(Found[k].hist) = 1}
RefOf == [key \in {Key(Found[k].hist[1]) : k \in Refs} |-> LET k == CHOOSE k \in Refs : Key(Found[k].hist[1]) = key /\ (Found[k].seen[1] > 0 \/ \A j \in Refs : Key(Found[j].hist[1]) = key => Found[j].seen[1] <= 0) IN Found[k].seen[1]]
Say(e, s, ref) == CASE s < 0 -> "aborts"
                    [] Outcome(e) = "refused" /\ s > 0 -> "is accepted"
                    [] Outcome(e) = "made" /\ s = 0 -> "is refused"
                    [] s # 0 /\ s # ref -> "differs"
                    [] OTHER -> "ok"
SJInit == feat = <<>> /\ tpl = "" /\ ren = <<>> /\ hist = <<>>
SJNext == /\ tpl = "" /\ tpl' = "judged" /\ UNCHANGED <<feat, ren, hist>>
SJEmit == tpl = "judged" => LET refs == TLCEval(RefOf)
                            IN \A h \in DOMAIN Found : PrintT("@@" \o ToJson([id |-> h, say |-> [k \in DOMAIN Found[h].hist |-> Say(Found[h].hist[k], Found[h].seen[k], refs[Key(Found[h].hist[k])])]]))

\* --- repetitions: [id, seen]: the numbers of the results of one model, wherever and whenever made
RJInit == feat = <<>> /\ tpl \in DOMAIN Found /\ ren = <<>> /\ hist = <<>>
RJEmit == PrintT("@@" \o ToJson([id |-> Found[tpl].id, results |-> Cardinality({Found[tpl].seen[k] : k \in DOMAIN Found[tpl].seen})]))
Stop == FALSE /\ UNCHANGED <<feat, tpl, ren, hist>>
==============================================================================
