------------------------------- MODULE Logger -------------------------------
(* Logging and panics in one process: which logger is in charge, and the     *)
(* panic hook, a stack of layers (outermost first) of which some pass on to  *)
(* the next.  An initialisation that succeeds puts a logging layer on top.   *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json

CONSTANTS MaxLen, Events

VARIABLES sub,      \* "none", "ours", "foreign"
          hook,     \* layers: "log", "default", <<"hook", n>>, <<"chain", n>> written as records
          hist, obs
vars == <<sub, hook, hist, obs>>

L(k, n) == [k |-> k, n |-> n]
Init == sub = "none" /\ hook = <<L("default", 0)>> /\ hist = <<>> /\ obs = <<>>

\* What a panic with message n is seen by, in order.
RECURSIVE Seen(_)
Seen(h) == IF h = <<>> THEN <<>>
           ELSE LET t == Head(h) IN
             CASE t.k = "default" -> <<"stderr">>
               [] t.k = "hook"    -> <<"hook " \o ToString(t.n)>>
               [] t.k = "chain"   -> <<"hook " \o ToString(t.n)>> \o Seen(Tail(h))
               [] OTHER           -> (IF sub = "ours" THEN <<"log">> ELSE <<>>) \o Seen(Tail(h))

DoInit == IF sub = "none" THEN <<"ours", <<L("log", 0)>> \o hook>> ELSE <<sub, hook>>
N == Len(hist) + 1
Step(e, s, h, o) == /\ hist' = Append(hist, e) /\ sub' = s /\ hook' = h /\ obs' = Append(obs, o)

Next == /\ Len(hist) < MaxLen
        /\ \E e \in Events :
           CASE e = "init"    -> Step(e, DoInit[1], DoInit[2], <<IF sub = "none" THEN "init ok" ELSE "init err">>)
             [] e = "new"     -> Step(e, DoInit[1], DoInit[2], <<>>)
             [] e = "race"    -> Step(e, DoInit[1], DoInit[2], <<IF sub = "none" THEN "race 1" ELSE "race 0">>)
             [] e = "hook"    -> Step(e, sub, <<L("hook", N)>>, <<>>)
             [] e = "chain"   -> Step(e, sub, <<L("chain", N)>> \o hook, <<>>)
             [] e = "reset"   -> Step(e, sub, <<L("default", 0)>>, <<>>)
             [] e \in {"panic", "tpanic", "apanic"} -> Step(e, sub, hook, Seen(hook))
             [] e \in {"foreign", "flog"} -> Step(e, IF sub = "none" THEN "foreign" ELSE sub, hook, <<IF sub = "none" THEN "foreign true" ELSE "foreign false">>)
             [] OTHER         -> Step(e, sub, hook, IF sub = "ours" THEN <<"debug">> ELSE <<>>)
        /\ Len(hist') = MaxLen => PrintT("@@" \o ToJson([hist |-> hist', obs |-> obs']))

\* A panic is never hidden: the hook at the end of the stack, a terminal one, is always reached, exactly once;
\* and there is at most one logging layer.
Terminal(h) == h[Len(h)].k \in {"default", "hook"}
OneLog == Cardinality({i \in DOMAIN hook : hook[i].k = "log"}) <= 1
NotHidden == Terminal(hook) /\ Len(SelectSeq(Seen(hook), LAMBDA x : x # "log")) = Cardinality({i \in DOMAIN hook : hook[i].k # "log"})
OnlyFirst == Cardinality({i \in DOMAIN hist : hist[i] = "init" /\ obs[i] = <<"init ok">>}) <= 1
=============================================================================
