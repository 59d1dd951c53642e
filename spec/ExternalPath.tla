---------------------------- MODULE ExternalPath ----------------------------
(* Where an external_data location leads.  The file system is explicit: a    *)
(* tree of directories, files and symbolic links under a scratch root, with  *)
(* the model's directory "base" in it and things outside.  Resolution walks  *)
(* it link by link, as POSIX does.                                           *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS Links1,     \* number of link targets tried for base/l
          Links2,     \* ... for base/l2
          Links3,     \* ... for base/d/m
          Depth       \* longest location, in components

\* Link targets: [abs, comps]; absolute ones start at the scratch root.
T(a, c) == [abs |-> a, comps |-> c]

Targets == << T(FALSE, <<"f">>), T(FALSE, <<"..", "out", "x">>), T(FALSE, <<"d">>), T(FALSE, <<"..", "out">>),
              T(TRUE, <<"out", "x">>), T(TRUE, <<"base", "f">>), T(FALSE, <<"..", "base-evil", "x">>),
              T(FALSE, <<"..", "base", "d", "g">>), T(FALSE, <<"..">>), T(FALSE, <<".">>), T(FALSE, <<"missing">>),
              T(FALSE, <<"l2">>), T(TRUE, <<"base">>), T(FALSE, <<"d", "..", "f">>), T(FALSE, <<"d", "m">>),
              T(TRUE, <<"base-evil">>), T(FALSE, <<"d", "..", "..", "out", "x">>) >>
Targets2 == << T(FALSE, <<"..", "out", "x">>), T(FALSE, <<"d", "g">>), T(FALSE, <<"..", "out">>), T(FALSE, <<"l">>),
               T(TRUE, <<"base", "d">>), T(FALSE, <<"f">>), T(TRUE, <<"out">>) >>
Targets3 == << T(FALSE, <<"..", "f">>), T(FALSE, <<"..", "..", "out", "x">>), T(FALSE, <<"..", "..", "out">>),
               T(FALSE, <<"..", "l">>), T(FALSE, <<"..">>), T(TRUE, <<"out", "x">>), T(FALSE, <<"g">>) >>

\* Nodes of the tree, named by their path below the scratch root.
Dirs  == {<<>>, <<"base">>, <<"base", "d">>, <<"out">>, <<"base-evil">>, <<"base", "d", "e">>}
Files == {<<"base", "f">>, <<"base", "d", "g">>, <<"out", "x">>, <<"base-evil", "x">>, <<"base", "..x">>, <<"base", "d", "e", "f">>,
          <<"base", "out">>}

VARIABLES l1, l2, l3, done
vars == <<l1, l2, l3, done>>

LinkAt(p) == CASE p = <<"base", "l">>      -> Targets[l1]
               [] p = <<"base", "l2">>     -> Targets2[l2]
               [] p = <<"base", "d", "m">> -> Targets3[l3]
               [] p = <<"blink">>          -> T(FALSE, <<"base">>)
               [] OTHER                    -> T(FALSE, <<"impossible">>)
LinkPaths == {<<"base", "l">>, <<"base", "l2">>, <<"base", "d", "m">>, <<"blink">>}

Missing == <<"?">>      \* no such file, not a directory, or too many links

Front(s) == SubSeq(s, 1, Len(s) - 1)

\* The walk: at directory p, with components cs still to go, and at most n links.
RECURSIVE Walk(_, _, _)
Walk(p, cs, n) ==
    IF cs = <<>> THEN p
    ELSE IF p \notin Dirs THEN Missing
    ELSE LET c == Head(cs)
             r == Tail(cs)
         IN IF c \in {".", ""} THEN Walk(p, r, n)
            ELSE IF c = ".." THEN IF p = <<>> THEN Missing ELSE Walk(Front(p), r, n)
            ELSE LET q == Append(p, c)
                 IN IF q \in LinkPaths
                    THEN IF n = 0 THEN Missing
                         ELSE LET t == LinkAt(q) IN Walk(IF t.abs THEN <<>> ELSE p, t.comps \o r, n - 1)
                    ELSE IF q \in Dirs \cup Files THEN Walk(q, r, n)
                    ELSE Missing

Base == <<"base">>
Inside(p) == Len(p) >= 1 /\ p[1] = "base"

\* A location: how it is written, and its components.
Loc(kind, cs) == [kind |-> kind, comps |-> cs]
Alphabet == {"f", "d", "g", "l", "l2", "m", "..", ".", "e", "out", "nope", "..x", ""}
Seqs(n) == UNION {[1..k -> Alphabet] : k \in 1..n}
Short == {<<"f">>, <<"d", "g">>, <<"l">>, <<"out", "x">>, <<"..", "f">>}
Locations == [kind : {"rel"}, comps : {s \in Seqs(Depth) : s[1] # ""}]
             \cup [kind : {"abs", "nul", "nulmid"}, comps : Short]

\* The spec of resolution: refused, missing, or the file meant.
Decide(loc) ==
    IF loc.kind # "rel" THEN <<"err">>
    ELSE IF \E i \in DOMAIN loc.comps : loc.comps[i] = ".." THEN <<"err">>
    ELSE LET p == Walk(Base, loc.comps, 12)
         IN IF p = Missing THEN <<"missing">>
            ELSE IF Inside(p) THEN <<"file">> \o p ELSE <<"err">>

Init == /\ l1 \in 1..Links1 /\ l2 \in 1..Links2 /\ l3 \in 1..Links3
        /\ done = FALSE

Resolve == /\ ~done
           /\ done' = TRUE
           /\ UNCHANGED <<l1, l2, l3>>
           /\ PrintT("@@" \o ToJson(
                [links |-> <<[at |-> <<"base", "l">>, to |-> Targets[l1]], [at |-> <<"base", "l2">>, to |-> Targets2[l2]],
                             [at |-> <<"base", "d", "m">>, to |-> Targets3[l3]]>>,
                 dirs |-> Dirs, files |-> Files,
                 locs |-> {[loc |-> x, expect |-> Decide(x)] : x \in Locations}]))
Next == Resolve

\* What containment means, over all layouts and locations.
Contained == \A x \in Locations : LET d == Decide(x) IN d[1] = "file" => d[2] = "base"
\* A location whose walk meets no link and no ".." is never refused.
NoLinks == \A x \in Locations :
    (x.kind = "rel" /\ \A i \in DOMAIN x.comps : x.comps[i] \notin {"..", "l", "l2", "m"}) => Decide(x)[1] # "err"
=============================================================================
