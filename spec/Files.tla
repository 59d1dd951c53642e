-------------------------------- MODULE Files --------------------------------
(* The files of generation runs. The state is the disk: runs of ModelGen, each with  *)
(* a configuration and a list of inputs, happen one after the other on the same disk, *)
(* inputs change, disappear and fail in between. A run writes the promised files of   *)
(* its inputs and touches nothing else.                                               *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json, Randomization

CONSTANTS Full,       \* all the names and directories, or some
          Length,     \* runs in a history
          Inputs,     \* at most so many inputs of a run
          File        \* JSON of what was observed, for the judge
VARIABLES hist, id

Found == IF File = "" THEN <<>> ELSE JsonDeserialize(File)

\* --- inputs: what the file is called, and what is in it at the time of the run
Stem(s, e) == [stem |-> s, ext |-> e]
Stems == {Stem("plain", ".onnx"), Stem("a", ".onnx"), Stem("a.b", ".onnx"), Stem("a.c", ".onnx"), Stem("with space", ".onnx")}
         \union IF Full THEN {Stem("a", ""), Stem("x.onnx", ".onnx"), Stem(".hidden", ""), Stem("-dash", ".ONNX"), Stem("a.b", ".pb"), Stem("UNI", ".onnx"), Stem("v1.0.2", ".onnx"), Stem("mod", ".onnx")} ELSE {}
Dirs == {"in", "i2"}
Contents == {"relu", "layer", "truncated", "late", "missing"}
Good == {"relu", "layer"}
In == [dir : Dirs, name : Stems, kind : Contents]
Path(i) == i.dir \o "/" \o i.name.stem \o i.name.ext

\* --- configurations: the directory as it is given, and where it is
Outs == {[arg |-> "out", at |-> "out"], [arg |-> "./deep//er/", at |-> "deep/er"]}
        \union IF Full THEN {[arg |-> "ABS/abs", at |-> "abs"], [arg |-> "in", at |-> "in"], [arg |-> "x/../up", at |-> "up"]} ELSE {}
Configs == [dev : BOOLEAN, embed : BOOLEAN, simp : BOOLEAN, script : BOOLEAN, out : Outs]
Possible(c) == ~(c.script /\ c.out.arg \in {"ABS/abs", "x/../up"})
At(c) == IF c.script THEN "tgt/" \o c.out.at ELSE c.out.at

\* --- what a run does
Extensions(c) == {"rs", "bpk"} \union IF c.dev THEN {"onnx.txt", "graph.txt"} ELSE {}
Name(c, i, x) == At(c) \o "/" \o i.name.stem \o "." \o x
\* Two models of the same name would be written to the same files.
Clash(e) == \E j, k \in DOMAIN e.ins : Path(e.ins[j]) # Path(e.ins[k]) /\ e.ins[j].name.stem = e.ins[k].name.stem
Fails(e) == Clash(e) \/ \E k \in DOMAIN e.ins : e.ins[k].kind \in {"truncated", "missing"}
\* Models which are valid, but use what the code generator does not support.
Unsure(e) == \E k \in DOMAIN e.ins : e.ins[k].kind = "late"
\* What the content of a file may depend on.
Key(c, i, x) == IF x = "rs" THEN <<x, i.kind, c.simp, Path(i), c.embed, c.out.arg, c.script>> ELSE <<x, i.kind, c.simp>>

\* An input file has one content at a time.
Sane(ins) == \A j, k \in DOMAIN ins : Path(ins[j]) = Path(ins[k]) => ins[j] = ins[k]
Init == hist = <<>> /\ id = 0
Pick(S) == RandomSubset(1, S)
Event(c, ins) == [cfg |-> c, ins |-> ins]
One == {Event(c, <<i>>) : c \in {c \in Configs : Possible(c)}, i \in In}
Next == /\ Len(hist) < Length
        /\ \/ Length = 1 /\ \E e \in One : hist' = <<e>>
           \/ Length > 1 /\ \E c \in Pick({c \in Configs : Possible(c)}), n \in Pick(0..Inputs) :
                 LET pool == {i \in In : i.kind \in Good}
                     few == RandomSubset(3, pool) \union IF n > 1 THEN Pick(In) ELSE Pick(In \ pool)
                 IN \E ins \in Pick({f \in [1..n -> few] : Sane(f)}) :
                      /\ hist' = Append(hist, Event(c, ins))
        /\ UNCHANGED id
Emit == Len(hist) = Length => PrintT("@@" \o ToJson([hist |-> hist]))

\* --- the judge. Found[h] = [hist, runs]; runs[k] = [fail, before, after, loads]: whether the run failed, the numbers of the
\* contents of all files before and after it, and which file the source files load the weights from.
Solo == {h \in DOMAIN Found : Len(Found[h].hist) = 1 /\ Len(Found[h].hist[1].ins) = 1 /\ ~Fails(Found[h].hist[1]) /\ ~Found[h].runs[1].fail}
Entries == UNION {LET e == Found[h].hist[1] IN {<<Key(e.cfg, e.ins[1], x), Found[h].runs[1].after[Name(e.cfg, e.ins[1], x)]>> :
                     x \in {x \in Extensions(e.cfg) : Name(e.cfg, e.ins[1], x) \in DOMAIN Found[h].runs[1].after}} : h \in Solo}
Keys(en) == {x[1] : x \in en}
Refs(en) == [k \in Keys(en) |-> {x[2] : x \in {x \in en : x[1] = k}}]

Get(d, p) == IF p \in DOMAIN d THEN d[p] ELSE 0
Problems(e, r, refs) ==
    LET c == e.cfg
        paths == DOMAIN r.before \union DOMAIN r.after
        own(p) == {<<k, x>> \in (DOMAIN e.ins) \X Extensions(c) : Name(c, e.ins[k], x) = p}
        said == CASE r.fail /\ ~Fails(e) /\ ~Unsure(e) -> {"fails"} [] ~r.fail /\ Fails(e) -> {"does not fail"} [] OTHER -> {}
        file(p) == LET o == own(p)
                       same == Get(r.before, p) = Get(r.after, p)
                       w == CHOOSE w \in o : TRUE
                       i == e.ins[w[1]]
                       now == Get(r.after, p)
                       key == Key(c, i, w[2])
                       right == key \in DOMAIN refs /\ now \in refs[key] /\ Cardinality(refs[key]) = 1
                   IN CASE o = {} \/ Clash(e) -> IF same THEN {} ELSE {"changes another file"}
                        [] i.kind \notin Good -> IF same \/ ~r.fail \/ w[2] # "rs" THEN {} ELSE {"writes a source file for an input which fails"}
                        [] r.fail -> IF same \/ right THEN {} ELSE {"writes something else to ." \o w[2]}
                        [] OTHER -> IF right THEN {} ELSE {"writes something else to ." \o w[2]}
        promised == UNION {{Name(c, e.ins[k], x) : x \in Extensions(c)} : k \in DOMAIN e.ins}
        absent == IF r.fail \/ promised \subseteq DOMAIN r.after THEN {} ELSE {"does not write all files"}
        loads == IF r.fail THEN {} ELSE UNION {IF Get(r.loads, Name(c, e.ins[k], "rs")) = Name(c, e.ins[k], "bpk") THEN {} ELSE {"loads other weights"} : k \in DOMAIN e.ins}
    IN said \union absent \union loads \union UNION {file(p) : p \in paths \union promised}

\* Different models, and different files of a model, are not the same.
Mixed(en) == {<<x, y>> \in en \X en : x[2] = y[2] /\ (x[1][1] # y[1][1] \/ x[1][2] # y[1][2])}

JInit == hist = <<>> /\ id = 0
JNext == id = 0 /\ id' = 1 /\ UNCHANGED hist
JEmit == id = 1 => LET en == TLCEval(Entries)
                       refs == TLCEval(Refs(en))
                   IN /\ PrintT("@@" \o ToJson([keys |-> Cardinality(Keys(en)), mixed |-> Cardinality(Mixed(en))]))
                      /\ \A h \in DOMAIN Found : PrintT("@@" \o ToJson([h |-> h, say |-> [k \in DOMAIN Found[h].hist |-> Problems(Found[h].hist[k], Found[h].runs[k], refs)]]))
=============================================================================
