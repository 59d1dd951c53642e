------------------------------ MODULE Refusals ------------------------------
(* What an importer has to refuse, and what it must not refuse: models, changes made  *)
(* to them, and what the standard says of the model that results. Whether a change    *)
(* makes a model invalid is decided on the model, not on the change.                  *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC, Json, SequencesExt

CONSTANTS File,    \* models: [id, opset, nodes, inits, ins, outs]
          Depth    \* the most changes made to a model
Base == TLCEval(JsonDeserialize(File))
VARIABLES b, m, done

Set(s) == {s[k] : k \in DOMAIN s}
Attrs(n) == IF n.at = <<>> THEN {} ELSE DOMAIN n.at

\* --- operators: the version that brought them, and which operands may be left out
Since(op) ==
  CASE op \in {"Acos", "Asin", "Atan", "Cos", "Sin", "Tan"} -> 7
    [] op \in {"Expand", "Scan"} -> 8
    [] op \in {"Acosh", "Asinh", "Atanh", "Compress", "ConstantOfShape", "Cosh", "Erf", "EyeLike", "IsNaN", "MaxUnpool", "MeanVarianceNormalization", "NonZero", "OneHot", "Shrink", "Sign", "Sinh", "Where"} -> 9
    [] op \in {"ConvInteger", "DequantizeLinear", "IsInf", "MatMulInteger", "Mod", "NonMaxSuppression", "QuantizeLinear", "Resize", "ReverseSequence", "ThresholdedRelu"} -> 10
    [] op \in {"BitShift", "CumSum", "Det", "GatherElements", "GatherND", "Range", "Round", "ScatterElements", "ScatterND", "Unique"} -> 11
    [] op \in {"Celu", "Einsum", "GreaterOrEqual", "LessOrEqual"} -> 12
    [] op \in {"HardSwish", "Trilu"} -> 14
    [] op \in {"Bernoulli", "CastLike"} -> 15
    [] op \in {"GridSample"} -> 16
    [] op \in {"BlackmanWindow", "DFT", "HammingWindow", "HannWindow", "LayerNormalization", "STFT"} -> 17
    [] op \in {"BitwiseAnd", "BitwiseNot", "BitwiseOr", "BitwiseXor", "CenterCropPad", "Col2Im", "GroupNormalization", "Mish"} -> 18
    [] op = "DeformConv" -> 19
    [] op \in {"Gelu"} -> 20
    [] op \in {"Attention", "RMSNormalization", "RotaryEmbedding"} -> 23
    [] op = "Swish" -> 24
    [] OTHER -> 1
Variadic == {"Sum", "Mean", "Min", "Max", "Concat", "Loop", "Scan", "Einsum"}
Optional(op) ==
  CASE op \in {"Conv", "ConvTranspose", "Gemm", "LayerNormalization", "DequantizeLinear", "QuantizeLinear", "MaxUnpool"} -> {3}
    [] op = "Clip" -> {2, 3} [] op = "Resize" -> {2, 3, 4} [] op = "Pad" -> {3, 4} [] op = "Slice" -> {4, 5}
    [] op \in {"ReduceSum", "ReduceMean", "ReduceMax", "ReduceMin", "ReduceProd", "ReduceL1", "ReduceL2", "ReduceLogSum", "ReduceLogSumExp", "ReduceSumSquare"} -> {2}
    [] op \in {"Squeeze", "Split", "Trilu"} -> {2}
    [] op \in {"RNN", "GRU"} -> {4, 5, 6} [] op = "LSTM" -> {4, 5, 6, 7, 8}
    [] op \in {"MatMulInteger", "ConvInteger"} -> {3, 4} [] op = "Attention" -> {4, 5, 6, 7} [] op = "Dropout" -> {2, 3}
    [] op = "Loop" -> {1, 2} [] op \in {"DFT"} -> {2, 3} [] op = "DeformConv" -> {4, 5} [] op = "RotaryEmbedding" -> {4}
    [] OTHER -> {}
\* How many operands the operator has at least; what the models given have, less those which may be left out.
RECURSIVE Within(_)
Within(ns) == FlattenSeq([k \in DOMAIN ns |-> LET s == SetToSeq({a \in Attrs(ns[k]) : ns[k].at[a].ty = "g"}) IN <<ns[k]>> \o FlattenSeq([j \in DOMAIN s |-> Within(ns[k].at[s[j]].v.nodes)])])
Everything == TLCEval(FlattenSeq([k \in DOMAIN Base |-> Within(Base[k].nodes)]))
Ops == TLCEval({Everything[k].op : k \in DOMAIN Everything})
Uses == TLCEval([op \in Ops |-> {k \in DOMAIN Everything : Everything[k].op = op}])
MinOf(S) == CHOOSE x \in S : \A y \in S : x <= y
Need == TLCEval([op \in Ops |-> IF op \in Variadic THEN {} ELSE (1..MinOf({Len(Everything[k].in) : k \in Uses[op]})) \ Optional(op)])
NeedOf(op) == IF op \in Ops THEN Need[op] ELSE {}
Kinds == TLCEval([op \in Ops |-> [a \in UNION {Attrs(Everything[k]) : k \in Uses[op]} |-> {Everything[k].at[a].ty : k \in {k \in Uses[op] : a \in Attrs(Everything[k])}}]])
Mandatory(op) == CASE op = "Cast" -> {"to"} [] op = "Concat" -> {"axis"} [] op = "BitShift" -> {"direction"} [] op \in {"DepthToSpace", "SpaceToDepth"} -> {"blocksize"}
                   [] op \in {"MaxPool", "AveragePool", "LpPool"} -> {"kernel_shape"} [] op = "LRN" -> {"size"} [] op = "GroupNormalization" -> {"num_groups"}
                   [] op = "If" -> {"then_branch", "else_branch"} [] op = "Loop" -> {"body"} [] op = "Scan" -> {"body", "num_scan_inputs"} [] op = "Einsum" -> {"equation"} [] OTHER -> {}
\* Values no attribute of that operator may have, whatever the operands (whose ranks are below ten).
Texts == {"auto_pad", "mode", "direction", "reduction", "approximate", "nearest_mode", "coordinate_transformation_mode", "padding_mode"}
AxisOps == {"Concat", "Gather", "Softmax", "LogSoftmax", "Hardmax", "ArgMax", "ArgMin", "Split", "TopK", "GatherElements", "ScatterElements", "OneHot", "Flatten", "LayerNormalization", "LpNormalization", "Compress"}
AxisMade(n) == n.op \in AxisOps
BadValue(n, a, v) ==
  CASE n.at[a].ty = "s" -> a \in Texts /\ v = "nonsense"
    [] n.at[a].ty = "i" -> \/ a = "axis" /\ AxisMade(n) /\ v \in {-99, 99}
                           \/ n.op = "Cast" /\ a = "to" /\ v \in {0, 99}
                           \/ a \in {"blocksize", "group", "num_groups", "hidden_size", "size"} /\ v \in {0, -1}
    [] n.at[a].ty = "ints" -> \/ n.op = "Transpose" /\ a = "perm" /\ (\E i \in DOMAIN v : v[i] < 0 \/ v[i] >= Len(v) \/ \E j \in DOMAIN v : i # j /\ v[i] = v[j])
                              \/ a \in {"strides", "dilations", "kernel_shape"} /\ (\E i \in DOMAIN v : v[i] <= 0)
    [] OTHER -> FALSE
BadList == {"strides", "dilations", "kernel_shape", "perm"}
Bad(n, a) == CASE n.at[a].ty = "s" /\ a \in Texts -> <<"nonsense">>
               [] n.at[a].ty = "i" /\ a = "axis" /\ AxisMade(n) -> <<-99, 99>>
               [] n.at[a].ty = "i" /\ n.op = "Cast" /\ a = "to" -> <<0, 99>>
               [] n.at[a].ty = "i" /\ a \in {"blocksize", "group", "num_groups", "hidden_size", "size"} -> <<0, -1>>
               [] n.at[a].ty = "ints" /\ a = "perm" /\ Len(n.at[a].v) > 1 -> <<[n.at[a].v EXCEPT ![1] = n.at[a].v[2]], [n.at[a].v EXCEPT ![1] = 9]>>
               [] n.at[a].ty = "ints" /\ a \in BadList /\ Len(n.at[a].v) > 1 -> <<[n.at[a].v EXCEPT ![1] = 0], [n.at[a].v EXCEPT ![2] = -1]>>
               [] OTHER -> <<>>

\* --- what the standard says of a model
DefaultDomain(d) == d \in {"", "ai.onnx"}
Versions(x) == {x.opsets[k].v : k \in {k \in DOMAIN x.opsets : DefaultDomain(x.opsets[k].d)}}
RECURSIVE Stripped(_)
Stripped(s) == IF s # <<>> /\ s[Len(s)] = "" THEN Stripped(SubSeq(s, 1, Len(s) - 1)) ELSE s
RECURSIVE NodesOk(_, _, _)
Inner(g) == Set(g.ins) \union {g.inits[k].n : k \in DOMAIN g.inits}
NodeOk(n, known, ver) ==
  /\ n.op \notin {"Nonsense", ""} /\ DefaultDomain(n.dom) /\ (ver >= Since(n.op))
  /\ \A k \in NeedOf(n.op) : k <= Len(n.in) /\ n.in[k] # ""
  \* (whether empty names at the end of a list count is open)
  /\ n.op \in Variadic \ {"Loop"} => LET s == Stripped(n.in) IN s # <<>> /\ \A k \in DOMAIN s : s[k] # ""
  /\ \A k \in DOMAIN n.in : n.in[k] = "" \/ n.in[k] \in known
  /\ Mandatory(n.op) \subseteq Attrs(n)
  /\ \A a \in Attrs(n) : (a \in DOMAIN Kinds[n.op] => n.at[a].ty \in Kinds[n.op][a]) /\ (a \in DOMAIN Kinds[n.op] => ~BadValue(n, a, n.at[a].v))
  /\ \A a \in Attrs(n) : n.at[a].ty = "g" => LET g == n.at[a].v
                                             IN /\ NodesOk(g.nodes, known \union Inner(g), ver)
                                                /\ \A k \in DOMAIN g.outs : g.outs[k] \in known \union Inner(g) \union UNION {Set(g.nodes[j].out) : j \in DOMAIN g.nodes}
\* Every node reads what is there before it.
NodesOk(ns, known, ver) == \A k \in DOMAIN ns : NodeOk(ns[k], known \union UNION {Set(ns[j].out) : j \in 1..(k - 1)}, ver)
Given(x) == {x.ins[k].n : k \in DOMAIN x.ins} \union {x.inits[k].n : k \in DOMAIN x.inits}
Produced(x) == UNION {Set(x.nodes[k].out) : k \in DOMAIN x.nodes}
Once(x) == /\ \A j, k \in DOMAIN x.nodes : j # k => (Set(x.nodes[j].out) \intersect Set(x.nodes[k].out)) \subseteq {""}
           /\ Given(x) \intersect (Produced(x) \ {""}) = {}
Valid(x) == /\ Versions(x) # {} /\ NodesOk(x.nodes, Given(x), CHOOSE v \in Versions(x) : TRUE) /\ Once(x)
            /\ \A k \in DOMAIN x.outs : x.outs[k].n \in Given(x) \union Produced(x)

\* --- changes
With(s, k, v) == [s EXCEPT ![k] = v]
Without(s, k) == SubSeq(s, 1, k - 1) \o SubSeq(s, k + 1, Len(s))
Into(s, k, v) == SubSeq(s, 1, k - 1) \o <<v>> \o SubSeq(s, k, Len(s))
NodeSet(k, n) == [m EXCEPT !.nodes = With(@, k, n)]
At(n, a, v) == [n EXCEPT !.at[a] = v]
Swaps(v) == CASE v = "i" -> <<[ty |-> "s", v |-> "one"], [ty |-> "ints", v |-> <<1>>]>> [] v = "f" -> <<[ty |-> "s", v |-> "half"]>>
              [] v = "ints" -> <<[ty |-> "i", v |-> 1], [ty |-> "s", v |-> "list"]>> [] OTHER -> <<[ty |-> "i", v |-> 1]>>
\* (sequences, as sets would have to compare what cannot be compared)
Map(s, f(_)) == [k \in DOMAIN s |-> f(s[k])]
AllOf(s, f(_)) == FlattenSeq(Map(s, f))
\* Changes of one node n, each with what it is called.
Operand(n, k) == <<<<"operand " \o ToString(k) \o " left out", [n EXCEPT !.in = IF k = Len(@) THEN SubSeq(@, 1, k - 1) ELSE With(@, k, "")]>>,
                   <<"operand " \o ToString(k) \o " empty", [n EXCEPT !.in = With(@, k, "")]>>,
                   <<"operand " \o ToString(k) \o " unknown", [n EXCEPT !.in = With(@, k, "nowhere")]>>,
                   <<"operand " \o ToString(k) \o " its own result", [n EXCEPT !.in = With(@, k, n.out[1])]>>>>
Attribute(n, a) == Map(Swaps(n.at[a].ty), LAMBDA v : <<a \o " of kind " \o v.ty, At(n, a, v)>>)
                   \o Map(Bad(n, a), LAMBDA v : <<a \o " = " \o ToString(v), At(n, a, [ty |-> n.at[a].ty, v |-> v])>>)
                   \o (IF a \in Mandatory(n.op) THEN <<<<a \o " left out", [n EXCEPT !.at = [q \in (DOMAIN @) \ {a} |-> n.at[q]]]>>>> ELSE <<>>)
NodeChanges(n) ==
  FlattenSeq([k \in DOMAIN n.in |-> Operand(n, k)]) \o AllOf(SetToSeq(Attrs(n)), LAMBDA a : Attribute(n, a))
  \o <<<<"another operator", [n EXCEPT !.op = "Nonsense"]>>, <<"operator without a name", [n EXCEPT !.op = ""]>>, <<"another domain", [n EXCEPT !.dom = "com.example"]>>,
       <<"the domain spelled out", [n EXCEPT !.dom = "ai.onnx"]>>, <<"a name", [n EXCEPT !.name = "any name, even this: \\ {}"]>>, <<"a comment", [n EXCEPT !.doc = "a comment"]>>,
       <<"without a name", [n EXCEPT !.name = ""]>>>>
  \o (IF Len(n.in) + 1 \in Optional(n.op) THEN <<<<"a trailing empty operand", [n EXCEPT !.in = Append(@, "")]>>>> ELSE <<>>)
BodyNode(n, a, k) == Map(NodeChanges(n.at[a].v.nodes[k]), LAMBDA c : <<"in the body: " \o c[1], [n EXCEPT !.at[a].v.nodes = With(@, k, c[2])]>>)
Body(n, a) == IF n.at[a].ty # "g" THEN <<>> ELSE
              FlattenSeq([k \in DOMAIN n.at[a].v.nodes |-> BodyNode(n, a, k)])
              \o <<<<"in the body: reversed", [n EXCEPT !.at[a].v.nodes = Reverse(@)]>>, <<"in the body: result unknown", [n EXCEPT !.at[a].v.outs = With(@, Len(@), "nowhere")]>>>>
Bodies(n) == AllOf(SetToSeq(Attrs(n)), LAMBDA a : Body(n, a))
Spare == [op |-> "Identity", at |-> <<>>, in |-> <<"spare">>, out |-> <<"spared">>, dom |-> "", name |-> "", doc |-> ""]
F0 == [t |-> "F32", s |-> <<2>>, v |-> <<[k |-> "q", n |-> 1, d |-> 2], [k |-> "q", n |-> -1, d |-> 2]>>]
Default == m.opsets[1].v
ModelChanges ==
  Map(<< <<>>, <<[d |-> "com.example", v |-> 1]>>, <<[d |-> "com.example", v |-> 1], [d |-> "", v |-> Default]>>, <<[d |-> "", v |-> Default], [d |-> "ai.onnx.ml", v |-> 3]>>,
        <<[d |-> "ai.onnx", v |-> Default]>>, <<[d |-> "", v |-> 0]>>, <<[d |-> "", v |-> -1]>> >>, LAMBDA q : <<"opsets " \o ToString(q), [m EXCEPT !.opsets = q]>>)
  \o Map(SetToSeq({Since(m.nodes[k].op) - 1 : k \in DOMAIN m.nodes}), LAMBDA v : <<"version " \o ToString(v), [m EXCEPT !.opsets = <<[d |-> "", v |-> v]>>]>>)
  \o [k \in DOMAIN m.outs |-> <<"a result of the model unknown", [m EXCEPT !.outs = With(@, k, [@[k] EXCEPT !.n = "nowhere"])]>>]
  \o Map(SetToSeq((1..Len(m.nodes)) \X (1..Len(m.nodes))), LAMBDA q : <<"node " \o ToString(q[1]) \o " moved to " \o ToString(q[2]), [m EXCEPT !.nodes = Into(Without(@, q[1]), q[2], @[q[1]])]>>)
  \o FlattenSeq([j \in DOMAIN m.nodes |-> <<<<"node " \o ToString(j) \o " twice", [m EXCEPT !.nodes = Append(@, @[j])]>>, <<"node " \o ToString(j) \o " missing", [m EXCEPT !.nodes = Without(@, j)]>>>>])
  \o [j \in DOMAIN m.ins |-> <<"input " \o ToString(j) \o " missing", [m EXCEPT !.ins = Without(@, j)]>>]
  \o [j \in DOMAIN m.inits |-> <<"initializer " \o ToString(j) \o " missing", [m EXCEPT !.inits = Without(@, j)]>>]
  \o <<<<"initializers reversed", [m EXCEPT !.inits = Reverse(@)]>>,
       <<"spare input", [m EXCEPT !.ins = Append(@, [n |-> "spare", x |-> F0, dyn |-> FALSE])]>>, <<"spare initializer", [m EXCEPT !.inits = Append(@, [n |-> "spare", x |-> F0])]>>,
       <<"spare node", [m EXCEPT !.ins = Append(@, [n |-> "spare", x |-> F0, dyn |-> FALSE]), !.nodes = <<Spare>> \o @]>>,
       <<"a loop of nodes nothing reads", [m EXCEPT !.nodes = @ \o <<[Spare EXCEPT !.in = <<"spared2">>], [Spare EXCEPT !.in = <<"spared">>, !.out = <<"spared2">>]>>]>>>>
  \o Map(<<"producer", "documentation", "properties", "empty domain", "model version", "value info", "unknown value info", "old format", "unknown field", "graph name">>,
         LAMBDA q : <<"notes: " \o q, [m EXCEPT !.notes = <<q>>]>>)
OfNode(k) == Map(NodeChanges(m.nodes[k]) \o Bodies(m.nodes[k]), LAMBDA c : <<m.nodes[k].op \o ": " \o c[1], NodeSet(k, c[2])>>)
Changes == ModelChanges \o FlattenSeq([k \in DOMAIN m.nodes |-> OfNode(k)])

Init == /\ b \in DOMAIN Base /\ m = Base[b] /\ done = <<>>
Next == /\ Len(done) < Depth /\ b' = b
        /\ LET q == TLCEval(Changes) IN \E c \in DOMAIN q : m' = q[c][2] /\ done' = Append(done, q[c][1])
\* the models given are valid, or the judgement would mean nothing
BaseValid == done = <<>> => Valid(m)
\* What a node is but for its name and comment; a model that has all the nodes it had, and is valid, has to be accepted.
RECURSIVE Bare(_)
Bare(n) == [op |-> n.op, in |-> Stripped(n.in), out |-> n.out, at |-> IF n.at = <<>> THEN <<>> ELSE [a \in DOMAIN n.at |-> IF n.at[a].ty = "g" THEN [ins |-> n.at[a].v.ins, outs |-> n.at[a].v.outs, nodes |-> [k \in DOMAIN n.at[a].v.nodes |-> Bare(n.at[a].v.nodes[k])]] ELSE n.at[a]]]
Kept == {ToJson(Bare(Base[b].nodes[k])) : k \in DOMAIN Base[b].nodes} \subseteq {ToJson(Bare(m.nodes[k])) : k \in DOMAIN m.nodes} /\ {Base[b].outs[k].n : k \in DOMAIN Base[b].outs} = {m.outs[k].n : k \in DOMAIN m.outs}
\* refuse: it has to be refused; accept: it has to be accepted; either: the standard alone does not say.
Verdict == IF ~Valid(m) THEN "refuse" ELSE IF Kept THEN "accept" ELSE "either"
Emit == done # <<>> => PrintT("@@" \o ToJson([b |-> b, done |-> done, m |-> m, expect |-> Verdict]))
==============================================================================
