-------------------------------- MODULE Names --------------------------------
(* The names of a model mean nothing: whatever its values are called, and however   *)
(* alike the names are, the model computes the same. Models of several kinds whose  *)
(* values, one or two of them, are given every name of an alphabet of awkward ones. *)
(* Names are sequences of code points. Judge reads names found in imported graphs.  *)
EXTENDS Control

CONSTANT File
\* --- the alphabet: by what is awkward about a name
Plain == {<<120>>, <<65, 98>>}
Odd == { <<95>>, <<95, 95>>, <<46>>, <<45>>, <<58, 58>>, <<32>>, <<97, 32, 98>>, <<97, 10, 98>>, <<34>>, <<97, 34>>, <<92>>, <<123, 125>>, <<47, 97, 47, 98>>, <<48>>, <<49, 50, 51>>, <<49, 101, 53>>, <<97, 39>>, <<95, 49>>,
         <<233>>, <<120, 233>>, <<26085, 26412>>, <<960>>, <<128512>>, <<65>>, <<97, 95>>, <<97, 95, 95, 98>>, <<46, 97>>, <<37>>, <<97, 37, 115>>, <<0>>, <<97, 769>>}
\* Words as strings; Python turns them into code points.
Words == {"self", "Self", "super", "crate", "type", "match", "fn", "let", "mut", "ref", "move", "async", "await", "dyn", "try", "gen", "yield", "abstract", "macro", "box", "static", "true", "false", "as", "in", "loop", "if",
          "extern", "union", "raw", "r#type", "default", "B", "b", "Tensor", "Model", "burn", "device", "main", "std", "core", "alloc", "vec", "Some", "None", "Ok", "i64", "f32", "bool", "usize", "String", "forward", "new", "iter", "cond", "result",
          "add1_out1", "Add1Out1", "constant1_out1", "constant1", "constant2_out1", "if1_out1", "loop1_out1", "loop1_out2", "scan1_out1", "mul1_out1", "sub1_out1", "linear1_out1", "relu1_out1", "identity1_out1", "shape1_out1", "input", "output", "phantom", "input1", "output1",
          "cond_out", "__", "_x", "i", "idx", "state", "len", "max", "f", "x_1", "end", "start", "range", "println", "drop", "u8"}
LongName == [k \in 1..400 |-> 97 + (k % 26)]
\* Pairs of different names that are easily taken for one another.
Alike == {<<"a.b", "a_b">>, <<"a:0", "a/0">>, <<"aB", "a_b">>, <<"AB", "ab">>, <<"X", "x">>, <<"1", "_1">>, <<"a__b", "a_b">>, <<"a_", "a">>, <<".a", "a">>, <<"type", "Type">>, <<"self", "self_">>,
          <<"r#type", "type">>, <<".", "/">>, <<".", "_">>, <<"a", "a_1">>, <<"a.b", "a_b_1">>, <<"_self", "self">>, <<"type_", "type">>, <<"add1_out1", "mul1_out1">>, <<"input", "input1">>}

\* --- the models
Straight == [ins |-> <<In1("a", Dat("F32", <<2, 3>>, 1)), In1("b", Dat("F32", <<3>>, 2)), In1("u", Dat("F32", <<2>>, 2))>>, inits |-> <<Ini("w", Dat("F32", <<3>>, 5))>>,
             nodes |-> <<Nd("Add", N1, <<"a", "b">>, <<"m">>), Nd("Mul", N1, <<"m", "w">>, <<"y">>), Nd("Sub", N1, <<"y", "a">>, <<"z">>), Nd("Add", N1, <<"m", "z">>, <<"v">>)>>, outs |-> <<"z", "y", "v">>]
Layer == [ins |-> <<In1("x", Dat("F32", <<2, 3>>, 1))>>, inits |-> <<Ini("w", Dat("F32", <<3, 2>>, 5)), Ini("b", Dat("F32", <<2>>, 3)), Ini("k", Dat("F32", <<2, 2>>, 8))>>,
          nodes |-> <<Nd("Gemm", N1, <<"x", "w", "b">>, <<"h">>), Nd("Relu", N1, <<"h">>, <<"r">>), Nd("MatMul", N1, <<"r", "k">>, <<"y">>), Nd("Shape", N1, <<"y">>, <<"s">>)>>, outs |-> <<"y", "s">>]
Scalars == [ins |-> <<In1("n", IScal(3)), In1("x", Dat("F32", <<2, 3>>, 1))>>, inits |-> <<Ini("two", IScal(2))>>,
            nodes |-> <<Nd("Mul", N1, <<"n", "two">>, <<"p">>), Nd("Shape", N1, <<"x">>, <<"s">>), Nd("Gather", [axis |-> AI(0)], <<"s", "one">>, <<"d">>), Nd("Add", N1, <<"d", "p">>, <<"q">>), Nd("Constant", [value |-> AT(IScal(1))], <<>>, <<"c">>), Nd("Sub", N1, <<"q", "c">>, <<"e">>)>>,
            outs |-> <<"p", "e">>]
ScalarsM == [Scalars EXCEPT !.inits = Append(@, Ini("one", IScal(1)))]
Templates == ("straight" :> Straight) @@ ("layer" :> Layer) @@ ("scalars" :> ScalarsM) @@ ("if" :> Build(<<"if", "same", "own", "in", TRUE, "use", TRUE>>)) @@ ("ifcst" :> Build(<<"if", "cst", "chain", "cmp", FALSE, "cap", FALSE>>))
             @@ ("ifinloop" :> Build(<<"ifinloop", TRUE, 4, "state">>)) @@ ("loopinloop" :> Build(<<"loopinloop", <<"cap">>, 2, 2>>)) @@ ("loopinif" :> Build(<<"loopinif", TRUE, <<"cap">>, <<"state">>>>)) @@ ("scaninif" :> Build(<<"scaninif", TRUE, <<"elem">>>>))
             @@ ("shadow" :> Build(<<"shadow", "state-init", 2>>))
\* All names of a graph that stand for values.
RECURSIVE NamesOf(_), SubNames(_)
NamesOf(g) == LET rng(s) == {s[k] : k \in DOMAIN s}
              IN {g.ins[k].n : k \in DOMAIN g.ins} \union {g.inits[k].n : k \in DOMAIN g.inits}
                 \union UNION {rng(g.nodes[j].out) \union UNION {SubNames(g.nodes[j].at[a].v) : a \in {a \in DOMAIN g.nodes[j].at : g.nodes[j].at[a].ty = "g"}} : j \in DOMAIN g.nodes}
SubNames(s) == NamesOf([s EXCEPT !.ins = [k \in DOMAIN s.ins |-> [n |-> s.ins[k]]]])
RenSlots(t) == NamesOf(Templates[t]) \ {""}

VARIABLES tpl, ren
Found == JsonDeserialize(File)
RenInit == /\ feat = <<>>
           /\ tpl \in DOMAIN Templates
           /\ \/ ren = << >>
              \/ \E s \in RenSlots(tpl) : \/ \E n \in Plain \union Odd \union {LongName} : ren = (s :> [codes |-> n, word |-> ""])
                                          \/ \E w \in Words \ RenSlots(tpl) : ren = (s :> [codes |-> <<>>, word |-> w])
              \/ \E s1 \in RenSlots(tpl), s2 \in RenSlots(tpl), p \in Alike :
                   /\ s1 # s2 /\ {p[1], p[2]} \cap (RenSlots(tpl) \ {s1, s2}) = {}
                   /\ ren = (s1 :> [codes |-> <<>>, word |-> p[1]]) @@ (s2 :> [codes |-> <<>>, word |-> p[2]])
\* Names of variables in the generated code.
Locals == {"_scalar_tensor", "actual_idx", "argmax_result", "axes", "axis", "b", "batch_count", "batch_data_stride", "bias", "block_offsets", "canvas", "channels", "chunk", "coord", "cumsum_result", "d", "data", "data_dims", "data_flat", "data_strides", "device", "dim", "dim_offset", "dim_size", "dtype",
           "existing", "final_state", "flat_idx", "flat_indices", "flipped", "gathered", "gru_output", "head_size", "i", "idx", "idx_strides", "indices", "indices_data", "indices_dims", "indices_expanded", "indices_tensor", "indices_values", "input", "input_dims", "input_dtype", "input_flat", "input_shape",
           "j", "k", "kv_sequence_length", "leading_dim", "len", "lookup_idx", "lookups_per_batch", "mask", "mean", "num_updates", "offset", "onnx_shape", "output", "output_flat", "output_seq", "output_shape", "output_size", "padded", "q", "r", "remaining", "reshaped", "result", "s", "scale", "scales_array",
           "scales_data", "seq_len", "shape", "shape_array", "shape_data", "si", "sizes", "sizes_array", "sizes_data", "slice_size", "sliced", "split_tensors", "step", "target_height", "target_offset", "target_width", "tensor1d", "total_data", "total_data_size", "total_size", "total_slices", "total_updates",
           "update_slice", "update_val", "updates_dims", "updates_flat", "v", "v_head_size", "var", "window_offsets", "x", "zeros", "scan_collector_0", "scan_output_collector_0", "scan_output_0"}
\* Models of one operator (read from the file: id, slots), one operand called like a variable.
LocInit == /\ feat = <<>>
           /\ tpl \in DOMAIN Found
           /\ \E k \in DOMAIN Found[tpl].slots, w \in Locals : ren = (Found[tpl].slots[k] :> [codes |-> <<>>, word |-> w])
RenNext == FALSE /\ UNCHANGED <<tpl, ren, feat>>
RenEmit == PrintT("@@" \o ToJson([tpl |-> tpl, ren |-> ren]))
TplInit == feat = <<>> /\ tpl \in DOMAIN Templates /\ ren = << >>
TplEmit == PrintT("@@" \o ToJson([tpl |-> tpl, case |-> Full(Templates[tpl]), slots |-> RenSlots(tpl)]))

\* --- names found in imported graphs: [id, names], as code points
Letter(c) == c \in 97..122 \/ c \in 65..90 \/ c = 95
Legal(n) == n # <<>> /\ Letter(n[1]) /\ (\A k \in DOMAIN n : Letter(n[k]) \/ n[k] \in 48..57) /\ n # <<95>>
JInit == feat = <<>> /\ tpl \in DOMAIN Found /\ ren = << >>
JEmit == LET ns == Found[tpl].names
         IN PrintT("@@" \o ToJson([id |-> Found[tpl].id, bad |-> {k \in DOMAIN ns : ~Legal(ns[k])}, twice |-> {k \in DOMAIN ns : \E q \in 1..(k - 1) : ns[q] = ns[k]}]))
==============================================================================
