"""Development tool, run by hand: sorts reported one-operator cases into the classes of genuine defects and rewrites the part
of known_findings.txt after the marker. usage: VERIF_DUMP=... run.py ...; mkknown.py dump.json..."""
import json, os, re, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MARK = "# --- one-operator models, by tools/mkknown.py"
W = r"(?:wrong|panic|nocompile)"
RULES = [
    ("loop-scan-joined", r"concatenated program .*=Loop\{.*", "the results that Loop collects are joined in the first dimension instead of stacked in a new one"),
    ("loop-scan-none", r"panic program .*=Loop\{.*", "Loop panics when it collects results and makes no round"),
    ("loop-scalar-states", r"nocompile program .*=Loop\{.*", "Loop with constant scalar states, or which collects a scalar state, generates code that does not compile"),
    ("scan-scalars", r"nocompile program .*=Scan\{.*", "Scan over rank-1 sequences generates code that does not compile"),
    ("if-shape-tensor", r"nocompile program .*=If\{.*=Shape.*", "If with a shape from one branch and a tensor from the other generates code that does not compile"),
    ("typed-slice-of-shape", r"(\[Slice\]|output p|\[Expand\]): .* in program .*=Slice\(.*", "the length of a slice of a shape is inferred without clamping the bounds, and with a negative step from start below end"),
    ("typed-loop", r"\[Loop\]: Tensor .*", "the results that Loop collects are typed as joined in the first dimension"),
    ("typed-scan-scalars", r"\[Scan\]: Scalar\w+ .*", "values that Scan collects from rank-0 results are typed as scalars"),
    ("typed-pow", r"\[Pow\]: .*", "Pow is typed as its exponent when the base is a scalar"),
    ("typed-squeeze", r"\[Squeeze\]: .*", "Squeeze without axes of unknown extents, or with axes that are a shape, is typed with another rank"),
    ("typed-where", r"\[Where\]: .*", "Where of a constant scalar condition and scalars is typed as a tensor of rank 1"),
    ("typed-reshape-scalar", r"(\[Reshape\]: |output y1: ScalarNative |output y1 is not that value of the model in Reshape).*", "Reshape of a rank-0 value to one element stays a scalar"),
    ("typed-shape-arith", r"(\[(Add|Sub|Mul|Div|Equal|Cast)\]: Shape |output \w+: Shape |output \w+ is not that value of the model in program ).*", "arithmetic, comparison and casts of shape values are typed as a shape of the first operand's length"),
    ("scalar-unary", r"nocompile (Sigmoid|Softplus|Log|Sign|Relu|Erf|Softsign|Mish|Swish|Elu|Celu|Selu|LeakyRelu|ThresholdedRelu|HardSigmoid|HardSwish|Gelu|Not|BitwiseNot)\{[^}]*\}\([^ ]+ \w+\[\].*", "these element-wise operators on a rank-0 value generate code that does not compile"),
    ("relu-int", r"nocompile Relu\{\}\(\w+ I\d+\[.*", "Relu of an integer tensor generates code that does not compile"),
    ("gelu-tanh", r"wrong Gelu\{approximate=tanh\}.*", "the tanh approximation of Gelu is ignored"),
    ("div-scalar-int", r"nocompile Div\{\}\(\w+ I\d+\[\].*", "an integer scalar divided by a tensor generates code that does not compile"),
    ("mod-scalar", r"wrong Mod\{\}\(\w+ I\d+\[\].*", "Mod of two integer scalars takes the sign of the dividend"),
    ("pow-types", r"(wrong|panic|nocompile) Pow\{\}\(.*", "Pow of operands of different element types or ranks generates code that does not compile, panics or returns another element type"),
    ("bitshift-ranks", r"nocompile BitShift\{.*", "BitShift of operands of different ranks generates code that does not compile"),
    ("prelu-slope", r"panic PRelu\{.*", "PRelu with a slope of the operand's full shape panics"),
    ("sum-mean-ranks", r"nocompile (Sum|Mean)\{\}.*", "Sum and Mean of operands of different ranks, and Mean of scalars, generate code that does not compile"),
    ("cast-scalar", r"nocompile Cast\{to=\d+\}\(\w+ \w+\[\].*", "Cast of a rank-0 value to bool or int32, or from bool, generates code that does not compile"),
    ("reduce-runtime-axes", r"wrong Reduce\w+\{[^}]*\}\([^;]*; (in|shape) .*", "Reduce operators with axes computed at run time reduce every axis"),
    ("reduce-noop", r"wrong Reduce\w+\{[^}]*noop_with_empty_axes=1.*", "Reduce operators ignore noop_with_empty_axes"),
    ("reduce-logsumexp", r"(panic|wrong) ReduceLogSumExp\{.*keepdims=0.*", "ReduceLogSumExp with keepdims=0 panics or is wrong"),
    ("reduce-all-listed", r"panic Reduce\w+\{[^}]*keepdims=0[^}]*\}.*", "Reduce operators with keepdims=0 panic when every axis is listed"),
    ("cumsum-negative", r"panic CumSum\{.*", "CumSum with a negative axis computed at run time panics"),
    ("shape-range", r"(panic|nocompile|wrong) Shape\{.*", "Shape does not clamp start and end"),
    ("size", r"nocompile Size\{.*", "Size generates code that does not compile"),
    ("reshape-runtime", r"panic Reshape\{[^}]*\}\([^;]*; in .*", "Reshape to a shape computed at run time with -1 or 0 panics"),
    ("reshape-scalar", r"(panic|nocompile|wrong) Reshape\{[^}]*\}\(\w+ F32\[\].*", "Reshape of a rank-0 value panics, is wrong or does not compile"),
    ("squeeze-all-dynamic", r"panic Squeeze\{\}\(dyn .*", "Squeeze without axes of a value with unknown extents panics"),
    ("unsqueeze-scalar", r"(panic|nocompile|wrong) Unsqueeze\{\}\(\w+ \w+\[\].*", "Unsqueeze of a bool scalar does not compile, of a scalar by two axes panics"),
    ("flatten", r"nocompile Flatten\{.*", "Flatten with axis 0 or a negative axis generates code that does not compile"),
    ("slice-negative", r"wrong Slice\{\}.*", "Slice with a negative step is wrong"),
    ("expand-smaller", r"panic Expand\{\}.*", "Expand to a shape of lower rank than the operand panics"),
    ("gather-negative", r"panic (GatherElements|ScatterElements)\{.*", "negative indices of GatherElements and ScatterElements are out of bounds"),
    ("trilu-runtime", r"wrong Trilu\{.*", "Trilu ignores an offset computed at run time"),
    ("range-types", r"(wrong|nocompile) Range\{.*", "Range of floats does not compile, and of a negative step is empty"),
    ("matmul-1d", r"panic MatMul\{\}\(\w+ F32\[3\]; \w+ F32\[3\].*", "MatMul of two vectors multiplies rank-1 tensors"),
    ("matmul-int-linear", r"nocompile MatMul\{\}\(\w+ I64.*", "MatMul of integers with a constant matrix becomes a Linear of floats"),
    ("matmulinteger-zero", r"nocompile MatMulInteger\{.*", "MatMulInteger with scalar zero points computed at run time does not compile"),
    ("avgpool-dilation", r"wrong AveragePool\{.*dilations.*", "AveragePool ignores dilations"),
    ("layernorm-axis", r"panic LayerNormalization\{.*", "LayerNormalization over several axes panics"),
    ("groupnorm-18", r"panic GroupNormalization\{.*v18", "GroupNormalization of operator set 18, with one scale per group, panics"),
    ("resize-modes", r"(wrong|nocompile) Resize\{.*", "Resize ignores coordinate_transformation_mode and nearest_mode, and with sizes computed at run time"),
    ("rnn-runtime", r"panic (RNN|LSTM|GRU)\{.*; in F32.*", "recurrent operators with weights computed at run time generate a module whose weights are missing"),
    ("rnn-layout", r"(wrong|panic) (RNN|LSTM|GRU)\{.*layout=1.*", "recurrent operators with layout=1 are wrong or panic"),
    ("rnn-size1", r"refused (RNN|LSTM|GRU)\{.*hidden_size=1.*", "recurrent operators with a hidden size of 1 are refused by a failed assertion"),
    ("program-scalar-constant", r"panic program .*Unsqueeze\(F32\[\].*", "Unsqueeze of a constant rank-0 value panics"),
    ("program-moved", r"nocompile program \((?!x:)[^)]*\).*=(Div|Mul|Add|Sub|Equal|Mod|Less|Greater)(\{[^}]*\})?\(.*", "a computed scalar or one-element shape combined with a constant is moved although used again, or does not compile"),
    ("shape-slice-negative-step", r"(panic|nocompile|wrong) program \([^)]*\) s=Shape[^;]*; p=Slice\(.*", "Slice of a shape with a negative step reads the range as start below end"),
    ("permute-reshape", r"ok but simplified wrong program .*=Concat.*Reshape\(x, t\).*", "a Reshape to the permuted extents of its operand is replaced by a Transpose, which orders the elements differently"),
    ("attention-default-scale", r"ok but simplified wrong program .*Softmax.*", "attention without a scale, or with one computed at run time, is coalesced into Attention with the default scale"),
    ("program-shape-arith", r"(wrong|nocompile) program .*Shape.*", "arithmetic and comparison of shape values with other ranks than 1, with longer or shorter operands, or with themselves is wrong or does not compile"),
]

def main():
    keys = {}
    for f in sys.argv[1:]:
        prop = re.search(r"(C\d\d)", f)[1]
        for k, t in json.load(open(f)):
            keys.setdefault(k, set()).add(prop)
    classes, rest, unsup = {}, [], set()
    for k, props in sorted(keys.items()):
        for i, pat, what in RULES:
            if re.fullmatch(pat, k, re.S):
                c = classes.setdefault(i, (what, {}))
                c[1][k] = props
                break
        else:
            if k.startswith("refused "):
                unsup.add(k[8:])
            else:
                rest.append(k)
    p = f"{V}/known_findings.txt"
    head = open(p).read().split(MARK)[0]
    out = head + MARK + "\n"
    for i, pat, what in RULES:
        if i in classes:
            w, ks = classes[i]
            out += f"finding: property={','.join(sorted(set().union(*ks.values())))} id={i} {what}\n"
            out += "".join(f"  case: {k}\n" for k in sorted(ks))
    open(p, "w").write(out)
    # the checks report only refusals that are not listed yet
    unsup |= {l.rstrip("\n") for l in open(f"{V}/checks/unsupported.txt") if not l.startswith("#")}
    with open(f"{V}/checks/unsupported.txt", "w") as fh:
        fh.write("# operator forms the pinned tree refuses to import; anything else that is refused is reported\n" + "".join(f"{k}\n" for k in sorted(unsup)))
    for i in classes:
        print(i, len(classes[i][1]))
    print("unsupported", len(unsup), "unsorted", len(rest))
    for k in rest[:60]:
        print("   ", k[:200])

main()
