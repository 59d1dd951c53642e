import json
P=[]
def p(id,title,statement,over,text,why,files,mech,observe,state=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech],"observe_at":observe,"hook_needed":None}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":text},"why_tests_cant":why,"anchors":a})
O="crates/onnx-ir/src/"; B="crates/burn-onnx/src/"
p("C01","Generated code computes what the ONNX model defines",
 "For every supported ONNX model and every input, the Rust code generated without graph simplification, compiled and run, returns for each model output the value (element type, shape and elements) the ONNX operator specification assigns to it. This holds for every operator form: attribute or default, constant or runtime operand, tensor, scalar or shape operand, negative axis, broadcasting, and any composition of operators.",
 ["programs","inputs"],"All models composed of supported operators, with all attribute combinations and operand forms, and all inputs of the declared types.",
 "The repository's model tests fix one or two graphs per operator with one input each; the per-node unit tests compare generated source text with a snapshot, not what it computes.",
 [O+"node/",O+"phases/",B+"burn/node/",B+"burn/graph.rs"],
 [("per-operator processors extract configuration and infer types",O+"node/*.rs"),("per-operator code generators",B+"burn/node/*.rs"),("phases convert and rewire the graph",O+"phases/")],
 ["outputs of the compiled generated model"])
p("C02","Simplification never changes what a model computes",
 "For every model and input, the code generated with graph simplification on returns exactly the outputs (values, shapes, element types, order) of the code generated with it off. A model that imports with simplification off also imports with it on.",
 ["programs","inputs"],"All graphs, including shared intermediate values, values that are also graph outputs, broadcasting constants, repeated and nondeterministic nodes, chains that need several passes, and all inputs.",
 "Unit tests of each pass apply it to one hand-made graph where it should or should not fire; the guarantee is over all graphs, sharing patterns, and sequences of passes.",
 [O+"simplify/",O+"phases/post_processing.rs",O+"phases/node_conversion.rs"],
 [("fixpoint of rewriting passes",O+"simplify/mod.rs"),("coalescing of Gemm/MatMul(+Add) into Linear",O+"phases/node_conversion.rs")],
 ["outputs of the compiled generated model with simplify on and off"])
p("C03","Every imported graph is completely and uniquely wired",
 "In every graph an import returns, at every nesting level, each value a node reads is a graph input, a constant, an enclosing scope's value, or an output of an earlier node; each value name is produced once; and every graph output is produced. No optional or absent operand is confused with a present one: operands keep their positions.",
 ["programs"],"All accepted models, all nesting depths, simplification on and off.",
 "Wiring is the result of renaming, lifting, no-op elimination, coalescing and up to ten rewriting rounds; tests inspect it on a few fixed graphs.",
 [O+"graph_state.rs",O+"phases/",O+"simplify/",O+"pipeline.rs"],
 [("name mapping of inputs, initializers and node outputs",O+"graph_state.rs"),("rewiring after elimination",O+"phases/post_processing.rs"),("removal of unreferenced constants",O+"phases/finalization.rs")],
 ["the graph returned by the builder"])
p("C04","The model's interface survives import and code generation",
 "The imported graph and the generated forward function have exactly the model's declared inputs and outputs, in the declared order, with the declared element types and ranks, the inputs under their declared names (made identifiers, and possibly with a suffix that keeps them apart); initializers listed as inputs are not parameters. A declared input is kept even if unused, and a declared output is never dropped, duplicated or reordered.",
 ["programs"],"All accepted models: unused inputs, outputs that are inputs, constants or repeated values, outputs of eliminated or merged nodes, initializers listed among inputs, and any number of either.",
 "Tests look at the interface of a handful of models; which outputs survive depends on every pass that renames, merges or removes nodes.",
 [O+"graph_state.rs",O+"pipeline.rs",O+"simplify/",B+"burn/graph.rs"],
 [("graph inputs and outputs taken from the model and renamed",O+"graph_state.rs"),("forward signature",B+"burn/graph.rs")],
 ["inputs and outputs of the graph returned by the builder","signature of the generated forward"])
p("C05","Tensor data in the model reach the graph exactly",
 "Every tensor stored in a model (initializer, Constant attribute in all its forms, embedded raw bytes, typed repeated field, or external file) appears in the imported graph with exactly the stored element type, shape and element bits, whatever encoding was used. Data that do not match the declared shape or type are never silently altered.",
 ["inputs"],"All element types, encodings, shapes (including scalars, empty tensors and large ones) and element values (extremes, NaN, infinities, negative zero).",
 "Tests store a few small float and integer tensors; encodings times types times values is a product they sample sparsely.",
 [O+"proto_conversion.rs",O+"tensor_store.rs",O+"external_data.rs",O+"node/constant.rs"],
 [("decoding of TensorProto",O+"proto_conversion.rs"),("lazy tensor references",O+"tensor_store.rs")],
 ["constant values of the graph returned by the builder","constants returned by the generated model"])
p("C06","External data are never taken from outside the model's directory",
 "Whatever location string a model declares and whatever the directory holds, an import never returns tensor data from a file outside the directory of the model file: absolute locations, parent references, NUL bytes and symbolic links that lead outside are refused. Any location that stays inside the directory, including one through an inside symbolic link, resolves to that file.",
 ["inputs","configurations"],"All location strings, all directory layouts with files, directories and (possibly chained or dangling) symbolic links, and all ways of naming the model file.",
 "Six unit tests check a handful of strings against directories that do not exist; none has a symbolic link, a file, or a model path.",
 [O+"external_data.rs",O+"proto_conversion.rs",O+"pipeline.rs",O+"tensor_store.rs"],
 [("lexical refusal, then comparison of canonical paths",O+"external_data.rs resolve_path"),("base directory taken from the model path",O+"pipeline.rs")],
 ["result of resolving a location","tensor values of an imported model"])
p("C07","External tensor data are exactly the declared byte range",
 "External metadata parse to exactly the declared location, offset, length and checksum, in any order, with unknown keys ignored, a default offset of 0 and a default length of the tensor's size, and malformed numbers or a missing location refused. The tensor then holds exactly the bytes of the file in that range; a range outside the file, or a missing file, is reported and never yields data.",
 ["inputs","fault_sequences"],"All sequences of metadata entries (repeated, unknown, malformed), all offsets and lengths up to 64 bits, all file sizes, and tensors sharing a file.",
 "Unit tests parse four entry lists and read no file; offsets near the end of the file or of the number range are never tried.",
 [O+"external_data.rs",O+"tensor_store.rs",O+"proto_conversion.rs"],
 [("metadata parser",O+"external_data.rs from_proto_entries"),("mapped read with fallback",O+"tensor_store.rs")],
 ["parsed metadata","tensor values of an imported model"])
p("C08","Inferred types agree with the values that occur",
 "For every value of an imported graph, the element type and rank the import assigned are those the value has at run time, a dimension the import calls static has that extent for every input, and a value treated as a host scalar or as a shape is one. Type inference is the same however the nodes reach it (simplified or not).",
 ["programs","inputs"],"All accepted models and all inputs of the declared types, including partly unknown declared shapes.",
 "Inference is tested node by node on chosen operands; soundness is a claim about every composition and every run-time value.",
 [O+"node/",O+"phases/type_inference.rs",O+"processor.rs",O+"ir/"],
 [("per-operator inference iterated to a fixpoint",O+"phases/type_inference.rs"),("broadcast and rank helpers",O+"processor.rs")],
 ["argument types of the graph returned by the builder against values computed for the model"])
p("C09","What cannot be imported is refused with an error",
 "A file that is not a valid model, a model without a default-domain operator-set version or with one older than supported, whose nodes are not topologically ordered, that uses an unsupported operator, or whose node has missing operands, attributes of the wrong kind or invalid attribute values, makes the import fail with a report. It never hangs, kills the process, or returns a graph for such an input; a valid model is never refused because of content that has no bearing on its meaning.",
 ["inputs","programs"],"All byte strings and all single defects of otherwise valid models.",
 "Tests feed valid models; a few error tests cover one defect each.",
 [O+"pipeline.rs",O+"processor.rs",O+"phases/",O+"node/"],
 [("topological and opset checks",O+"pipeline.rs"),("input, output, opset and attribute validation",O+"processor.rs")],
 ["result of the builder"])
p("C10","All ways to open a model give the same graph",
 "Importing a model from a file path, from its bytes and from a reader gives the same graph, or an error in each case, with the only difference that external data need the path. The result does not depend on how the path is written, the working directory, or what was imported before in the same process.",
 ["inputs","histories"],"All models, all ways of writing the path (relative, absolute, bare file name), and all sequences of imports.",
 "Each test opens a model in one way.",
 [O+"pipeline.rs",O+"tensor_store.rs"],
 [("three entry points sharing one pipeline",O+"pipeline.rs")],
 ["result of parse_file, parse_bytes and parse_reader"])
p("C11","The same model always gives the same code",
 "Generating code for a model twice, in one process or in different ones, gives byte-identical source and weights. Nothing in the result depends on hash order, addresses, time, or earlier imports.",
 ["programs","histories"],"All models, in particular those with many subgraph captures, merged nodes and shared names, and all earlier imports in the process.",
 "No test generates twice; one lucky run of a hash-ordered loop proves nothing.",
 [O+"graph_state.rs",O+"phases/",O+"simplify/",B+"burn/graph.rs",B+"burn/imports.rs"],
 [("ordered maps and name registry",O+"graph_state.rs"),("sorted imports",B+"burn/imports.rs")],
 ["generated source and weight files of repeated runs"])
p("C12","Any ONNX name becomes a valid, unambiguous identifier",
 "Whatever names the model gives its values, nodes and graph inputs and outputs, every name in the imported graph is a legal identifier and two different values never share one. The generated code is valid Rust and still returns the right values.",
 ["inputs"],"All name strings: empty, starting with digits, with punctuation, non-ASCII, Rust keywords, names that differ only in punctuation, and names that look like generated ones.",
 "The sanitizer is tested on a few strings, never for collisions in a graph.",
 [O+"proto_conversion.rs",O+"graph_state.rs",B+"burn/graph.rs"],
 [("sanitize_name and generated output names",O+"proto_conversion.rs"),("name registry",O+"graph_state.rs")],
 ["names in the graph returned by the builder","compilation and outputs of the generated code"])
p("C13","Branches and loops run with ONNX semantics",
 "For every model with If, Loop or Scan nodes (nested, capturing outer values, with any number of carried states and scan outputs), the generated code takes the branch, performs the iterations and threads the state that ONNX prescribes, and returns the same values. Captured outer values keep their meaning even when names are shadowed or the captured value is also used later.",
 ["programs","inputs"],"All nestings and captures, all trip counts and conditions (including zero iterations and early exit).",
 "A few fixed models with one control-flow node each; nesting, capture and state threading combine without bound.",
 [O+"node/if_node.rs",O+"node/loop_node.rs",O+"node/scan_node.rs",O+"graph_state.rs",B+"burn/node/if_node.rs",B+"burn/node/loop_node.rs",B+"burn/node/scan_node.rs",B+"burn/node/subgraph_helper.rs"],
 [("outer-scope references become extra inputs",O+"phases/node_conversion.rs"),("inline code for bodies",B+"burn/node/subgraph_helper.rs")],
 ["outputs of the compiled generated model"])
p("C14","Padding attributes mean the same after import",
 "For every convolution and pooling operator in one to three dimensions, every combination of explicit pads, auto_pad mode, kernel, stride and dilation either produces exactly the per-edge padding ONNX prescribes (begin and end of each spatial axis, with the extra element at the end for SAME_UPPER and at the beginning for SAME_LOWER) or is refused; negative pads and unknown modes are refused. Reported padding properties (symmetric or not, per-edge values, no padding) agree with those values.",
 ["inputs"],"All pads, modes, kernels, strides, dilations and input extents in each number of dimensions.",
 "Unit tests try three or four pad lists per dimension; edge order matters only when all edges differ, and auto_pad depends on four numbers per axis.",
 [O+"node/padding.rs",B+"burn/codegen.rs",O+"node/conv1d.rs",O+"node/conv2d.rs",O+"node/conv3d.rs",O+"node/max_pool2d.rs",O+"node/avg_pool2d.rs"],
 [("padding_config_1d/2d/3d and AutoPad",O+"node/padding.rs"),("resolve_auto_pad",B+"burn/codegen.rs")],
 ["padding of imported nodes","outputs of the compiled generated model"])
p("C15","Generated code always compiles",
 "Whenever generation succeeds, the generated source is valid Rust that compiles against the burn API: every value used again after its first use is cloned, every used name is in scope and imported, and every expression has the type its consumers need. It does so however often, and at whatever nesting depth, a value is used.",
 ["programs"],"All graphs, sharing patterns (a value used several times by one node, by later nodes, in branches and bodies, and as an output) and type combinations.",
 "Snapshot tests compare source text and never compile it; compiled test models share values in a few ways only.",
 [B+"burn/scope.rs",B+"burn/graph.rs",B+"burn/imports.rs",B+"burn/node/"],
 [("future-use counting decides cloning",B+"burn/scope.rs"),("imports collected from nodes",B+"burn/imports.rs")],
 ["rustc on the generated source"])
p("C16","The weights file and the generated module fit each other",
 "Every parameter of the generated module is present in the generated weights file exactly once, under the module's path, with the shape, element type, layout and values the model gives it, and the file holds nothing else. Loading by file, by embedded bytes or with the default constructor gives the same model.",
 ["programs","configurations"],"All models with weights (all layer kinds, with and without optional weights, inside branches and bodies), and every loading strategy.",
 "Few layer kinds are loaded in tests, each with one size; layouts only show when extents differ.",
 [B+"burn/graph.rs",B+"burn/node/",B+"model_gen.rs"],
 [("snapshots collected from nodes",B+"burn/node/*.rs collect_snapshots"),("strict loading",B+"burn/graph.rs")],
 ["weights file read back","parameters of the loaded module"])
p("C17","A generation run writes exactly the promised files",
 "For every configuration (output directory, several inputs, development mode, embedded states, simplification), a run writes for each input exactly one source file and one weights file named after it, plus the two graph dumps in development mode, and nothing else; each file's content depends only on its own input and the configuration. An input that cannot be imported, or two different inputs whose files would have the same names, make the run fail, and no source file is written for such an input.",
 ["configurations","fault_sequences"],"All configurations, all sets of inputs, stale files from earlier runs, and inputs that fail.",
 "Tests run one configuration on one input.",
 [B+"model_gen.rs",B+"burn/graph.rs"],
 [("run loop and file naming",B+"model_gen.rs")],
 ["output directory after a run"])
p("C18","After import only contributing nodes remain",
 "In the main graph of every model imported with simplification, each node contributes, directly or indirectly, to a graph output, no identity or no-effect node remains between other nodes, and no constant is kept that nothing reads. No node that does contribute is ever removed.",
 ["programs"],"All accepted models with simplification on, at any depth of dead chains, with optional outputs and multi-output nodes partly used.",
 "Dead-node tests use one or two dead nodes; chains, shared and multi-output nodes and interaction of passes are not covered.",
 [O+"simplify/",O+"phases/post_processing.rs",O+"phases/finalization.rs"],
 [("dead node elimination",O+"simplify/dead_nodes.rs"),("unreferenced constants",O+"phases/finalization.rs")],
 ["the graph returned by the builder"])
p("C19","Node builders and the printed form of nodes are faithful",
 "A node built through its builder has exactly the given name, operands, results and configuration, each in the order given and with the kind, rank, shape and element type of the method used; building a node that needs a configuration without one fails. The printed form of a node names its operator and lists every operand and result in order and its configuration, and nothing else.",
 ["histories","inputs"],"All sequences of builder calls on nodes with and without configuration.",
 "Builders are used all over the unit tests but never checked themselves, and a builder that permutes or drops would be consistent with itself.",
 ["crates/onnx-ir-derive/src/lib.rs",O+"ir/"],
 [("derive macro for builders and display","crates/onnx-ir-derive/src/lib.rs")],
 ["fields and printed form of built nodes"])
p("C20","Formatting never changes the generated program",
 "For every generated token sequence, the formatted text parses back to the same tokens: no literal, identifier, attribute, documentation line, comment marker or string content is lost, altered or reordered. Formatting formatted code again changes nothing.",
 ["programs"],"All token sequences a generator can produce, with strings, documentation, blank-line and comment markers, macros and literals of all kinds.",
 "No test checks the formatter at all; generated sources are compared only after formatting.",
 [B+"formatter.rs",B+"burn/graph.rs"],
 [("pretty printing with marker post-processing",B+"formatter.rs")],
 ["text returned by the formatter"])
p("C21","The model-check runner does every step and reports every failure",
 "For every selection of models and steps, the runner starts exactly the requested steps of exactly the selected models, in order (download, build, run), with the selected features, mode, directory and variant settings; it skips a model's later steps after one of its steps fails. It continues with the other models unless told to stop at the first failure, and succeeds if and only if every step it had to run succeeded.",
 ["configurations","fault_sequences"],"All command lines (model or all, step, features, debug, fail-fast) and all patterns of failing steps.",
 "There are no tests of the runner; failures of downloads and builds occur only in the field.",
 ["xtask/src/model_check.rs","xtask/src/main.rs"],
 [("selection, step loop and failure list","xtask/src/model_check.rs")],
 ["processes started and exit status of the runner"])
p("C22","Numbers are written into the code without change",
 "Every numeric attribute, scalar and shape value of a model appears in the generated code as a literal that evaluates to exactly that value in the target type, including negative zero, infinities, NaN, subnormal, very large, very small and boundary integer values. Generation never fails or rounds because of a number's value.",
 ["inputs"],"All float attributes and scalars and all integer values of all types, in every operator that takes them.",
 "Tests use everyday numbers such as 0.5 and 1.",
 [B+"burn/codegen.rs",B+"burn/node/"],
 [("literal helpers",B+"burn/codegen.rs")],
 ["values returned by the compiled generated model"])
p("C23","Model-check stages agree on where artifacts are",
 "The download, build and run stages of a model check use one and the same directory for a model: the cache directory from the environment if set, the user's cache directory otherwise, with one subdirectory per model. Different models never share a directory.",
 ["configurations"],"All environments (override set, unset, relative, empty or odd) and all model names.",
 "There are no tests; the stages run as separate programs.",
 ["crates/model-checks/common/src/lib.rs"],
 [("one function for all stages","crates/model-checks/common/src/lib.rs")],
 ["directories returned for a model and environment"])
p("C24","Switching on logging never hides a failure",
 "However often logging is initialised, and whatever panic hook was installed before or after, each panic still reaches the panic hook that was in place before exactly once, and a successful initialisation makes each later panic appear once in the log until the program replaces the hook. Only the first initialisation in a process succeeds, and a refused one changes nothing.",
 ["histories"],"All sequences of initialisations, hook installations and panics in one process.",
 "There is no test of the logger; it has process-wide state that unit tests share.",
 [B+"logger.rs",B+"model_gen.rs"],
 [("panic hook chained after a successful subscriber installation",B+"logger.rs")],
 ["hook calls, log lines and results of initialisation"])
open('/verif/properties.jsonl','w').write("".join(json.dumps(x)+"\n" for x in P))
