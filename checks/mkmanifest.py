"""Writes MANIFEST.json: the properties with a check module are claimed."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
LEVEL = {
    "C01": ("model_checking", "TLC enumerates one-operator models, multi-node programs and rewrite patterns within bounds and computes their outputs; each model is imported, generated, interpreted and compared with simplification off."),
    "C02": ("model_checking", "For every model of the specification the outputs with simplification on are compared with those off and with the specification."),
    "C15": ("model_checking", "Every generated source of every model of the specification, both variants, has to resolve and type-check against the tensor interface."),
    "C03": ("model_checking", "Wiring.tla walks every imported graph next to the model it came from, for every model of the specifications, and relates each operand, result and capture to the model's value of the same meaning."),
    "C04": ("model_checking", "TLC enumerates small models and grows larger ones whose inputs, initializers, nodes and outputs come in any order; their imported and generated interfaces are judged against the specification and the outputs compared."),
    "C05": ("model_checking", "TLC enumerates element types, encodings, shapes and contents, including mismatching ones; each tensor is imported from an initializer, a Constant and external data and compared bit by bit."),
    "C08": ("model_checking", "For every model of the specifications, with and without simplification, the type, rank, static extents and kind of each imported value are compared with the value the specification computes for it."),
    "C09": ("model_checking", "TLC applies every single breakage of Refusals.tla to models the interpreter runs and every wire damage of Wire.tla to their bytes; what the specification calls broken must be refused with an error, and what is left well-formed must not."),
    "C22": ("model_checking", "TLC enumerates the numbers around every boundary of each element type and the places of a model that hold numbers; each is imported, generated, compiled and run, and the number that comes out compared bit by bit."),
    "C10": ("model_checking", "TLC enumerates the ways to open each model and simulates histories of openings in one process; each opening's graph is compared with the others'."),
    "C11": ("model_checking", "Every model of the specifications is generated again and again in processes of their own and in other orders, and TLC's histories of generations are replayed; the results of one request have to be one."),
    "C12": ("model_checking", "TLC enumerates assignments of awkward names to the values and nodes of template models and names each value of every one-operator model; each is imported, generated, compiled and run."),
    "C13": ("model_checking", "TLC enumerates bodies, captures, states, conditions and nestings of If, Loop and Scan and runs them by the specification's interpreter; each is imported, generated, compiled and run."),
    "C16": ("model_checking", "TLC enumerates the layers and arrangements of models with weights and says which parameter has which value; the generated module's parameters are compared after each way of loading."),
    "C17": ("model_checking", "TLC enumerates configurations, inputs and stale files and simulates histories of runs; each is played in a directory of its own and the files before and after judged by the specification."),
    "C18": ("model_checking", "For every model of the specifications the simplified graph is searched by Wiring.tla for nodes that do not contribute, identities between nodes and constants nobody reads, and its outputs are compared."),
    "C06": ("model_checking", "TLC enumerates every link layout and location of the bounded file system and checks containment on the specification; every one is replayed into the real resolver, and a covering share through whole imports."),
    "C07": ("model_checking", "TLC enumerates every metadata sequence and every declared range of the bounded domain; all are replayed into the real parser and through whole imports, through both reading paths."),
    "C14": ("model_checking", "TLC enumerates explicit pads, modes and geometries within bounds; each is replayed through the import and the public padding types."),
    "C19": ("model_checking", "TLC enumerates every builder call sequence within bounds; each is replayed into real generated builders and compared with the specified node."),
    "C20": ("model_checking", "TLC derives token programs from the grammar in the specification; each is formatted by the real formatter and compared token by token."),
    "C21": ("model_checking", "TLC explores the runner's state machine for every command line and failure pattern in bounds; each behaviour is replayed against the real xtask binary with recording stand-ins for uv and cargo."),
    "C23": ("model_checking", "TLC enumerates environments and model names; each is replayed in a fresh process against the real code of both stages."),
    "C24": ("model_checking", "TLC enumerates every history of events up to the bound; each is replayed in a fresh process and its observations compared."),
}
TECH = "TLA+ specification checked with TLC; behaviours replayed into the real code (model-based conformance)"
props = [json.loads(l) for l in open(f"{V}/properties.jsonl")]
checks, na = [], []
for p in props:
    i = p["id"]
    if os.path.exists(f"{V}/checks/{i.lower()}.py"):
        lv, note = LEVEL.get(i, ("model_checking", "TLC enumerates the bounded cases of the specification and each is replayed through the real code."))
        checks.append({"property": i, "quick_cmd": f"python3 checks/run.py {i} quick", "thorough_cmd": f"python3 checks/run.py {i} thorough",
                       "technique": TECH, "level": lv, "level_note": note})
    else:
        na.append({"property": i, "reason": "Not claimed yet: its check is still being built."})
json.dump({"version": 1, "setup_cmd": "python3 checks/setup.py", "hooks": {"guard": "none", "enable": "no hooks are needed: the checks use the public API, the generated code, the binaries, and source files included by path", "source_commits": []},
           "checks": checks, "not_applicable": na}, open(f"{V}/MANIFEST.json", "w"), indent=1)
print([c["property"] for c in checks], len(na))
