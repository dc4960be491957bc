# per property: the oracle (technique) and the assurance note
TECH = {}
MISSED = {}
NA = {}
ORACLE = {
"P01": "differential against an independent OSC encoder",
"P02": "round trip and differential against an independent OSC codec",
"P03": "differential against a reference framing checker, under AddressSanitizer with exact-size buffers",
"P04": "differential between serialised accessors, in-memory accessors and a reference decoder",
"P05": "differential against a reference conversion table",
"P06": "differential against a reference pattern matcher; invariants on partial matches",
"P07": "differential against a reference lookup over an independent matcher",
"P08": "differential against set operations on a model",
"P09": "stateful model-based testing against an ordered list",
"P10": "stateful model-based testing against a list",
"P11": "stateful model-based testing against a list, bytes compared",
"P12": "differential against a reference explode/flatten; round trip",
"P13": "print/parse round trip against the model",
"P14": "differential against a reference formatter; size and bounds invariants",
"P15": "grammar-based generation with known meaning",
"P16": "structure-aware fuzzing under sanitizers with an outcome oracle",
"P17": "metamorphic: copy, edit or free one side, compare the other with the model",
"P18": "operation-sequence fuzzing with a heap balance oracle",
"P19": "differential against 128-bit integer arithmetic",
"P20": "differential against a reference calendar",
"P21": "stateful model-based testing against a map",
"P22": "stateful model-based testing against a deque",
"P23": "differential against a reference dispatcher",
"P24": "differential against a reference partition",
"P25": "stateful model-based testing against a map",
"P26": "stateful model-based testing against a vector",
"P27": "generated programs against a reference evaluator",
"P28": "generated programs against a reference evaluator",
"P29": "metamorphic: minimal, full and functional spelling of one operator tree; reference evaluator",
"P30": "generated programs against a reference store",
"P31": "generated lambda terms against a reference evaluator",
"P32": "generated calls against sequence definitions",
"P33": "generated calls against mathematical definitions",
"P34": "generated calls against string and conversion definitions",
"P35": "grammar-aware fuzzing of programs under sanitizers; determinism and well-formedness oracle",
"P36": "round trip and differential against a reference quoter, with guarded buffers",
"P37": "operation sequences under a recording allocator",
"P39": "invariant between the lookup, the documentation and the parser over generated names, categories and calls",
"P40": "differential against reference sizes, encodings and ranks",
"P41": "differential between the generated tree, the printed form and the walked tree",
"P42": "generated programs against a reference store of nested bundles",
"P43": "generated reports and generated mistakes in expressions against a reference of the text, place and context of the report",
"P38": "differential against a reference position and error of every byte",
}
