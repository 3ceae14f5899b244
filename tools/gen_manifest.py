#!/usr/bin/env python3
"""Write MANIFEST.json. READY lists the properties that have a check."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(V + "/properties.jsonl")]
T = {
 "C01": ("differential property-based testing: accumulated training predictions against model predictions", "random tables and configurations, shrunk choice sequences"),
 "C02": ("property-based testing against an f64 reference of the split search", "tolerance for f32 sums; ties not decided"),
 "C03": ("property-based testing of structural invariants with an observing objective and a routing reference", "node tests reconstructed from the training partition"),
 "C04": ("metamorphic property-based testing over compression thresholds", "bitwise equality; tables clustered so that compression happens"),
 "C05": ("metamorphic property-based testing over repeated runs, thread counts and seeds", "thread schedules are sampled, not enumerated"),
 "C06": ("metamorphic property-based testing of prediction over row rearrangements, with a bias-plus-leaf oracle", "random models and rows"),
 "C07": ("metamorphic property-based testing of run prefixes", "random configurations, sampling included"),
 "C08": ("property-based testing against f64 reference formulas, over histories of leaf and update calls", "tolerances for f32 and one quantile bin"),
 "C09": ("property-based testing against f64 reference formulas, over histories of updates", "tolerances for f32 and one quantile bin"),
 "C10": ("property-based testing of a monotonicity invariant over the history of iterations", "slack for f32 rounding"),
 "C11": ("stateful model-based testing of bit slices against a vector model", "all widths and both implementations"),
 "C12": ("differential property-based testing of the vector kernels against bit-by-bit references", "all entry points, lengths around the unrolling boundaries"),
 "C13": ("property-based testing of iterators against a position-list reference", "all plain and compressed iterators"),
 "C14": ("stateful model-based testing of bit containers against boolean arrays", "random operation sequences"),
 "C15": ("stateful model-based testing of the allocators against a map of owned contents", "random interleavings across growth and reuse"),
 "C16": ("property-based testing of binned ranks against exact order statistics", "random multisets, limits, weights"),
 "C17": ("property-based testing of candidate masks against their tests, and of cut points against f64 weighted quantiles", "cut points to one bin of 512"),
 "C18": ("property-based testing of category groups against f64 category means and ranks", "to one bin of 512"),
 "C19": ("property-based and statistical testing of samples over update histories", "6.5 sigma frequency bounds; false alarm probability below 1e-8 per test"),
 "C20": ("property-based testing of metrics against f64 definitions", "f32 rounding tolerance"),
 "C21": ("grammar-based generation and mutation of configuration lines against a reference parser", "all fields"),
 "C22": ("grammar-based generation and mutation of CSV text against a reference parser", "finite numbers, categories below a million"),
 "C23": ("random testing of degenerate data and configurations: no panic, finite predictions", "debug assertions and overflow checks on; one known finding (hinge overflow)"),
 "C24": ("stateful model-based testing of the C interface against a reference state machine and the library", "call sequences over several contexts, allocation balance"),
 "C25": ("differential and stateful property-based testing of column assignment against CSV loading", "random tables and assignment orders"),
 "C26": ("differential property-based testing of the command line program against the library", "real process runs on generated files"),
 "C27": ("differential property-based testing of the Python wrapper against the library", "the repository's wrapper run in Python on generated matrices and call orders"),
 "C28": ("generators of the other properties and one of misuse of the safe interface, run on an AddressSanitizer build", "no report on the explored cases; reads of uninitialised memory are not covered"),
 "C30": ("model-based property-based testing of prediction on generated trees against a walk of the tests", "all entry points; unknown categories"),
 "C31": ("metamorphic property-based testing of a used working memory against a new one, over histories of rounds", "leaf by leaf, bitwise"),
 "C32": ("property-based testing of an invariant over the history of iterations with a counting allocator", "slack for vectors growing to their final size"),
 "C33": ("metamorphic property-based testing over max_tree_depth and min_gain", "the smaller tree is the bigger one cut off"),
 "C34": ("metamorphic property-based testing of work done at the same time against the same work done alone", "schedules are sampled, not enumerated"),
 "C35": ("metamorphic property-based testing over settings that do not concern a run", "bit equality of all predictions"),
 "C29": ("metamorphic property-based testing over columns, units, target scale, row order and repetition", "exact-sum constructions"),
}
READY = os.environ.get("READY", " ".join(sorted(T))).split()
checks = [{"property": p["id"], "quick_cmd": "bash check.sh %s quick" % p["id"], "thorough_cmd": "bash check.sh %s thorough" % p["id"],
           "evidence_file": "evidence/%s.json" % p["id"], "technique": T[p["id"]][0], "level": "exploration", "level_note": T[p["id"]][1]}
          for p in props if p["id"] in READY]
na = [{"property": p["id"], "reason": "check under construction"} for p in props if p["id"] not in READY]
m = {"version": 1, "setup_cmd": "bash setup.sh", "checks": checks, "not_applicable": na}
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
open(V + "/MANIFEST.json", "a").write("\n")
try:
    import jsonschema
    jsonschema.validate(m, json.load(open("/root/.vp/MANIFEST.schema.json")))
except ImportError:
    pass
print(len(checks), "checks,", len(na), "not claimed")
