#!/usr/bin/env python3
"""Writes MANIFEST.json and known_findings.jsonl from the tables below."""
import json, os, subprocess
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = {
 "C01": ("model_checking", "exhaustive operation-sequence exploration of both real bucket types against a list model",
         "All op sequences (add/reset/get on two structures) to the stated depth from every boundary fill level, and every fill level 0..N."),
 "C02": ("model_checking", "exhaustive operation-sequence exploration of the real LSH tables against a map model",
         "All insert/insert-one/clear/lookup sequences to the stated depth over small table grids, from several pre-fills, with a second structure alive."),
 "C03": ("model_checking", "exhaustive enumeration of all code vectors over all small K, L, rangePow and families on the real tables",
         "Range, table locality, injectivity and determinism are decided for every code vector within the bounds; random multiplier draws are explorer choices."),
 "C04": ("model_checking", "exhaustive enumeration of permutation outcomes and small vectors on the real hasher against a window model",
         "All permutations for small dimensions, deviation-bounded above; vectors over a small alphabet of values, dense and sparse in every pair order."),
 "C05": ("model_checking", "exhaustive enumeration of permutation/seed outcomes and small vectors on the real hasher against a bin and probe model",
         "The random draws deciding permutations and probe seeds are explorer choices; vectors over a small alphabet, dense and sparse in every pair order."),
 "C06": ("model_checking", "exhaustive enumeration of hash seeds and small vectors on the real hasher against a top-K bin model",
         "Hash values of the coordinate map are explorer choices; all small dims, ranges, topK and vectors over a small alphabet."),
 "C07": ("model_checking", "exhaustive enumeration of sample/sign outcomes and small vectors on the real hasher against a signed-sum model",
         "All sampling and sign draws for small dimensions, deviation-bounded above; vectors over a small alphabet, dense and sparse in every pair order."),
 "C08": ("model_checking", "statement-level controlled scheduler exploring all interleavings of two concurrent queries up to a preemption bound, plus a free-running race-detector pass",
         "Sequential consistency at statement granularity up to the preemption bound; data races are looked for separately with -race on the same bodies."),
 "C09": ("model_checking", "exhaustive enumeration of modes, labels, inputs and random draws of small real layers against a set model",
         "Layers of at most a few neurons are enumerated completely within the alphabet; large layers (over 1000 neurons) are covered at chosen sizes around the thresholds."),
 "C10": ("model_checking", "exhaustive exploration of query histories on small real layers against a dense reference forward pass",
         "Parameters, inputs and histories come from a small alphabet with extreme values; float comparison within 1e-6 relative."),
 "C11": ("model_checking", "exhaustive exploration of training call sequences on small real networks against a reference gradient and optimizer",
         "Parameters, batches, flags and iterations from a small alphabet; float32 comparison within tolerances derived from rounding."),
 "C12": ("model_checking", "exhaustive exploration of inference/training interleavings of small real networks against a counting model and a twin network",
         "Twin runs with the same environment answers decide that inference leaves no trace."),
 "C13": ("model_checking", "exhaustive exploration of rehash/rebuild flag sequences on small real networks with tables recomputed from weights",
         "Tables are read back completely after every call and compared with addresses recomputed by the layer's own hasher."),
 "C14": ("model_checking", "exhaustive exploration of node operation/derivation histories with fresh ids against a value-semantics model",
         "All histories to the stated depth; every live node is compared with its model after every step."),
 "C15": ("model_checking", "exhaustive exploration of per-slot operation sequences on real nodes against a state-machine model",
         "All histories to the stated depth over two slots and small value alphabets."),
 "C16": ("model_checking", "exhaustive exploration of derivation histories of real networks against independent deep-copy twins",
         "All call histories along chains and trees of fresh ids to the stated depth; states compared field by field."),
 "C17": ("model_checking", "exhaustive enumeration of all short texts and grammar token products on the real reader against a reference parser",
         "All strings over the grammar alphabet to the stated length, all token products, and long lines around buffer boundaries."),
 "C18": ("fault_enumeration", "exhaustive enumeration of read fragmentations and failure points of the real reader",
         "All compositions of small texts into reads and every failing byte, with a failing reader under explorer control."),
 "C19": ("model_checking", "exhaustive enumeration of field subsets, wrong types, truncations and load histories on the real loader against a field model",
         "Every field alone, all pairs, complements; every truncation; histories of loads and mutations to the stated depth."),
 "C20": ("model_checking", "exhaustive enumeration of schedule parameters, running the real driver with a recording network, against a schedule model",
         "The real main program is built with an overlay in which the network records its calls; every call is compared with the model."),
 "C21": ("model_checking", "exhaustive enumeration of schedule parameters and prediction results, running the real driver with a recording network, against an evaluation model",
         "The real main program is built with an overlay in which the network records its calls; evaluation batches and reported accuracies are compared with the model."),
 "C22": ("model_checking", "statement-level controlled scheduler exploring all interleavings of two goroutines' calls on one network up to a preemption bound, plus a free-running race-detector pass",
         "Sequential consistency at statement granularity up to the preemption bound on small networks; data races are looked for separately with -race on the same pairs of calls."),
 "C23": ("model_checking", "exhaustive enumeration of small weight assignments, listing orders and call sequences on real layers and networks, each neuron presented to its own layer",
         "Complete for the enumerated exact weight alphabets; generic weights of larger layers come from fixed streams."),
 "C24": ("model_checking", "exhaustive enumeration of small network shapes with individually marked random draws, of supplied parameters, and of interleavings of calls on two networks",
         "Shapes to three or four neurons per layer are enumerated completely; every parameter is traced to its own draw."),
 "C25": ("model_checking", "exhaustive exploration of call histories in which the caller overwrites its examples after every call, against the same history with untouched examples",
         "All histories to the stated depth over a small set of batches; memory is compared up to capacity."),
 "C26": ("fault_enumeration", "exhaustive enumeration of file faults at every call of the real driver's schedule, against a model of the schedule",
         "Every kind of unusable file at the start and after every k-th call of small schedules; faults within a read are covered by C18."),
 "C27": ("model_checking", "exhaustive exploration of trees of layer derivations against independently driven layers",
         "All histories to the stated depth over seven operations, small layers and one large one."),
 "C28": ("model_checking", "exhaustive enumeration of configurations of real networks with all short sequences of usual and unusual calls",
         "Configurations are complete products of the listed values; deeper call sequences on fewer of them."),
 "C29": ("model_checking", "exhaustive enumeration of small training files and configurations, the real program run as a process against a dense reference network",
         "All training files to the stated length over four examples; networks with sampled layers are compared with the library driven by the reference schedule."),
 "C30": ("model_checking", "exhaustive enumeration of cycles of calls on small real networks, each repeated until the live heap reaches a fixed point",
         "All cycles to the stated length; growth that continues beyond 768 repetitions counts as unbounded."),
 "C31": ("model_checking", "exhaustive enumeration of schedules of the real driver run as a process, with open files, heap and goroutines measured at every call",
         "All combinations of the stated schedule parameters, with runs of up to 96 epochs and thousands of iterations."),
 "C32": ("model_checking", "exhaustive enumeration of profile switches, earlier file contents and schedules of the real driver run as a process",
         "All four switch settings and nine states of the working directory on each schedule; the samples of a profile are not judged."),
 "C33": ("model_checking", "exhaustive exploration of call sequences of small real networks, the printed statistic compared with one computed from the tables",
         "All call sequences to the stated depth over fixed batches and parameters; modes 1 and 4."),
}
checks = []
for p, (lvl, tech, note) in T.items():
    checks.append({"property": p, "quick_cmd": "python3 run.py %s quick" % p,
                   "thorough_cmd": "python3 run.py %s thorough" % p,
                   "evidence_file": "evidence/%s.json" % p, "technique": tech, "level": lvl, "level_note": note})
m = {"version": 1, "setup_cmd": "python3 run.py --setup", "checks": checks, "not_applicable": [],
     "notes": "No hooks in /repo: the harness compiles /repo's working tree with go build -overlay."}
with open(os.path.join(V, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1); f.write("\n")
F = """a177646 C14,C16 slice copy helpers returned their argument, so copy-on-write clones shared their slices
82fcb0e C11 SGD mirror weights shared storage with the weights, so examples of a batch saw modified weights
f9d0a9f C11,C15 softmax error of a label node was divided by the batch size only in part
878bb7c C11,C15 first-layer SGD bias update ignored the learning rate
7f04211 C10 softmax shift started at 0, so all-negative logits were not shifted (sum 0)
3ead3e3 C12 an output layer without active node predicted class 0
bf5f9d6 C09 layer mode 3 kept more than the requested number of nodes
626a2e9 C09 layer mode 3 ranked label nodes after very large scores
510790b C09 layer modes 2 and 3 failed when there were more labels than sampled nodes
8155b7a C09 layer mode 2 failed for layers larger than the fixed bitset
a6340d6 C09 layer mode 4 counted repeated labels repeatedly
f3ae174 C09 layer mode 1 dropped labels when there were few tables
2d6a899 C13 rebuilding hash functions left the tables filled under the old ones
fd411fa C05 sparse densified WTA used the pair position instead of the coordinate number
42c2151 C05,C06 densification probes were not 32-bit, so they left the bin range
7d7a9a6 C04 sparse WTA used the pair position instead of the coordinate number
88146a6 C06 minhash kept the smallest values instead of the largest
46cf78d C06 minhash failed for vectors shorter than topK
f814ad9 C06 sparse minhash used the pair position instead of the coordinate number
97a0d39 C06 minhash bins were out of range for some ranges
1ac9255 C07 sparse random projection required sorted pairs
8b69b32 C03 bucket addresses of some families left the tables
d601acb C03 WTA codes were packed so that different tuples shared an address
c887339 C20 rehash/rebuild periods shorter than a batch divided by zero
ffc4552 C17 lines longer than 64 KiB were refused
c71d887 C16 copy-on-write layers and networks modified their original
8f2ba55 C04 coordinates below -2^63 were never chosen by WTA
ea58ca0 C05 coordinates below -2^63 were never chosen by densified WTA"""
with open(os.path.join(V, "known_findings.jsonl"), "w") as f:
    for l in F.split("\n"):
        c, ps, what = l.split(" ", 2)
        for p in ps.split(","):
            f.write(json.dumps({"status": "fixed", "property": p, "commit": c,
                                "line": "fixed: property=%s %s %s" % (p, c, what)}) + "\n")

# the table of planted bugs in DESIGN.md
import glob
rows = ["| seed | property | what it breaks |", "|---|---|---|"]
for d in sorted(glob.glob(os.path.join(V, "seeded", "*"))):
    with open(os.path.join(d, "meta.json")) as f:
        m = json.load(f)
    rows.append("| %s | %s | %s |" % (os.path.basename(d), m["property"], m["what_it_breaks"].replace("|", "/")))
p = os.path.join(V, "DESIGN.md")
s = open(p).read()
i, j = s.index("<!-- seeds -->"), s.index("<!-- /seeds -->")
with open(p, "w") as f:
    f.write(s[:i] + "<!-- seeds -->\n" + "\n".join(rows) + "\n" + s[j:])
