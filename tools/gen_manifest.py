#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and the notes below."""
import json, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
EX = "Exhaustive over the families listed in the evidence file, executed on the real code (no model stands between explorer and implementation); the reference model in /verif/mc/src, rustc, std and the third-party crates are trusted. "
T = {
"C01": ("bounded exhaustive exploration of operation histories and reachable states of the real code, lock-step set model", "All histories up to 4 operations on 2 labels and 3 on 3 labels, all states on up to 4 labels x all operations (thorough: deeper), all hash orders for the short ones."),
"C02": ("bounded exhaustive exploration of operation histories and reachable states of the real code, lock-step set model", "As C01, for digraphs with loops."),
"C03": ("exhaustive enumeration of graphs x survivors x vertex sets x entry points and contraction chains on the real code", "All loop-free graphs up to 5 vertices (thorough: 6), named shapes beyond; every hash order up to 3 vertices."),
"C04": ("exhaustive enumeration of graphs, orderings and hash-iteration orders; every iterator drained on the real code", "All graphs up to 4-5 vertices in all three representations, all 24 hash orders at 4 vertices."),
"C05": ("exhaustive enumeration of graphs x vertex subsets x radii x hash orders on the real code", "Graphs up to 5 vertices, radii past the diameter."),
"C06": ("exhaustive enumeration of all pairs of small graphs on the real code", "All pairs over 5 shared labels, with loops over 3."),
"C07": ("exhaustive enumeration of factor pairs, subdivision counts and hash orders on the real code", "Factors up to 4 vertices, with loops up to 3; large and high-labelled shapes; a loop subdivided exactly once is excluded (not a simple graph)."),
"C08": ("exhaustive enumeration of operand tuples and hash orders on the real code", "Pairs over 3 labels with loops, triples on up to 3 vertices; fresh labels compared up to renaming; labels so large that fresh labels overflow u32 are excluded."),
"C09": ("exhaustive enumeration of generator parameters on the real code", "Every size 0..130 (0..24 for two-parameter generators)."),
"C10": ("exhaustive enumeration of graphs x hash-iteration orders on the real code", "All graphs up to 5 vertices x all hash orders, 6 vertices x several, loops included for components."),
"C11": ("exhaustive enumeration of graphs x hash-iteration orders on the real code", "All graphs up to 5 vertices x all hash orders, 6 vertices x several, plus large shapes around the bucket thresholds."),
"C12": ("exhaustive exploration of swap histories over all small graphs and orderings, lock-step permutation model", "All graphs up to 4 vertices x all swap sequences of length 3; for 3..5 vertices a walk through all orderings."),
"C13": ("exhaustive enumeration of ordered graphs and depths on the real code", "All ordered graphs up to 6 vertices."),
"C14": ("exhaustive enumeration of ordered graphs, start vertices and radii on the real code", "All ordered graphs up to 6 vertices, all 7-vertex trees, paths and cycles under every ordering."),
"C15": ("exhaustive enumeration of ordered graphs and hash-iteration orders on the real code", "All graphs up to 6 vertices (thorough: 7) and complete multipartite graphs."),
"C16": ("exhaustive enumeration of ordered graphs x targets x distances x hash orders on the real code", "All graphs up to 6 vertices, all 7-vertex trees."),
"C17": ("exhaustive enumeration of ordered graphs x targets x radii x hash orders on the real code", "All graphs up to 6 vertices, all 7-vertex trees, spiders around the membership threshold."),
"C18": ("exhaustive exploration of augmentation plans over all small graphs and hash-iteration orders on the real code", "All graphs up to 6 vertices, all 7-vertex trees; every increasing depth plan to depth 4, lookahead 0..3."),
"C19": ("exhaustive exploration of edit/augment/view histories of the augmentation on the real code", "All 3-edit histories on 3 vertices; all graphs up to 6 vertices augmented."),
"C20": ("exhaustive enumeration of ordered graphs x all vertex subsets x hash orders on the real code", "All ordered graphs up to 6 vertices (thorough: 7) with every subset; shattered and almost shattered sets at every placement."),
"C21": ("exhaustive enumeration of input texts x byte chunkings x loading routes, and of saved values, on the real code", "All strings up to 5 symbols (thorough: 6); all token pairs; every offset around the buffer size."),
"C22": ("fault enumeration: every read/write/flush/truncation/bit-flip/size-limit position of each value and route on the real code", "Faults are injected through readers and writers under the harness's control and through RLIMIT_FSIZE and /dev/full for the file routes; very long files are sampled at block boundaries in the quick tier only."),
"C23": ("exhaustive enumeration of maps, colourings, insertion histories and value pairs on the real code", "All maps on 6 vertices, all pairs of colourings of 4 vertices, chained extensions, four colour types."),
}
checks = []
for l in open(os.path.join(ROOT, "properties.jsonl")):
    i = json.loads(l)["id"]
    checks.append({"property": i, "quick_cmd": f"bash run.sh {i} quick", "thorough_cmd": f"bash run.sh {i} thorough",
        "technique": T[i][0], "level": "fault_enumeration" if i == "C22" else "model_checking", "level_note": EX + T[i][1]})
m = {"version": 1, "setup_cmd": "bash run.sh build",
  "hooks": {"guard": "none", "enable": "No hooks in /repo: the explorer links the unchanged crate; hash-iteration order is controlled by substituting the fxhash dependency ([patch.crates-io] in /verif/mc/Cargo.toml).", "source_commits": []},
  "checks": checks, "not_applicable": [],
  "notes": "One explorer (/verif/mc) drives the real crate through every behaviour within stated bounds; see DESIGN.md. Replay: bash run.sh replay out/<id>-<tier>.json."}
json.dump(m, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks")
