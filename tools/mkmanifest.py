#!/usr/bin/env python3
"""Write /verif/MANIFEST.json from properties.jsonl and the list of properties that have a check."""
import json, os, re
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(f"{here}/properties.jsonl")]
src = open(f"{here}/harness/src/props/mod.rs").read()
done = re.findall(r'"(P\d\d)"', src.split("IDS")[1].split("];")[0])
T = {
 "P01": ("PBT: generated dictionaries and texts, tiling invariant", "tokens of generated texts under generated dictionaries of all five kinds tile the text"),
 "P02": ("PBT: differential against a reference lattice and shortest path", "cost of the returned path equals the optimum of an independently built lattice"),
 "P03": ("PBT: differential against a reference lattice with penalties", "as P02 with decompose mode's candidates and penalties"),
 "P04": ("PBT: metamorphic (sentence split, history, clone, threads)", "thread schedules are sampled, not enumerated"),
 "P05": ("PBT: identity of every token resolved through unique row markers", "every token's word id and details against the generated rows"),
 "P06": ("PBT: build/load round trip against the generated lexicon", "complete comparison of lookup results, plus absent and near-miss surfaces"),
 "P07": ("PBT: char.def grammar against a line-by-line evaluator", "all boundaries of all ranges and generated characters are compared"),
 "P08": ("PBT: matrix.def round trip over every pair", "every pair of small matrices, sampled pairs of large ones"),
 "P09": ("PBT: unk.def round trip, and malformed lines", "every category's templates compared"),
 "P10": ("PBT: user dictionary CSV round trip against the rows' meaning", "complete comparison of lookup results for generated CSVs of all kinds"),
 "P11": ("PBT: differential CSV versus compiled user dictionary", "tokens, ids and details on generated texts; loader dispatch"),
 "P12": ("PBT: fault injection into dictionary sources and built files", "mutated valid sources; panics and crashes are violations"),
 "P13": ("PBT: differential embedded versus external dictionaries", "the embedding crates compiled with generated sources, plain and compressed"),
 "P14": ("PBT/fuzzing: codec round trip, truncation, corruption", "byte strings of many shapes, all four algorithms"),
 "P15": ("PBT: differential against a naive rewriter with explicit pieces", "output text and every piece boundary"),
 "P16": ("PBT: differential against a match-by-match rewriter", "output text and every piece boundary for generated patterns"),
 "P17": ("PBT: differential against whole-text normalisation, idempotence", "output text and the boundaries of independently normalised pieces"),
 "P18": ("PBT: differential against a reference expander", "exact output for generated runs and settings"),
 "P19": ("PBT: offset invariants through filter chains", "generated chains of character filters over generated dictionaries"),
 "P20": ("PBT: differential analyzer versus hand-composed stages", "generated configurations"),
 "P21": ("PBT: differential against predicate models", "exact token lists"),
 "P22": ("PBT: differential against rewriting models", "exact token lists"),
 "P23": ("PBT: differential against a run-merging model", "exact token lists"),
 "P24": ("PBT: numeral renderings of generated numbers", "every generated standard form of numbers below 10^24"),
 "P25": ("PBT: JSON round trips and structured mutation", "generated configurations and mutated JSON"),
 "P26": ("PBT: differential command line versus library", "the real binary run on generated inputs"),
    "P27": ("PBT: differential between encodings, models of the options", "generated option values and source files"),
}
checks = [{
    "property": p["id"],
    "quick_cmd": f"bash run.sh check {p['id']}",
    "thorough_cmd": f"VERIF_TIER=thorough bash run.sh check {p['id']}",
    "technique": T[p["id"]][0],
    "level": "exploration",
    "level_note": "Generated-input search, no proof: " + T[p["id"]][1] + ". Deterministic for a given VERIF_SEED.",
} for p in props if p["id"] in done]
m = {"version": 1, "setup_cmd": "bash run.sh build", "checks": checks,
     "not_applicable": [{"property": p["id"], "reason": "its check is not built yet"} for p in props if p["id"] not in done],
     "notes": "One harness crate (/verif/harness) with path dependencies on /repo's crates; no hooks in /repo are needed."}
json.dump(m, open(f"{here}/MANIFEST.json", "w"), indent=1, ensure_ascii=False)
print(len(checks), "checks")
