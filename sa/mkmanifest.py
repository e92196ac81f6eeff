#!/usr/bin/env python3
"""Regenerates MANIFEST.json from properties.jsonl and the registered rules."""
import importlib, json, os, sys
HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
sys.path.insert(0, HERE)
sys.path.insert(0, ROOT)
import check
rules = check.load_rules()
notes = {}
for m in check.MODULES:
    try:
        notes.update(getattr(importlib.import_module(m), "NOTES", {}))
    except ModuleNotFoundError:
        pass
NA = {
    "N01": "unforgeability is a computational-hardness statement about the signature schemes; no analysis of this source bounds an adversary",
    "N02": "the search cost depends on the run-time shape of the graph; no static argument in reach bounds it (the search is exponential by design)",
    "N03": "crash atomicity is decided inside SQLite and the file system, outside the analysed source",
    "N04": "the database file is run-time state that other processes may edit; the source cannot show who wrote a row",
}
props = [json.loads(l) for l in open(os.path.join(ROOT, "properties.jsonl"))]
checks, na = [], []
BASE = ("Every path of the anchored functions is interpreted abstractly for all inputs (no bound, no unrolling; loops by "
        "fixpoint) and compared with the rule. Trusts rustc's MIR, the std/third-party models in sa/models.py and the "
        "cryptographic primitives; a path the analysis cannot follow is reported as UNDECIDED in the evidence, not as an alarm. ")
TECH = "static analysis: abstract interpretation (dataflow) of rustc MIR in a term domain, path-sensitive, loop fixpoints"
for p in props:
    i = p["id"]
    if i in rules:
        t, n = notes.get(i, (TECH, ""))
        checks.append({"property": i, "quick_cmd": f"python3 check.py {i}", "thorough_cmd": f"python3 check.py {i} --tier thorough",
                       "evidence_file": f"evidence/{i}.json", "technique": t or TECH, "level": "other", "level_note": BASE + n})
    else:
        na.append({"property": i, "reason": NA.get(i, "no check built yet")})
out = {"version": 1, "setup_cmd": "python3 sa/build.py", "checks": checks, "not_applicable": na,
       "notes": "All checks share one engine: driver/ dumps the MIR of /repo's current tree, sa/ interprets it abstractly. No hooks in /repo."}
json.dump(out, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks,", len(na), "not applicable")
