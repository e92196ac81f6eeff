#!/usr/bin/env python3
"""check.py <property id> [--tier quick|thorough]: decide one property on /repo's current tree.

exit 0: the property holds on everything analysed; exit 1: VIOLATION line(s)."""
import importlib
import json
import os
import shutil
import sys
import tempfile
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, "sa"))
sys.setrecursionlimit(20000)

MODULES = ("rules_keypair", "rules_core", "rules_graph", "rules_storage", "rules_service", "rules_trap", "rules_error", "rules_serde")
KNOWN = os.path.join(HERE, "known_findings.txt")

ASSUMPTIONS = [
    "rustc's MIR (nightly front end, native target) represents the source; std and third-party calls behave as modelled in sa/models.py",
    "cryptographic primitives, bs58, libp2p-identity and SQLite are trusted to meet their documented contracts",
    "collections hold fewer than 2^31-1 elements",
]


def known(pid):
    out = []
    if os.path.exists(KNOWN):
        for l in open(KNOWN):
            l = l.strip()
            if l.startswith("finding: property=" + pid + " "):
                rest = l[len("finding: property=" + pid + " "):]
                key, _, text = rest.partition(" :: ")
                out.append((key.strip(), text.strip()))
    return out


def load_rules():
    rules = {}
    for m in MODULES:
        try:
            rules.update(importlib.import_module(m).RULES)
        except ModuleNotFoundError:
            pass
    return rules


def main():
    args = [a for a in sys.argv[1:] if not a.startswith("--")]
    pid = args[0]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in sys.argv:
        tier = sys.argv[sys.argv.index("--tier") + 1]
        args = [a for a in args if a != tier]
    if tier not in ("quick", "thorough"):
        tier = "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    ev = os.path.join(HERE, "evidence")
    os.makedirs(os.path.join(ev, "replay"), exist_ok=True)
    replay = os.path.join(ev, "replay", pid + ".json")
    import build
    d = tempfile.mkdtemp(prefix="sa-")
    viol, undecided, ctx = [], [], None
    try:
        try:
            build.dump(d)
            import ir
            import rulelib
            prog = ir.Program(d)
            ctx = rulelib.Ctx(prog, pid)
            ctx.tier = tier
            ctx.repo = build.REPO
            rules = load_rules()
            try:
                rules[pid](ctx)
            except rulelib.Missing as e:
                ctx.bad("anchor", str(e), f"the construct this property is about is missing from the program: {e}")
            except (rulelib.Unsupported, RecursionError, KeyError, IndexError, AttributeError, TypeError, ValueError) as e:
                undecided.append(("engine", "", traceback.format_exc(limit=-6)))
            viol = ctx.viol
            undecided += ctx.undecided
        except build.BuildError as e:
            viol = [dict(rule="build", where=e.crate, detail="the program does not type-check: " + e.text[-3000:])]
    finally:
        shutil.rmtree(d, ignore_errors=True)
    # known findings
    kn = known(pid)
    left, shown = [], set()
    for v in viol:
        hit = None
        for key, text in kn:
            if key and key in (v["rule"] + " @ " + v["where"]):
                hit = text
        if hit is None:
            left.append(v)
        else:
            shown.add(hit)
    for t in sorted(shown):
        print(f"KNOWN-FINDING: property={pid} {t}")
    obl = ctx.obl if ctx else []
    byrule = {}
    for r, w, k in obl:
        e = byrule.setdefault(r, [0, 0])
        e[0] += 1
        e[1] += 1 if k else 0
    cov = {
        "explanation": "static analysis of the MIR of /repo's current tree: every path of the functions below was abstractly "
                       "interpreted for all inputs and compared with the property's rule; nothing was executed",
        "obligations": len(obl),
        "discharged": sum(1 for o in obl if o[2]),
        "functions_analysed": sorted(ctx.functions) if ctx else [],
        "paths": ctx.paths if ctx else 0,
        "call_sites": ctx.calls if ctx else 0,
        "abstract_steps": ctx.steps if ctx else 0,
        "rules": {r: {"obligations": a, "discharged": b} for r, (a, b) in sorted(byrule.items())},
        "samples": [{"rule": r, "where": w} for r, w, _ in obl[:5]],
        "undecided": [list(map(str, u)) for u in undecided],
    }
    out = {"property": pid, "tier": tier, "seed": seed, "level": "other", "coverage": cov,
           "assumptions": ASSUMPTIONS + (ctx.assumptions if ctx else []), "wall_s": round(time.time() - t0, 2),
           "violations": len(left)}
    json.dump(out, open(os.path.join(ev, pid + ".json"), "w"), indent=1)
    for u in undecided:
        print("UNDECIDED", *[str(x)[-600:] for x in u])
    if left:
        json.dump({"property": pid, "violations": left}, open(replay, "w"), indent=1, default=str)
        for v in left[:8]:
            print(f"  {v['rule']} | {v['where']} | {v['detail'][:800]}")
        print(f"VIOLATION property={pid} replay={replay}")
        return 1
    if os.path.exists(replay):
        os.remove(replay)
    print(f"{pid}: {cov['discharged']}/{cov['obligations']} obligations discharged, {cov['paths']} paths in "
          f"{len(cov['functions_analysed'])} functions, {out['wall_s']} s")
    return 0


if __name__ == "__main__":
    sys.exit(main())
