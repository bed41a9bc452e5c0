#!/usr/bin/env python3
"""check.py ID : decide one property on /repo's current tree."""
import importlib
import json
import os
import sys
import time
import traceback

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(HERE, "analysis"))
sys.path.insert(0, os.path.join(HERE, "tools"))


def main():
    pid = sys.argv[1]
    repo = os.environ.get("VERIF_REPO", "/repo")
    t0 = time.time()
    if "--no-extract" not in sys.argv:
        import extract
        extract.extract(repo, os.environ.get("VERIF_WORK"))
    import lib
    mod = importlib.import_module("props." + pid.lower())
    c = lib.Check(pid)
    try:
        mod.run(c)
    except (lib.Limit, KeyError, IndexError, AttributeError, ValueError, RecursionError, AssertionError, TypeError) as x:
        # an anchor the rule rests on is gone or has another shape: fail closed
        tb = traceback.format_exc()
        c.ob(False, "analysis", type(x).__name__ + ": " + str(x)[:120], tb[-2500:])
    known = json.load(open(os.path.join(HERE, "known_findings.json")))["findings"]
    kk = {f["key"]: f for f in known if f["property"] == pid}
    ev = os.environ.get("VERIF_EVIDENCE") or os.path.join(HERE, "evidence")
    os.makedirs(ev, exist_ok=True)
    bad = [v for v in c.viol if v["key"] not in kk]
    for v in c.viol:
        if v["key"] in kk:
            print("KNOWN-FINDING: property=%s %s" % (pid, kk[v["key"]]["what"]))
    replay = os.path.join(ev, pid + ".violations.json")
    if bad:
        json.dump(bad, open(replay, "w"), indent=1)
        for v in bad[:8]:
            print("VIOLATION property=%s replay=%s" % (pid, replay))
            print("  rule %s at %s: %s" % (v["rule"], v["at"], v["detail"][:600]))
            if v.get("sites"):
                print("  path effects at: %s" % ", ".join(v["sites"][:12]))
            for l in v.get("path", [])[:12]:
                print("    on path: %s" % l[:200])
        if len(bad) > 8:
            print("  ... %d violated obligations in all" % len(bad))
    elif os.path.exists(replay):
        os.remove(replay)
    fns = {k: len(v) for k, v in lib.STATS["fns"].items()}
    out = {
        "property": pid,
        "tier": os.environ.get("VERIF_TIER", "quick"),
        "seed": int(os.environ.get("VERIF_SEED", "1")),
        "level": "other",
        "coverage": {
            "explanation": "Abstract interpretation of the monomorphised MIR of /repo's current tree: every "
            "path of the entry points below is explored with trace partitioning (joined paths keep their "
            "facts as disjunctions, loops are widened); each obligation is decided on each successful path.",
            "obligations": c.n,
            "discharged": c.n - len(c.viol),
            "by_rule": c.rules,
            "functions_analysed": fns,
            "blocks_executed": lib.STATS["blocks"],
            "call_sites": lib.STATS["calls"],
            "entry_points": lib.STATS["entries"][:200],
            "paths": lib.STATS["paths"],
            "samples": c.samples[:24],
            "rules": (mod.__doc__ or "").strip(),
            "known_findings_seen": [v["key"] for v in c.viol if v["key"] in kk],
        },
        "assumptions": [
            "library calls behave as modelled in analysis/models.py (cosmwasm-std, cw-storage-plus, core/alloc)",
            "a failed transaction is rolled back by the chain, so only successful paths matter",
            "the MIR rustc emits is what runs",
        ],
        "wall_s": round(time.time() - t0, 2),
        "violations": len(bad),
    }
    json.dump(out, open(os.path.join(ev, pid + ".json"), "w"), indent=1, default=str)
    print("%s: %d obligations, %d violated, %d known (%.1fs)" % (pid, c.n, len(bad), len(c.viol) - len(bad), time.time() - t0))
    return 1 if bad else 0


if __name__ == "__main__":
    sys.exit(main())
