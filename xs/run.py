"""Check driver: python3 -m xs.run <property> [--tier quick|thorough]"""
import argparse
import importlib
import json
import os
import sys
import time
import traceback

from . import esp, props
from .lib import AnchorMissing, Ctx, VERIF
from .build import BuildError

KNOWN = f"{VERIF}/known_findings.json"


def known():
    with open(KNOWN, encoding="utf-8") as f:
        return json.load(f)


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("property")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--no-evidence", action="store_true")
    a = ap.parse_args()
    t0 = time.time()
    pr = props.BY_ID[a.property]
    sys.setrecursionlimit(20000)
    ctx = Ctx()
    ctx.tier = a.tier
    if a.tier == "thorough":
        esp.MAX_STATES *= 10         # widening, which only loses precision, sets in later
    for modname in pr["modules"]:
        mod = importlib.import_module(f"xs.checks.{modname}")
        try:
            f = getattr(mod, "run_" + a.property, None) or mod.run
            f(ctx)
        except AnchorMissing as e:
            ctx.violate(f"anchor:{modname}:{e}", f"an anchor of this check is gone (fail closed): {e}")
    kn = [k for k in known()["findings"] if k["property"] == a.property]
    keys = {k["key"]: k for k in kn}
    new, old = [], []
    for v in ctx.violations:
        (old if v["key"] in keys else new).append(v)
    for v in old:
        print(f"KNOWN-FINDING: property={a.property} {keys[v['key']]['what']} [{v['key']}]")
    cov = {
        "explanation": pr["covers"],
        "rules": sorted({o["rule"] for o in ctx.obligations}),
        "obligations": len(ctx.obligations),
        "discharged": sum(o["ok"] for o in ctx.obligations),
        "functions_analysed": len(ctx.fns),
        "functions": sorted(ctx.fns)[:400],
        "workspace_bodies": len(ctx.p.bodies),
        "counts": dict(ctx.counts),
        "samples": ctx.obligations[:60],
        "facts": ctx.hash,
        "known_findings_seen": [v["key"] for v in old],
    }
    ev = {
        "property": a.property, "tier": a.tier, "seed": int(os.environ.get("VERIF_SEED", "1")),
        "level": "other", "coverage": cov,
        "assumptions": pr.get("assumptions", []) + props.COMMON_ASSUMPTIONS,
        "wall_s": round(time.time() - t0, 3), "violations": len(new),
    }
    os.makedirs(f"{VERIF}/evidence", exist_ok=True)
    if not a.no_evidence:
        with open(f"{VERIF}/evidence/{a.property}.json", "w", encoding="utf-8") as f:
            json.dump(ev, f, indent=1)
    if new:
        rep = f"{VERIF}/evidence/{a.property}.violation.txt"
        with open(rep, "w", encoding="utf-8") as f:
            for v in new:
                f.write(f"{v['key']}\n  {v['msg']}\n  at {v['at']}\n")
                if v["chain"]:
                    f.write("  call path: " + " -> ".join(v["chain"]) + "\n")
        for v in new:
            print(f"  [{v['key']}] {v['msg']} at {v['at']}" + (f" (call path {' -> '.join(v['chain'][-6:])})" if v["chain"] else ""))
        print(f"VIOLATION property={a.property} replay={rep}")
        return 1
    print(f"OK property={a.property}: {len(ctx.obligations)} obligations discharged over {len(ctx.fns)} functions "
          f"in {time.time() - t0:.1f}s (facts {ctx.hash}, {ctx.build_s:.1f}s)")
    return 0


if __name__ == "__main__":
    try:
        sys.exit(main())
    except BuildError as e:
        print(f"ERROR: {e}")
        sys.exit(2)
    except Exception:
        traceback.print_exc()
        sys.exit(3)
