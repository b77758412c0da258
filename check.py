#!/usr/bin/env python3
"""check.py <property id> : decides one property on /repo's current source. Exit 0 held, 1 violated."""
import importlib, json, os, sys, time
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, "sa"))
sys.setrecursionlimit(20000)
import engine
from engine import Ctx, Missing, Viol


def known():
    p = os.path.join(HERE, "known_findings.json")
    if not os.path.exists(p):
        return []
    return json.load(open(p))["findings"]


def main():
    pid = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    t0 = time.time()
    mod = importlib.import_module("props." + pid.lower())
    Ctx.limit = not getattr(mod, "MINIMUMS", False)
    C = Ctx()
    C.tier = tier
    t1 = time.time()
    lost = []
    for ob in mod.OBLIGATIONS:
        try:
            ob(C)
        except Missing as e:
            # The function the rule is anchored to was renamed, moved or split: the rule decides nothing here, which is not evidence of a violation.
            # It is reported, and it counts against the vacuity bound below.
            lost.append({"rule": ob.__name__, "doc": (ob.__doc__ or "").strip(), "anchor": str(e)})
            print(f"  undecided [{ob.__name__}] {str(e)[:200]}")
    n_min = getattr(mod, "MIN_OBLIGATIONS", 1)
    if len(C.obl) < n_min and not lost or not C.obl:
        C.viol.append(Viol("vacuous", f"only {len(C.obl)} obligations were generated, {n_min} were confirmed by hand"))
    kf = {(k["property"], k["key"]): k for k in known() if k.get("status") == "known"}
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    new, old = [], []
    seen = set()
    for v in C.viol:
        if (v.key, v.msg) in seen:
            continue
        seen.add((v.key, v.msg))
        (old if (pid, v.key) in kf else new).append(v)
    files = sorted({C.prog.fns[i].file for i in C.fn_seen if i in C.prog.fns})
    ev = {
        "property": pid, "tier": tier, "seed": int(os.environ.get("VERIF_SEED", "1") or 1), "level": "other",
        "coverage": {
            "explanation": getattr(mod, "EXPLAIN", mod.__doc__ or ""),
            "obligations": len(C.obl),
            "discharged": sum(1 for o in C.obl if o[2]),
            "undecided_rules": lost,
            "functions_analysed": len(C.fn_seen),
            "files_analysed": files,
            "program_functions_loaded": len(C.prog.fns),
            "inlined_contexts": len(C.fl.frames) + sum(len(c.fl.frames) for c in C._others.values()),
            "facts_established": C.leaves_seen + sum(c.leaves_seen for c in C._others.values()),
            "call_sites_visited": C.sites + sum(c.sites for c in C._others.values()),
            "value_flow_states": len(C.fl.step_memo) + sum(len(c.fl.step_memo) for c in C._others.values()),
            "samples": [{"obligation": o[0], "rule": o[1], "held": o[2], "witness": o[3]} for o in C.obl[:400]],
        },
        "assumptions": getattr(mod, "ASSUME", []) + [
            "MIR of the release configuration (debug assertions off) of the workspace libraries, x86-64-v3 target, default features",
            "callee resolution: monomorphic where rustc resolves it, otherwise all workspace implementations of the trait method",
        ],
        "wall_s": round(time.time() - t0, 2),
        "violations": len(new),
    }
    ev["coverage"].update(getattr(C, "extra", {}))
    with open(os.path.join(HERE, "evidence", pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1, default=str)
    print(f"{pid}: {ev['coverage']['discharged']}/{len(C.obl)} obligations hold, {len(C.fn_seen)} functions, "
          f"{ev['coverage']['facts_established']} facts, dump {t1 - t0:.0f}s, analysis {time.time() - t1:.0f}s")
    for v in old:
        print(f"KNOWN-FINDING: property={pid} {kf[(pid, v.key)]['what']}")
    if new:
        rp = os.path.join(HERE, "evidence", f"{pid}.violations.txt")
        with open(rp, "w") as f:
            for v in new:
                f.write(f"[{v.key}] {v.msg}\n")
        for v in new:
            print(f"  [{v.key}] {v.msg}")
        print(f"VIOLATION property={pid} replay=evidence/{pid}.violations.txt")
        return 1
    return 0


if __name__ == "__main__":
    sys.exit(main())
