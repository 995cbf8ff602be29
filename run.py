#!/usr/bin/env python3
"""Entry point of every check:  run.py ID quick|thorough      (see DESIGN.md)

Exit 0: the property held on everything explored; 1: violated (a VIOLATION line on stdout);
2: the check itself could not run (build failure of the harness, time-out, ...).
"""
import json, os, shutil, subprocess, sys, time

V = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(V, "checks"))
import common
from common import Ctx, CheckError


def main():
    if len(sys.argv) == 4 and sys.argv[1] == "replay":
        return replay(sys.argv[2], sys.argv[3])
    pid, tier = sys.argv[1], (sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick"))
    props = {p["id"]: p for p in map(json.loads, filter(str.strip, open(os.path.join(V, "properties.jsonl"))))}
    if pid not in props:
        raise CheckError("unknown property " + pid)
    ctx = Ctx(pid, tier)
    import registry
    t0 = time.time()
    res = registry.CHECKS[pid](ctx)
    # res: dict(evaluations, distinct_nontrivial, rule, samples, labels, known{sig:{count,msg}}, violations[{sig,msg,replay}], assumptions)
    wall = round(time.time() - t0, 1)
    ev = {
        "property": pid, "tier": tier, "seed": ctx.seed, "level": "exploration",
        "coverage": {
            "evaluations": res["evaluations"], "distinct_nontrivial": res["distinct_nontrivial"],
            "rule": res["rule"], "samples": res["samples"][:12],
            "classes": res.get("labels", {}),
        },
        "assumptions": res.get("assumptions", []) + registry.COMMON_ASSUMPTIONS,
        "wall_s": wall,
        "violations": len(res["violations"]),
        "violation_details": [{"signature": v["sig"], "what": v["msg"][:2000], "replay": v["replay"]} for v in res["violations"]],
        "known_findings": [{"signature": s, "count": k["count"], "what": k["msg"][:500]} for s, k in sorted(res.get("known", {}).items())],
    }
    os.makedirs(os.path.join(V, "evidence"), exist_ok=True)
    with open(os.path.join(V, "evidence", pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1, ensure_ascii=False)
        f.write("\n")
    listed = common.known_findings(pid)
    for sig, what in listed.items():
        print(f"KNOWN-FINDING: property={pid} {what} [{sig}]")
    print(f"{pid} {tier}: {res['evaluations']} cases, {res['distinct_nontrivial']} distinct non-trivial, {wall} s")
    for v in res["violations"]:
        print(f"  {v['sig']}: {v['msg'][:1500]}")
    for v in res["violations"]:
        print(f"VIOLATION property={pid} replay={v['replay']}")
    return 1 if res["violations"] else 0


def replay(pid, path):
    import registry
    ctx = Ctx(pid, "quick")
    return registry.REPLAY[pid](ctx, path)


if __name__ == "__main__":
    try:
        sys.exit(main())
    except CheckError as e:
        print("ERROR:", e, file=sys.stderr)
        sys.exit(2)
