#!/usr/bin/env python3
"""check.py <ID> [--tier quick|thorough]: decide one property from /repo's current source.

exit 0: no unlisted violation; exit 1: VIOLATION line(s); exit 3: the analysis lost its footing
(an anchor vanished or far fewer instances than the floor were decided), which is no verdict.
"""
import importlib
import json
import os
import sys
import time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.setrecursionlimit(20000)

from msa.report import Report, known  # noqa: E402


def main():
    pid = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in sys.argv:
        tier = sys.argv[sys.argv.index("--tier") + 1]
    t0 = time.time()
    mod = importlib.import_module("props." + pid.lower())
    rep = Report(pid, tier)
    mod.run(rep)
    kn = known(pid)
    evdir = os.environ.get("MSA_EVIDENCE") or os.path.join(HERE, "evidence")
    os.makedirs(evdir, exist_ok=True)
    bad, listed = [], []
    for f in rep.findings:
        (listed if f["key"] in kn else bad).append(f)
    lost = rep.below_floor()
    cov = rep.coverage()
    cov["known_findings_seen"] = sorted({f["key"] for f in listed})
    ev = {"property": pid, "tier": tier, "seed": int(os.environ.get("VERIF_SEED", "1") or 1), "level": "other", "coverage": cov,
          "assumptions": getattr(mod, "ASSUMPTIONS", []), "wall_s": round(time.time() - t0, 2), "violations": [f["key"] + " :: " + f["msg"] for f in bad]}
    with open(os.path.join(evdir, pid + ".json"), "w") as fh:
        json.dump(ev, fh, indent=1, default=str)
    seen = set()
    for f in listed:
        if f["key"] not in seen:
            seen.add(f["key"])
            print(f"KNOWN-FINDING: property={pid} {f['key']} :: {kn[f['key']]}")
    print(f"{pid}: {cov['decided']} of {cov['obligations']} obligations decided, {len(bad)} violation(s), {len(listed)} known, {ev['wall_s']} s")
    if bad:
        rp = os.path.join(evdir, pid + ".violations.json")
        with open(rp, "w") as fh:
            json.dump(bad, fh, indent=1, default=str)
        for f in bad:
            print(f"  {f['key']}: {f['msg']}")
            print(f"VIOLATION property={pid} replay={rp}")
        return 1
    if lost:
        for x in lost:
            print("NO-VERDICT:", x)
        return 3
    return 0


if __name__ == "__main__":
    try:
        code = main()
    except Exception:  # an internal failure is no verdict, never a violation
        import traceback

        traceback.print_exc()
        code = 3
    sys.exit(code)
