#!/usr/bin/env python3
"""check.py PROPERTY [--thorough]

Decides one property from the current source of /repo.  Exit 0: every
obligation discharged (or listed in known_findings.json); 1: a violation that
is not listed; 2: the machinery could not decide."""
import json
import os
import sys
import time
import traceback

VERIF = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, VERIF)

from jf import core, load as L, registry        # noqa: E402


def main():
    if len(sys.argv) < 2 or sys.argv[1] not in registry.RULES:
        print("usage: check.py PROPERTY [--thorough]; properties: "
              + " ".join(sorted(registry.RULES)))
        return 2
    pid = sys.argv[1]
    tier = "thorough" if "--thorough" in sys.argv[2:] else "quick"
    if os.environ.get("VERIF_TIER") == "thorough":
        tier = "thorough"
    t0 = time.time()
    try:
        R = core.Result()
        variants = ["default"] + (["snappy"] if tier == "thorough" else [])
        for v in variants:
            P = L.load(v)
            for rule in registry.RULES[pid]:
                R.merge(rule(P, pid, tier == "quick"))
    except Exception as e:
        traceback.print_exc()
        print("UNDECIDED property=%s %s" % (pid, str(e)[:500]))
        return 2
    # listed findings suppress exactly the sites they list
    known = [k for k in core.known_findings() if k["property"] == pid]
    groups = {}
    for f in R.findings:
        g = groups.setdefault(f.key, [])
        if (f.where, f.msg) not in [(x.where, x.msg) for x in g]:
            g.append(f)
    viol = []
    for key, fs in groups.items():
        k = [x for x in known if x["key"] == key]
        if k and len(fs) <= k[0].get("sites", 1):
            print("KNOWN-FINDING: property=%s %s [%s]" % (pid, k[0]["what"], key))
        else:
            viol += fs
    evdir = os.path.join(VERIF, "evidence")
    os.makedirs(evdir, exist_ok=True)
    cov = {
        "explanation": "static analysis of the current source: " + "; ".join(dict.fromkeys(R.rules)),
        "obligations": R.obligations,
        "discharged": R.discharged,
        "source_files": len(set(f.file for f in P.fns.values())),
        "functions_in_program": len(P.fns),
        "functions_analysed": len(R.functions),
        "functions": sorted(R.functions)[:60],
        "samples": R.samples[:16],
        "variants": variants,
        "source_root": L.REPO,
    }
    cov.update(R.coverage)
    ev = {"property": pid, "tier": tier,
          "seed": int(os.environ.get("VERIF_SEED", "1") or 1),
          "level": "other", "coverage": cov,
          "known_findings": [f.as_dict() for f in R.findings if f not in viol],
          "violations": len(viol),
          "reported": [f.as_dict() for f in viol],
          "wall_s": round(time.time() - t0, 2)}
    evp = os.path.join(evdir, pid + ".json")
    with open(evp + ".tmp", "w") as f:
        json.dump(ev, f, indent=1)
    os.replace(evp + ".tmp", evp)
    for f in viol:
        print("  %s: %s" % (f.where, f.msg))
        for p in f.path:
            print("      " + p)
    if viol:
        print("VIOLATION property=%s replay=%s" % (pid, evp))
        return 1
    print("OK property=%s: %d obligations in %d functions, %.1f s"
          % (pid, R.obligations, len(R.functions), time.time() - t0))
    return 0


if __name__ == "__main__":
    try:
        rc = main()
    except Exception:
        traceback.print_exc()
        rc = 2
    sys.exit(rc)
