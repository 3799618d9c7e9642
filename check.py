#!/usr/bin/env python3
"""check.py ID: decides property ID from /repo's current source. Exit 0 held, 1 violated, 2 the analysis could not run."""
import json, os, sys, time, traceback
VERIF = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, VERIF)
from lib import ir, tool, checks


def known(prop):
    """key -> reason of recorded findings (lines 'finding: property=<id> key=<key> <what>')."""
    out = {}
    path = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(path):
        for line in open(path):
            line = line.strip()
            if line.startswith("finding: property=%s " % prop):
                rest = line.split(" ", 2)[2]
                if rest.startswith("key="):
                    k, _, why = rest[4:].partition(" :: ")
                    out[k] = why
    return out


def main():
    prop = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if len(sys.argv) > 2:
        tier = sys.argv[2]
    seed = int(os.environ.get("VERIF_SEED", "1"))
    t = time.time()
    spec = checks.CHECKS[prop]
    try:
        res = spec["run"](tier)
    except Exception as e:
        traceback.print_exc()
        print("ERROR property=%s analysis did not run: %s" % (prop, e))
        return 2
    kn = known(prop)
    real, found = [], []
    for v in res.violations:
        (found if v["key"] in kn else real).append(v)
    cov = {"explanation": spec["explanation"], "rule": spec["rule"]}
    cov.update(res.counts)
    cov["samples"] = res.samples[:40]
    if res.notes:
        cov["notes"] = res.notes[:40]
    ev = {"property": prop, "tier": tier, "seed": seed, "level": "other", "coverage": cov,
          "assumptions": spec.get("assumptions", []), "wall_s": round(time.time() - t, 2), "violations": len(real)}
    if found:
        cov["known_findings_seen"] = [v["key"] for v in found]
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    epath = os.path.join(VERIF, "evidence", prop + ".json")
    with open(epath + ".tmp", "w") as fp:
        json.dump(ev, fp, indent=1)
    os.rename(epath + ".tmp", epath)
    for v in found:
        print("KNOWN-FINDING: property=%s %s at %s: %s" % (prop, v["key"], v["loc"], kn[v["key"]]))
    for v in real:
        rep = os.path.join(VERIF, "evidence", "%s-violation.txt" % prop)
        print("%s: %s\n    at %s\n    %s" % (v["key"], v["msg"], v["loc"], v.get("path", "")))
    if real:
        rep = os.path.join(VERIF, "evidence", "%s-violations.json" % prop)
        with open(rep, "w") as fp:
            json.dump(real, fp, indent=1)
        print("VIOLATION property=%s replay=%s" % (prop, rep))
        return 1
    if res.broken:
        for b in res.broken:
            print("ERROR property=%s %s" % (prop, b))
        return 2
    print("OK property=%s %s" % (prop, " ".join("%s=%s" % kv for kv in sorted(res.counts.items()))))
    return 0


sys.exit(main())
