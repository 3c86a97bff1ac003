#!/usr/bin/env python3
"""python3 check.py <PROPERTY> [--tier quick|thorough]"""
import json
import os
import re
import sys
import time
import traceback

if os.environ.get("PYTHONHASHSEED") != "0":
    os.environ["PYTHONHASHSEED"] = "0"
    os.execv(sys.executable, [sys.executable] + sys.argv)

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True
sys.setrecursionlimit(20000)

from sa.core import Broken  # noqa
from sa.frame import Check  # noqa
from sa.props import load  # noqa


def findings():
    with open(os.path.join(HERE, "known_findings.json")) as fp:
        return json.load(fp)


def main():
    pid = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in sys.argv:
        tier = sys.argv[sys.argv.index("--tier") + 1]
    t0 = time.time()
    ck = Check(pid, tier)
    fn = load()[pid]
    try:
        fn(ck)
        ck.done()
    except Broken as err:
        print("ANALYSIS-BROKEN property=%s %s" % (pid, err))
        if not ck.viol:
            return 2
    known = {f["key"]: f for f in findings()["known"] if f["property"] == pid}
    new = [v for k, v in sorted(ck.viol.items()) if k not in known]
    ev = os.environ.get("SA_EVIDENCE") or os.path.join(HERE, "evidence")
    os.makedirs(ev, exist_ok=True)
    for k, v in sorted(ck.viol.items()):
        if k in known:
            print("KNOWN-FINDING: property=%s %s [%s]" % (pid, known[k]["what"], k))
    rep = os.path.join(ev, "violation_%s.json" % pid)
    nobl = sum(ck.obl.values())
    data = {
        "property": pid,
        "tier": tier,
        "seed": int(os.environ.get("VERIF_SEED", "1")),
        "level": "other",
        "coverage": {
            "explanation": "Static analysis of the current source of /repo/src/oidcop: %d entry "
            "points analysed path-sensitively with callees analysed in context; every listed rule "
            "must hold for each matched construct on each analysed path." % len(ck.entries),
            "functions_analysed": len(ck.functions),
            "entry_points": len(ck.entries),
            "path_classes": ck.paths,
            "call_sites_evaluated": ck.sites,
            "obligations": nobl,
            "obligations_discharged": nobl - len(ck.viol) if nobl else 0,
            "rules": len(ck.rules),
            "steps": ck.steps,
        },
        "rules": [
            {"clause": c, "rule": t, "instances": ck.obl.get(c, 0)} for c, t in sorted(ck.rules.items())
        ],
        "entries": ck.entries,
        "functions": sorted(ck.functions),
        "known_findings": sorted(k for k in ck.viol if k in known),
        "violations": [
            {"clause": v.clause, "construct": v.construct, "message": v.msg} for v in new
        ],
        "notes": ck.notes,
        "wall_s": round(time.time() - t0, 2),
    }
    data = adapt(data)
    with open(os.path.join(ev, "%s.json" % pid), "w") as fp:
        json.dump(data, fp, indent=1)
    if new:
        with open(rep, "w") as fp:
            json.dump(
                [
                    {"clause": v.clause, "construct": v.construct, "message": v.msg, "detail": v.detail}
                    for v in new
                ],
                fp,
                indent=1,
            )
        for v in new:
            print("  [%s] %s: %s" % (v.clause, v.construct, v.msg))
            if v.detail.get("where"):
                print("      at %s" % v.detail["where"])
        print("VIOLATION property=%s replay=%s" % (pid, rep))
        return 1
    p = rep
    if os.path.exists(p):
        os.unlink(p)
    print(
        "OK property=%s rules=%d obligations=%d functions=%d paths=%d %.1fs"
        % (pid, len(ck.rules), nobl, len(ck.functions), ck.paths, time.time() - t0)
    )
    return 0


def adapt(d):
    c = d["coverage"]
    c["discharged"] = c.pop("obligations_discharged")
    for k in ("rules", "entries", "functions"):
        c["by_" + k] = d.pop(k)
    d["reported"] = d.pop("violations")
    d["violations"] = len(d["reported"])
    d["assumptions"] = [
        "callees outside oidcop (oidcmsg, cryptojwt) are uninterpreted",
        "loops over unknown collections are represented by zero to two generic elements",
    ]
    return d


if __name__ == "__main__":
    try:
        rc = main()
    except Exception:
        traceback.print_exc()
        print("ANALYSIS-BROKEN (internal error)")
        rc = 2
    sys.exit(rc)
