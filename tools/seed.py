"""Plant the bugs described in tools/seeds/*.py: for each, make a scratch copy of /repo,
apply the edits, run the demonstration on both, the stable tests and every check on the
patched copy, and write seeded/<id>/.   usage: python3 tools/seed.py [id ...] [--notest]"""
import concurrent.futures as cf
import glob
import json
import os
import runpy
import shutil
import subprocess
import sys
import tempfile
import xml.etree.ElementTree as ET

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = "/opt/venv/bin/python"
BASE = set(json.dumps(x) if not isinstance(x, str) else x for x in [])
DEMO = '#!/bin/sh\nd=$(cd "$(dirname "$0")" && pwd)\nPYTHONPATH="$PWD/src:$d" PYTHONDONTWRITEBYTECODE=1 exec %s -W ignore "$d/demo.py"\n' % PY


def sh(cmd, **kw):
    return subprocess.run(cmd, capture_output=True, text=True, **kw)


def tests(d):
    x = d + "/junit.xml"
    env = dict(os.environ, PYTHONPATH=d + "/src", PYTHONHASHSEED="0", PYTHONDONTWRITEBYTECODE="1", HOME="/root", TZ="UTC")
    sh([PY, "-m", "pytest", "-q", "-p", "no:cacheprovider", "--timeout=300", "-o", "junit_family=xunit2",
        "--junitxml=" + x, "tests"], cwd=d, env=env)
    bad = []
    for c in ET.parse(x).iter("testcase"):
        if c.find("failure") is not None or c.find("error") is not None:
            bad.append("%s::%s" % (c.get("classname"), c.get("name")))
    return bad


def one(s, notest):
    out = []
    d = tempfile.mkdtemp(prefix="seed_")
    try:
        shutil.copytree("/repo", d + "/r", symlinks=True)
        r = d + "/r"
        sh(["git", "checkout", "-q", "--", "."], cwd=r)
        for path, old, new in s["edits"]:
            f = r + "/src/oidcop/" + path
            t = open(f).read()
            if t.count(old) != 1:
                return s["id"], ["STALE %d x %r" % (t.count(old), old[:60])]
            open(f, "w").write(t.replace(old, new))
            c = sh([PY, "-m", "py_compile", f])
            if c.returncode:
                return s["id"], ["NOCOMPILE " + c.stderr[-200:]]
        diff = sh(["git", "diff", "--", "src"], cwd=r).stdout
        blame = {}
        for f in sorted({"src/oidcop/" + e[0] for e in s["edits"]}):
            for l in sh(["git", "blame", "-s", "HEAD", "--", f], cwd=r).stdout.splitlines():
                blame.setdefault(l.split(")", 1)[1][1:], set()).add(l.lstrip("^").split()[0][:7])
        gone = [l[1:] for l in diff.splitlines() if l.startswith("-") and not l.startswith("---")]
        if not gone:
            out.append("NO LINE REMOVED")
        for l in gone:
            if l.strip() and "ad0c1f7" not in blame.get(l, {"ad0c1f7"}):
                out.append("NOT ORIGINAL: " + l.strip())
        sd = HERE + "/seeded/" + s["id"]
        os.makedirs(sd, exist_ok=True)
        open(sd + "/patch.diff", "w").write(diff)
        open(sd + "/demo.py", "w").write(s["demo"].lstrip("\n"))
        open(sd + "/demo.sh", "w").write(DEMO)
        os.chmod(sd + "/demo.sh", 0o755)
        shutil.copy(HERE + "/findings/op.py", sd + "/op.py")
        json.dump({"property": s["property"], "needs": s["needs"], "what_it_breaks": s["breaks"]},
                  open(sd + "/meta.json", "w"), indent=1)
        env = {k: v for k, v in os.environ.items() if k != "PYTHONPATH"}
        a = sh(["sh", sd + "/demo.sh"], cwd="/repo", env=env)
        b = sh(["sh", sd + "/demo.sh"], cwd=r, env=env)
        if a.returncode != 0:
            out.append("DEMO FAILS ON BASE: " + (a.stdout + a.stderr)[-600:])
        if b.returncode == 0:
            out.append("DEMO PASSES WITH PATCH: " + (b.stdout + b.stderr)[-600:])
        elif "AssertionError" not in b.stderr:
            out.append("demo: " + b.stderr[-300:])
        if not notest:
            bad = tests(r)
            if bad:
                out.append("TESTS FAIL: %s" % bad[:6])
        hit = []
        m = json.load(open(HERE + "/MANIFEST.json"))
        for c in m["checks"]:
            e = dict(os.environ, SA_REPO=r, PYTHONHASHSEED="0", SA_EVIDENCE=d)
            x = sh([sys.executable, HERE + "/check.py", c["property"]], env=e)
            if x.returncode:
                hit.append(c["property"] + ("" if x.returncode == 1 else "(rc%d)" % x.returncode))
        out.append(("caught by " if s["property"] in hit else "MISSED by %s, alarms: " % s["property"]) + ",".join(hit))
        return s["id"], out
    finally:
        shutil.rmtree(d)


def main():
    sel = [a for a in sys.argv[1:] if not a.startswith("-")]
    notest = "--notest" in sys.argv
    S = []
    for f in sorted(glob.glob(HERE + "/tools/seeds/*.py")):
        S += [s for s in runpy.run_path(f)["S"] if not sel or s["id"] in sel]
    with cf.ThreadPoolExecutor(int(os.environ.get("SEED_J", "4"))) as ex:
        for i, o in ex.map(lambda s: one(s, notest), S):
            print(i, "|", " | ".join(o), flush=True)


if __name__ == "__main__":
    main()
