"""Checker self-test: apply each textual variant of tools/variants/*.py to a scratch copy
of the source and run the named checks on it.
  kind "bug"  -> at least the named property's check must report a violation (exit 1)
  kind "same" -> every named property's check must stay quiet (exit 0)
usage: python3 tools/mt.py [PROPERTY ...]"""
import concurrent.futures as cf
import glob
import os
import runpy
import shutil
import subprocess
import sys
import tempfile

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def one(v):
    name, props, edits, kind = v
    d = tempfile.mkdtemp(prefix="mt_")
    try:
        shutil.copytree(os.environ.get("MT_REPO", "/repo") + "/src", d + "/src")
        for path, old, new in edits:
            f = "%s/src/oidcop/%s" % (d, path)
            s = open(f).read()
            if s.count(old) < 1:
                return name, "STALE: %r not in %s" % (old[:50], path)
            s = s.replace(old, new, 1) if not old.startswith("@all@") else s
            open(f, "w").write(s)
            c = subprocess.run([sys.executable, "-m", "py_compile", f], capture_output=True, text=True)
            if c.returncode:
                return name, "NOCOMPILE " + c.stderr[-200:]
        res = []
        for p in props:
            env = dict(os.environ, SA_REPO=d, PYTHONHASHSEED="0", SA_EVIDENCE=d)
            r = subprocess.run([sys.executable, HERE + "/check.py", p], capture_output=True, text=True, env=env)
            want = 1 if kind == "bug" else 0
            if r.returncode == want:
                res.append("ok " + p)
            else:
                res.append("%s %s rc=%d %s" % ("MISSED" if kind == "bug" else "ALARM", p, r.returncode,
                                               (r.stdout + r.stderr)[-500:] if r.returncode else ""))
        return name, "; ".join(res)
    finally:
        shutil.rmtree(d)


def main():
    sel = set(sys.argv[1:])
    vs = []
    for f in sorted(glob.glob(HERE + "/tools/variants/*.py")):
        for v in runpy.run_path(f)["V"]:
            name, props, edits, kind = v
            if sel:
                props = [p for p in props if p in sel] or ([] if name not in sel else props)
                if not props:
                    continue
            vs.append((name, props, edits, kind))
    bad = 0
    with cf.ThreadPoolExecutor(8) as ex:
        for name, r in ex.map(one, vs):
            if any(x in r for x in ("MISSED", "ALARM", "STALE", "NOCOMPILE")):
                bad += 1
                print(name, r)
    print("%d variants, %d bad" % (len(vs), bad))
    return 1 if bad else 0


if __name__ == "__main__":
    sys.exit(main())
