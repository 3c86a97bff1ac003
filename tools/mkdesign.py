"""Writes DESIGN.md from tools/design, tools/ptable.py and the evidence in SA_EVIDENCE (default evidence/)."""
import glob, json, os, runpy, subprocess, sys
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
os.chdir(H)
EV = os.environ.get("SA_EVIDENCE", "evidence")
head = open("tools/design/head.md").read()
tail = open("tools/design/tail.md").read()
T = runpy.run_path("tools/ptable.py")
out = [head, "## The properties\n"]
for p in T["P"]:
    if p.get("na"):
        out.append("### %s %s\n\n%s\n\nNot applicable: %s\n" % (p["id"], p["title"], p["statement"], p["na"]))
        continue
    e = json.load(open("%s/%s.json" % (EV, p["id"])))["coverage"]
    out.append("### %s %s\n\n%s\n\nQuantified over %s. Decided by:\n" % (p["id"], p["title"], p["statement"], p["for"]))
    for r in e["by_rules"]:
        out.append("* `%s` - %s" % (r["clause"], r["rule"]))
    ent = []
    for x in e["by_entries"]:
        if x["entry"] not in ent:
            ent.append(x["entry"])
    out.append("\nEntry points analysed: %s%s. %d path classes, %d obligations on the current tree.\n" % (
        ", ".join("`%s`" % x for x in ent[:14]), " and %d more" % (len(ent) - 14) if len(ent) > 14 else "", e["path_classes"], e["obligations"]))
nb = ns = 0
for f in sorted(glob.glob("tools/variants/*.py")):
    V = runpy.run_path(f)["V"]
    nb += sum(v[3] == "bug" for v in V)
    ns += sum(v[3] != "bug" for v in V)
R = subprocess.run([sys.executable, "tools/refactor.py", "--list"], capture_output=True, text=True).stdout.split()
rows = ["| planted bug | needs | caught by |", "|---|---|---|"]
C = json.load(open("tools/design/caught.json")) if os.path.exists("tools/design/caught.json") else {}
for d in sorted(glob.glob("seeded/*/meta.json")):
    m = json.load(open(d))
    i = d.split("/")[1]
    rows.append("| %s | %s | %s |" % (i, m["needs"].replace("|", "/"), C.get(i, m["property"])))
out.append(tail.replace("@NB@", str(nb)).replace("@NS@", str(ns)).replace("@NR@", str(len(R) - 1)).replace("@SEEDS@", "\n".join(rows)))
open("DESIGN.md", "w").write("\n".join(out))
print(len("\n".join(out)))
