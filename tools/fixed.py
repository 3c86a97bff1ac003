"""Writes the "fixed" list of known_findings.json (one line per repair committed in /repo)."""
import json, os, subprocess
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PROP = dict(x.split("=") for x in """62e4bb9=C13 3b8567e=C30 9190dc2=C16 0bde82d=C21 ca21c17=C22 3a8d6f9=C21 e841300=C18 c505fc7=C19
3260ff3=C10 ff1f748=C09 7b51830=C40 48b9210=C10 9709e86=C29 f4c87e0=C29 76435e9=C24 1f665c2=C24 e381d4d=C24 8a2c217=C30 ab547cb=C25 340d2f3=C25
7fce643=C27 0be623a=C27 22a4a8b=C27 3f031f3=C26 25fdfd5=C28 85b1efa=C33 9bf7e88=C32 905930e=C35 8bc1123=C34 237c31c=C20 1261c47=C20 982e22c=C20
79e9f5b=C32 037a94d=C32 952295b=C36 51b1071=C36 e39e15e=C36
eb0ba7b=C34 4ed75e5=C41 067b110=C08 992f118=C08 ad7e279=C32 0a585e6=C38 2862ed7=C42 3367065=C38 59f2519=C36 9cfb0a2=C36 b5f3795=C41 30c6aa3=C41 e9927dd=C41 25de430=C30 3b753e9=C30 5bcb1ba=C30 e419c5e=C25 c15d881=C14 9912328=C14 3dfed57=C40 139288e=C14""".split())
f = os.path.join(HERE, "known_findings.json")
d = json.load(open(f))
d["fixed"] = []
log = subprocess.run(["git", "-C", os.environ.get("SA_REPO", "/repo"), "log", "--reverse", "--format=%h %s", "ad0c1f7..HEAD"], capture_output=True, text=True).stdout
for l in log.splitlines():
    h, s = l.split(" ", 1)
    body = subprocess.run(["git", "-C", os.environ.get("SA_REPO", "/repo"), "log", "-1", "--format=%b", h], capture_output=True, text=True).stdout.split("\n\n")[0].replace("\n", " ").strip()
    d["fixed"].append("fixed: property=%s %s %s" % (PROP[h], h, (s[5:] + (": " + body if body else ""))[:400]))
json.dump(d, open(f, "w"), indent=1)
print(len(d["fixed"]))
