"""The per-property part of DESIGN.md: python3 tools/design_props.py > file."""
import json, os, re, glob
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
checks = json.load(open(V + "/checks.json"))
how = {}
src = open(V + "/tools/how.txt").read()
for m in re.finditer(r"^(C\d\d): (.*?)(?=^C\d\d: |\Z)", src, re.S | re.M):
    how[m.group(1)] = " ".join(m.group(2).split())
seeded = {}
for f in glob.glob(V + "/seeded/*/meta.json"):
    d = json.load(open(f)); seeded.setdefault(d["property"], []).append(os.path.basename(os.path.dirname(f)))
import textwrap
for l in open(V + "/properties.jsonl"):
    q = json.loads(l); id = q["id"]
    print("**%s %s.**" % (id, q["title"]))
    t = how.get(id, "")
    print(textwrap.fill(t, 79))
    print(textwrap.fill("Outside: " + checks[id]["outside"] + ".", 79))
    if id in seeded: print(textwrap.fill("Planted: " + ", ".join(sorted(seeded[id])) + ".", 79))
    print()
