"""Writes DESIGN.md from tools/design.in.md, properties, checks and seeded."""
import json, os, re, glob, subprocess, textwrap
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
t = open(V + "/tools/design.in.md").read()
props = subprocess.check_output(["python3", V + "/tools/design_props.py"], text=True)
k = json.load(open(V + "/known_findings.json"))
fixed = "\n".join(textwrap.fill("* %s (%s): %s" % (e["property"], e["commit"], e["what"]), 79, subsequent_indent="  ") for e in k)
seeded = []
for f in sorted(glob.glob(V + "/seeded/*/meta.json")):
    d = json.load(open(f))
    seeded.append((d["property"], os.path.basename(os.path.dirname(f)), d))
missed = {}
p = V + "/tools/missed.json"
if os.path.exists(p): missed = json.load(open(p))
s = "\n".join(textwrap.fill("* %s %s: %s. Needs %s. %s" % (a, b, d["what_it_breaks"].rstrip("."), d["needs"].rstrip("."), ("**Missed**: " + missed[b]) if b in missed else "Caught by %s." % a), 79, subsequent_indent="  ") for a, b, d in sorted(seeded, key=lambda x: x[:2]))
open(V + "/DESIGN.md", "w").write(t.replace("@PROPS@", props.rstrip()).replace("@FIXED@", fixed).replace("@SEEDED@", s))
