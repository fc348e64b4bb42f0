#!/usr/bin/env python3
"""Prints the planted bugs whose patch only touches lines that the fix commits
in /repo added (they would not count)."""
import os, re, subprocess
os.chdir(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
def git(*a): return subprocess.run(["git", "-C", "/repo", *a], capture_output=True, text=True).stdout
base = "f81ca01"
for id in sorted(os.listdir("seeded")):
    ok = False
    path = None; last = ""; ins = False
    patch = subprocess.run(["git", "-C", "/repo", "apply", "--numstat", f"/verif/seeded/{id}/patch.diff"], capture_output=True, text=True).stdout
    for l in open(f"seeded/{id}/patch.diff"):
        if l.startswith("--- a/"):
            path = l[6:].strip()
            added = set()
            for m in re.finditer(r"(?m)^@@ -\S+ \+(\d+)(?:,(\d+))? @@", git("diff", "-U0", base, "HEAD", "--", path)):
                added.update(range(int(m[1]), int(m[1]) + int(m[2] or 1)))
            continue
        m = re.match(r"@@ -(\d+)", l)
        if m: n = int(m[1]); ins = False; continue
        if path is None: continue
        if l.startswith("-"):
            if n not in added and l[1:].strip() and not l[1:].strip().startswith("//"): ok = True
            n += 1; last = "-"
        elif l.startswith("+"):
            if last == " ": ins = n not in added and n - 1 not in added
            if last == "-": ins = False
            if ins and l[1:].strip() and not l[1:].strip().startswith("//"): ok = True
            last = "+"
        else: n += 1; last = " "
    if not ok: print(id, "does not count")
