#!/usr/bin/env python3
"""Lists the functions of /repo that no check encoded in its last run."""
import json, glob, re, subprocess
enc = set()
for f in glob.glob('/verif/evidence/C*.json'):
    for n in json.load(open(f))["coverage"].get("functions_encoded", []):
        m = re.match(r'^\(?\*?([\w/.-]*?)\.(\w+)\)?(?:\.(\w+))?', n.replace('github.com/metafates/', ''))
        if m: enc.add((m[2], m[3]) if m[3] else (None, m[2]))
for f in sorted(subprocess.run("git -C /repo ls-files '*.go'", shell=True, capture_output=True, text=True).stdout.split()):
    if f.endswith('_test.go') or f.startswith('examples') or 'windows' in f: continue
    out = []
    for l in open('/repo/' + f):
        m = re.match(r'func (?:\((?:\w+ )?\*?(\w+)\) )?(\w+)', l)
        if m and (m[1], m[2]) not in enc: out.append((m[1] + '.' if m[1] else '') + m[2])
    if out: print(f + ':', ', '.join(out))
