"""plant(id, property, pkg, edits, demo, needs, breaks): makes seeded/<id> from
edits of the repository's files, after confirming in a scratch copy that the
change builds, passes the stable tests and is shown by the demonstration (an
external Go test), which the unchanged tree passes."""
import json, os, shutil, subprocess, sys, tempfile

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = "/repo"

DEMO = r'''#!/bin/bash
# runs the demonstration as a test of the package %(pkg)s of the tree in $PWD
here=$(cd "$(dirname "$0")" && pwd)
work=$(mktemp -d)
trap 'rm -rf "$work"' EXIT
export GOFLAGS=-mod=mod GOPROXY=off GOTOOLCHAIN=local GOSUMDB=off
cp "$here/demo_test.go.txt" "$work/demo_test.go"
printf '{"Replace": {"%%s": "%%s"}}' "$PWD/%(pkg)s/zz_demo_test.go" "$work/demo_test.go" > "$work/overlay.json"
timeout 200 go test -vet=off -count=1 -timeout %(timeout)ss -overlay "$work/overlay.json" -run '^TestDemo$' "./%(pkg)s"
'''

def run(cmd, cwd, **kw):
    env = dict(os.environ, GOPROXY="off", GOTOOLCHAIN="local", GOSUMDB="off")
    return subprocess.run(cmd, cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)

def plant(id, prop, pkg, edits, demo, needs, breaks, timeout=60):
    work = tempfile.mkdtemp(prefix="plant.")
    try:
        subprocess.check_call(["cp", "-a", REPO, work + "/repo"])
        r = work + "/repo"
        run(["git", "checkout", "-q", "--", "."], r)
        d = work + "/" + id
        os.mkdir(d)
        open(d + "/demo_test.go.txt", "w").write(demo.lstrip("\n"))
        open(d + "/demo.sh", "w").write(DEMO % {"pkg": pkg, "timeout": timeout})
        os.chmod(d + "/demo.sh", 0o755)
        p = run(["bash", d + "/demo.sh"], r)
        if p.returncode != 0:
            print(id, "DEMO FAILS ON THE UNCHANGED TREE\n", p.stdout[-3000:]); return False
        for f, a, b in edits:
            s = open(r + "/" + f).read()
            if s.count(a) != 1:
                print(id, "EDIT", f, "matches", s.count(a), "times:", a); return False
            open(r + "/" + f, "w").write(s.replace(a, b))
        for e in ({}, {"GOOS": "windows"}):
            p = subprocess.run(["go", "build", "./..."], cwd=r, env=dict(os.environ, GOPROXY="off", GOTOOLCHAIN="local", **e), capture_output=True, text=True)
            if p.returncode != 0:
                print(id, "DOES NOT BUILD\n", p.stderr); return False
        p = run(["gofmt", "-l", "."], r)
        if p.stdout.strip(): print(id, "not formatted:", p.stdout.strip())
        p = run(["go", "test", "-vet=off", "-count=1", "./..."], r)
        if p.returncode != 0:
            print(id, "TESTS FAIL\n", p.stdout[-2500:]); return False
        p = run(["bash", d + "/demo.sh"], r)
        if p.returncode == 0:
            print(id, "DEMO PASSES WITH THE CHANGE"); return False
        out = p.stdout
        diff = run(["git", "diff"], r).stdout
        open(d + "/patch.diff", "w").write(diff)
        json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(d + "/meta.json", "w"), indent=1, ensure_ascii=False)
        dst = VERIF + "/seeded/" + id
        shutil.rmtree(dst, ignore_errors=True)
        shutil.copytree(d, dst)
        print(id, "planted:", " | ".join(l.strip() for l in out.splitlines() if "demo_test.go" in l)[:300])
        return True
    finally:
        shutil.rmtree(work)
