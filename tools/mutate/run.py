"""run.py OUT.jsonl [N [SEED]]: samples N mutants (all of MUTANTS, listed by
main.go), keeps those that build and pass the stable tests, and runs on each
the checks that encode the changed function until one reports a violation.
Survivors are the places to look at. Works on copies only."""
import json, os, random, re, shutil, subprocess, sys, threading, queue, time, glob

VERIF = os.environ.get("VCOPY", "/tmp/vcopy")
ROOT = "/tmp/mut"
muts = [json.loads(l) for l in open(os.environ.get("MUTANTS", "/tmp/mutants.jsonl"))]
out = sys.argv[1]
n = int(sys.argv[2]) if len(sys.argv) > 2 else len(muts)
rnd = random.Random(int(sys.argv[3]) if len(sys.argv) > 3 else 1)
par = int(os.environ.get("PAR", "4"))
only = os.environ.get("FILES")
if only: muts = [m for m in muts if re.search(only, m["File"])]
done = set()
for f in glob.glob("/tmp/mutres*.jsonl"):
    for l in open(f):
        r = json.loads(l); done.add((r["File"], r["From"], r["To"], r["New"]))
muts = [m for m in muts if (m["File"], m["From"], m["To"], m["New"]) not in done]
# spread over functions
rnd.shuffle(muts)
seen = {}
for m in muts:
    seen[m["Func"]] = seen.get(m["Func"], 0) + 1
    m["rank"] = seen[m["Func"]]
muts.sort(key=lambda m: m["rank"])
muts = muts[:n]

enc, size, wall = {}, {}, {}
for f in glob.glob(VERIF + "/evidence/C*.json"):
    e = json.load(open(f)); c = e["coverage"]; id = os.path.basename(f)[:-5]
    fs = set(re.sub(r"\$.*", "", x) for x in c["functions_encoded"])
    size[id] = len(fs)
    wall[id] = sum(h["wall_s"] for h in c["harnesses"])
    for x in fs: enc.setdefault(x, set()).add(id)
anchor = {}
for l in open(VERIF + "/properties.jsonl"):
    q = json.loads(l)
    anchor[q["id"]] = json.dumps(q)
json.dump({k: sorted(v) for k, v in enc.items()}, open("/tmp/mut_enc.json", "w"))

def candidates(m):
    ids = enc.get(m["Func"], set())
    if m["Func"].endswith(".init"):
        ids = set(i for i in anchor if m["File"] in anchor[i])
    return sorted(ids, key=lambda i: (m["File"] not in anchor[i], wall[i]))

q = queue.Queue()
for m in muts: q.put(m)
lock = threading.Lock()
res = open(out, "a")
env = dict(os.environ, GOPROXY="off", GOTOOLCHAIN="local", GOSUMDB="off")
count = {}

def sh(cmd, cwd, t, **e):
    p = subprocess.Popen(cmd, cwd=cwd, env=dict(env, **e), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, start_new_session=True)
    try:
        o, _ = p.communicate(timeout=t)
        return p.returncode, o
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, 9); p.communicate()
        return 124, "timeout"

def work(k):
    d = "%s/%d" % (ROOT, k)
    shutil.rmtree(d, ignore_errors=True); os.makedirs(ROOT, exist_ok=True)
    subprocess.check_call(["cp", "-a", "/repo", d])
    v = "%s/v%d" % (ROOT, k)
    shutil.rmtree(v, ignore_errors=True)
    subprocess.check_call(["cp", "-a", VERIF, v])
    while True:
        try: m = q.get_nowait()
        except queue.Empty: return
        p = d + "/" + m["File"]
        src = open(p, "rb").read()
        try:
            open(p, "wb").write(src[:m["From"]] + m["New"].encode() + src[m["To"]:])
            r = judge(m, d, v)
        finally:
            open(p, "wb").write(src)
        m.update(r)
        with lock:
            count[r["res"]] = count.get(r["res"], 0) + 1
            res.write(json.dumps(m) + "\n"); res.flush()

def judge(m, d, v):
    rc, o = sh(["go", "build", "./..."], d, 120)
    if rc: return {"res": "nobuild"}
    rc, o = sh(["go", "test", "-vet=off", "-count=1", "-timeout", "20s", "./..."], d, 120)
    if rc: return {"res": "tests"}
    t0 = time.time(); ran = []
    cs = candidates(m)
    if not cs: return {"res": "uncovered"}
    for c in cs[:14]:
        rc, o = sh(["./run.sh", c, "-budget", os.environ.get("BUDGET", "6"), "-workers", os.environ.get("WORKERS", "3")], v, 300, VERIF_REPO=d, VERIF_TIER="quick", VERIF_SEED="1")
        if "VIOLATION property=" in o: return {"res": "killed", "by": c, "t": time.time() - t0, "ran": ran}
        ran.append(c if rc == 0 else "%s:%d" % (c, rc))
        if time.time() - t0 > 240: break
    return {"res": "survived", "ran": ran, "t": time.time() - t0}

ts = [threading.Thread(target=work, args=(k,)) for k in range(par)]
for t in ts: t.start()
for t in ts: t.join()
print(count)
