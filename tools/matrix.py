#!/usr/bin/env python3
"""Development aid: which drivers (without TLC) notice which patches.
matrix.py OUT WORKERS C01,C02,... patch.diff ...   appends {"bug","prop","rc"} to OUT; cells already there are skipped."""
import sys, os, shutil, subprocess, json, threading, queue
out, W, props, diffs = sys.argv[1], int(sys.argv[2]), sys.argv[3].split(","), sys.argv[4:]
sys.argv = ["mutate.py", out, str(W)]
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import mutate as M
def name(d): return os.path.basename(os.path.dirname(d)) if d.endswith("/patch.diff") else os.path.basename(d)[:-5]
done = set()
if os.path.exists(out):
    for l in open(out):
        e = json.loads(l); done.add((e["bug"], e["prop"]))
gens = M.prepare(); q = queue.Queue(); lock = threading.Lock()
for d in diffs:
    todo = [p for p in props if (name(d), p) not in done]
    if todo: q.put((d, todo))
print(q.qsize(), "patches", flush=True)
def worker(k):
    wd = "%s/m%d" % (M.BASE, k)
    while True:
        try: d, todo = q.get_nowait()
        except queue.Empty: return
        shutil.rmtree(wd, ignore_errors=True); os.makedirs(wd)
        repo = wd + "/repo"; shutil.copytree("/repo", repo, symlinks=True)
        shutil.copytree(M.HERE + "/harness", wd + "/harness")
        gm = wd + "/harness/go.mod"; s = open(gm).read().replace("=> /repo", "=> " + repo); open(gm, "w").write(s)
        if subprocess.run(["git", "apply", d], cwd=repo, capture_output=True).returncode: print("does not apply", d); continue
        rc, o = M.sh(["go", "build", "-o", wd + "/driver", "."], wd + "/harness", 200)
        rc2, o2 = M.sh(["go", "build", "-o", wd + "/dawgtool", "./cmd/dawgtool"], repo, 200)
        if rc or rc2: print("no build", d); continue
        for p in todo:
            od = wd + "/out"; shutil.rmtree(od, ignore_errors=True); os.makedirs(od)
            v = ",".join(x for nn, x in gens[p] if nn == "vectors")
            x = ",".join(["%s=%s" % a for a in gens[p] if a[0] != "vectors"] + ["tool=" + wd + "/dawgtool", "scratch=" + wd, "repo=" + repo, "golden=" + M.HERE + "/golden"])
            e = M.check.go_env(); e["GOMAXPROCS"] = "4"
            rc, o = M.sh([wd + "/driver", "-prop", p, "-seed", "1", "-out", od, "-vectors", v, "-extra", x, "-limit", "60s"], wd, 500, e)
            with lock, open(out, "a") as g: g.write(json.dumps(dict(bug=name(d), prop=p, rc=rc)) + "\n")
ts = [threading.Thread(target=worker, args=(k,)) for k in range(W)]
[t.start() for t in ts]; [t.join() for t in ts]
