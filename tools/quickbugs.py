#!/usr/bin/env python3
"""Development aid: makes patches from a list of edits and runs the checks against them in scratch copies.
quickbugs.py WORKERS DEFS.py [id ...];  DEFS.py: Q = [(id, prop, [(file, old, new), ...]), ...]"""
import sys, os, shutil, subprocess, tempfile, importlib.util
HERE = os.path.dirname(os.path.abspath(__file__))
spec = importlib.util.spec_from_file_location("defs", sys.argv[2]); D = importlib.util.module_from_spec(spec); spec.loader.exec_module(D)
only = sys.argv[3:]; out = []
os.makedirs("/tmp/qb", exist_ok=True)
for id, prop, edits in D.Q:
    if only and id not in only: continue
    t = tempfile.mkdtemp(prefix="qb-"); repo = t + "/repo"
    shutil.copytree("/repo", repo, symlinks=True)
    for f, o, n in edits:
        s = open(repo + "/" + f).read(); assert s.count(o) == 1, (id, f, s.count(o)); open(repo + "/" + f, "w").write(s.replace(o, n))
    subprocess.run(["gofmt", "-w"] + [f for f, _, _ in edits], cwd=repo)
    b = subprocess.run(["go", "build", "./..."], cwd=repo, capture_output=True, text=True)
    r = subprocess.run(["go", "test", "-count=1", "./..."], cwd=repo, capture_output=True, text=True)
    open("/tmp/qb/%s.diff" % id, "w").write(subprocess.run(["git", "diff"], cwd=repo, capture_output=True, text=True).stdout)
    shutil.rmtree(t)
    if b.returncode: print("no build", id, b.stderr[:300]); continue
    if r.returncode: print("fails the tests", id); continue
    out += ["/tmp/qb/%s.diff:%s" % (id, p) for p in prop.split(",")]
subprocess.run([sys.executable, HERE + "/trycopy.py", sys.argv[1]] + out)
