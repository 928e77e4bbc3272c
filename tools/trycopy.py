#!/usr/bin/env python3
"""Runs the checks against planted bugs in scratch copies of both trees, several at a time (development aid;
the registered checks always run against /repo).  trycopy.py WORKERS [id[:prop] ...]"""
import sys, os, json, shutil, subprocess, tempfile, concurrent.futures as cf
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
W = int(sys.argv[1]); ids = sys.argv[2:] or sorted(os.listdir(HERE + "/seeded"))
def one(x):
    b, _, p = x.partition(":")
    p = p or json.load(open("%s/seeded/%s/meta.json" % (HERE, b)))["property"]
    t = tempfile.mkdtemp(prefix="trycopy-")
    try:
        repo, ver = t + "/repo", t + "/verif"
        shutil.copytree("/repo", repo, symlinks=True)
        shutil.copytree(HERE, ver, ignore=shutil.ignore_patterns("seeded", ".git", "evidence", "replays", "__pycache__"))
        for f, a, c in (("check.py", 'REPO = "/repo"', 'REPO = "%s"' % repo), ("harness/go.mod", "=> /repo", "=> " + repo)):
            s = open(ver + "/" + f).read(); assert a in s; open(ver + "/" + f, "w").write(s.replace(a, c))
        if b != "clean":
            pf = b if b.startswith("/") else "%s/seeded/%s/patch.diff" % (HERE, b)
            r = subprocess.run(["git", "apply", pf], cwd=repo, capture_output=True, text=True)
            if r.returncode: return "%s does not apply: %s" % (b, r.stderr)
        try:
            r = subprocess.run([sys.executable, "check.py", p], cwd=ver, capture_output=True, text=True, timeout=900)
        except subprocess.TimeoutExpired:
            return "TIMEOUT %s %s" % (b, p)
        ok = r.returncode == 1 and "VIOLATION property=" + p in r.stdout
        return "%s %s %s rc=%s %s" % ("caught" if ok else "quiet " if r.returncode == 0 else "ODD   ", b, p, r.returncode, "" if ok else (r.stdout + r.stderr)[-300:])
    finally:
        shutil.rmtree(t, ignore_errors=True)
with cf.ThreadPoolExecutor(W) as ex:
    for r in ex.map(one, ids): print(r, flush=True)
