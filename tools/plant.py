#!/usr/bin/env python3
"""Makes /verif/seeded/<id>/ from a definition: plant.py DEF.py [id ...].
Each definition is confirmed in a scratch copy of /repo: builds, passes the stable tests, and its
demonstration fails with it and passes without it."""
import importlib.util, json, os, shutil, subprocess, sys, tempfile
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
spec = importlib.util.spec_from_file_location("defs", sys.argv[1])
D = importlib.util.module_from_spec(spec); spec.loader.exec_module(D)
only = sys.argv[2:]
DEMO = r'''#!/bin/sh
# run with cwd = the repository
here=$(cd "$(dirname "$0")" && pwd)
repo=$(pwd)
tmp=$(mktemp -d) || exit 1
trap 'rm -rf "$tmp"' EXIT
cp "$here"/demo.go.txt "$tmp"/main.go
printf 'module demo\n\ngo 1.18\n\nrequire github.com/deNULL/dawg v0.0.0\n\nreplace github.com/deNULL/dawg => %s\n' "$repo" > "$tmp"/go.mod
TOOL=
export GOFLAGS=-mod=mod GOPROXY=off GOSUMDB=off GOWORK=off
go build -o "$tmp/dawgtool" ./cmd/dawgtool || exit 1
cd "$tmp" && go build @RACE@ -o demo . || exit 1
timeout 200 ./demo "$tmp"
'''
base = json.load(open("/opt/vp/BASELINE.json"))
def run(cmd, cwd):
    return subprocess.run(cmd, cwd=cwd, capture_output=True, text=True)
for b in D.BUGS:
    if only and b["id"] not in only: continue
    out = os.path.join(HERE, "seeded", b["id"])
    tmp = tempfile.mkdtemp(prefix="plant-")
    try:
        repo = os.path.join(tmp, "repo")
        shutil.copytree("/repo", repo, symlinks=True)
        shutil.rmtree(out, ignore_errors=True); os.makedirs(out)
        open(os.path.join(out, "demo.go.txt"), "w").write(b["demo"])
        open(os.path.join(out, "demo.sh"), "w").write(DEMO.replace("@RACE@", "-race" if b.get("race") else "")); os.chmod(os.path.join(out, "demo.sh"), 0o755)
        json.dump({"property": b["property"], "needs": b["needs"], "what_it_breaks": b["breaks"]}, open(os.path.join(out, "meta.json"), "w"), indent=1)
        r0 = run(["sh", os.path.join(out, "demo.sh")], repo)
        for f, old, new in b["edits"]:
            p = os.path.join(repo, f); s = open(p).read()
            assert s.count(old) == 1, (b["id"], f, s.count(old), old)
            open(p, "w").write(s.replace(old, new))
        run(["gofmt", "-w"] + [f for f, _, _ in b["edits"]], repo)
        d = run(["git", "diff"], repo).stdout
        open(os.path.join(out, "patch.diff"), "w").write(d)
        for l in d.splitlines():
            if l.startswith("--- a/"): f0 = l[6:]
            elif l.startswith("-") and not l.startswith("---") and l[1:].strip():
                if l[1:] not in run(["git", "show", "f651fce:" + f0], repo).stdout.splitlines(): print("   changes a line of ours:", l)
        v = run(["go", "vet", "./..."], repo)
        t = run(["go", "test", "-count=1", "./..."], repo)
        r1 = run(["sh", os.path.join(out, "demo.sh")], repo)
        ok = r0.returncode == 0 and r1.returncode != 0 and t.returncode == 0
        print(("ok   " if ok else "BAD  ") + b["id"], "clean=%d bug=%d tests=%d vet=%d" % (r0.returncode, r1.returncode, t.returncode, v.returncode), "|", (r1.stdout + r1.stderr).strip()[-160:].replace("\n", " / "), flush=True)
        if not ok:
            print("   clean:", (r0.stdout + r0.stderr)[-600:], "\n   tests:", t.stdout[-500:], t.stderr[-300:])
            shutil.rmtree(out)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
