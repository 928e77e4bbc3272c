#!/usr/bin/env python3
"""Decides one property of deNULL/dawg:  check.py C01 [--tier quick|thorough] [--replay FILE]

1. model-checks the specification modules the property rests on (TLC),
2. lets TLC print behaviours of the specification,
3. builds the driver from /repo's working tree and replays those behaviours, and further
   generated ones, into the real code, recording traces,
4. has TLC judge the recorded traces: every one that looked wrong to the driver, and a sample
   of the others.  Only a trace of the real code that TLC rejects is a violation.
"""
import argparse, concurrent.futures as cf, glob, hashlib, json, os, re, shutil, subprocess, sys, tempfile, time

HERE = os.path.dirname(os.path.abspath(__file__))
SPEC = os.path.join(HERE, "spec")
REPO = "/repo"
JAR = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
sys.path.insert(0, HERE)
import plan  # what each property needs

class CheckError(Exception):
    pass

def log(*a):
    print(*a, flush=True)

def go_env():
    e = dict(os.environ)
    e["PATH"] = "/opt/veriftools/go1.27.3/bin:" + e.get("PATH", "")
    e.update(GOTOOLCHAIN="local", GOPROXY="off", GOFLAGS="-mod=mod", GOSUMDB="off", GOWORK="off")
    e.pop("GORACE", None)
    return e

def build(tmp, race=False, tool=False):
    out = {}
    src = os.path.join(tmp, "harness")
    if not os.path.isdir(src):
        shutil.copytree(os.path.join(HERE, "harness"), src)
    cmd = ["go", "build", "-o", os.path.join(tmp, "driver")]
    if race:
        cmd.append("-race")
    p = subprocess.run(cmd + ["."], cwd=src, env=go_env(), capture_output=True, text=True)
    if p.returncode:
        raise CheckError("building the driver failed:\n" + p.stderr[-4000:])
    if tool:
        e = go_env()
        e["GOFLAGS"] = "-mod=mod"
        p = subprocess.run(["go", "build", "-o", os.path.join(tmp, "dawgtool"), "./cmd/dawgtool"],
                           cwd=REPO, env=e, capture_output=True, text=True)
        if p.returncode:
            raise CheckError("building dawgtool failed:\n" + p.stderr[-4000:])

def tlc(tmp, module, cfg, workers=2, mem="3g", env=None, extra=(), timeout=840, out=None):
    """Runs TLC; returns its output (a file name when out is given)."""
    md = tempfile.mkdtemp(prefix="tlc", dir=tmp)
    if "\n" in cfg:
        cfgf = os.path.join(md, module + ".cfg")
        with open(cfgf, "w") as f:
            f.write(cfg)
    else:
        cfgf = os.path.join(SPEC, cfg)
    e = dict(os.environ)
    e.pop("JAVA_TOOL_OPTIONS", None)
    e.update(env or {})
    cmd = ["java", "-XX:+UseParallelGC", "-XX:ParallelGCThreads=%d" % max(1, workers), "-Xmx" + mem, "-Xss64m",
           "-Djava.io.tmpdir=" + md, "-cp", JAR, "tlc2.TLC", "-noGenerateSpecTE", "-workers", str(workers),
           "-metadir", md, "-config", cfgf, *extra, module + ".tla"]
    outf = out or os.path.join(md, "out.txt")
    with open(outf, "w") as f:
        try:
            rc = subprocess.run(cmd, cwd=SPEC, env=e, stdout=f, stderr=subprocess.STDOUT, timeout=timeout).returncode
        except subprocess.TimeoutExpired:
            raise CheckError("TLC did not finish: %s" % module)
    txt = open(outf, errors="replace").read() if not out else ""
    if not out:
        shutil.rmtree(md, ignore_errors=True)
    return rc, txt

def counts(txt):
    m = re.findall(r"(\d+) states generated, (\d+) distinct states found", txt)
    return (int(m[-1][0]), int(m[-1][1])) if m else (0, 0)

def model_check(tmp, job):
    rc, txt = tlc(tmp, job["module"], job["cfg"], workers=job.get("workers", 2), mem=job.get("mem", "4g"), extra=job.get("args", ()))
    if rc != 0 or ("No error has been found" not in txt and "-simulate" not in job.get("args", ())):
        raise CheckError("the specification %s does not satisfy its own properties:\n%s" % (job["module"], txt[-3000:]))
    g, d = counts(txt)
    if "-simulate" in job.get("args", ()):
        m = re.findall(r"The number of states generated: (\d+)", txt)
        g = d = int(m[-1]) if m else 0
    if d == 0:
        raise CheckError("nothing was checked by %s" % job["module"])
    return dict(module=job["module"], what=job.get("what", ""), states=d, transitions=g)

def generate(tmp, name, job):
    """TLC prints lines "VEC{...}" - JSON strings; they are unquoted into a file."""
    raw = os.path.join(tmp, name + ".raw")
    rc, _ = tlc(tmp, job["module"], job["cfg"], workers=job.get("workers", 2), mem="4g", extra=job.get("args", ()), out=raw)
    dst = os.path.join(tmp, name + ".vec")
    n, tail, vecs = 0, [], []
    with open(raw, errors="replace") as f, open(dst, "w") as g:
        for line in f:
            if line.startswith('"VEC') or line.startswith('"HDR'):
                try:
                    s = json.loads(line)
                except ValueError:
                    raise CheckError("unreadable output of %s" % job["module"])
                if s.startswith("VEC"):
                    vecs.append(s)
                else:
                    g.write(s + "\n")
            else:
                tail.append(line)
                tail = tail[-60:]
        vecs.sort()     # TLC's workers print in no particular order
        n = len(vecs)
        for s in vecs:
            g.write(s + "\n")
        del vecs
    os.unlink(raw)
    txt = "".join(tail)
    if rc != 0 or n == 0 or ("No error has been found" not in txt and "-simulate" not in job.get("args", ())):
        raise CheckError("generating behaviours from %s failed:\n%s" % (job["module"], txt[-3000:]))
    g_, d = counts(txt)
    return dst, dict(module=job["module"], behaviours=n, states=d or n, transitions=g_ or n)

def judge(tmp, path):
    """TLC's verdict on a recorded trace: ("accepted", n) or ("rejected", line)."""
    spec = re.match(r"(?:suspect|sample|replay)-([A-Za-z]+)", os.path.basename(path)).group(1)
    try:
        rc, txt = tlc(tmp, spec, spec + ".cfg", workers=1, mem="3g", env={"TRACE": path}, timeout=300 if os.path.basename(path).startswith("suspect") else 150)
    except CheckError as e:
        return dict(verdict="error", text=str(e))
    m = re.search(r'<<\s*"ACCEPTED",\s*(\d+)', txt)
    if m:
        return dict(verdict="accepted", n=int(m.group(1)))
    m = re.search(r'<<\s*"REJECTED-AT",\s*(\d+)', txt)
    if m:
        return dict(verdict="rejected", line=int(m.group(1)))
    return dict(verdict="error", text=txt[-3000:])

def run_driver(tmp, prop, tier, seed, out, files, extra_args=(), only=None, timeout=800):
    os.makedirs(out, exist_ok=True)
    cmd = [os.path.join(tmp, "driver"), "-prop", prop, "-tier", tier, "-seed", str(seed), "-out", out]
    v = [p for n, p in files if n == "vectors"]
    x = ["%s=%s" % (n, p) for n, p in files if n != "vectors"] + ["tool=%s" % os.path.join(tmp, "dawgtool"), "scratch=%s" % tmp, "repo=%s" % REPO, "golden=%s" % os.path.join(HERE, "golden")]
    cmd += ["-vectors", ",".join(v), "-extra", ",".join(x)]
    if only:
        cmd += ["-only", only]
    cmd += list(extra_args)
    e = dict(os.environ)
    e["GORACE"] = "exitcode=66 halt_on_error=0 log_path=%s" % os.path.join(out, "race")
    with open(os.path.join(out, "driver.log"), "w") as f:
        try:
            rc = subprocess.run(cmd, stdout=f, stderr=subprocess.STDOUT, cwd=tmp, env=e, timeout=timeout).returncode
        except subprocess.TimeoutExpired:
            rc = "timeout"
    return rc

def show_trace(path, line):
    lines = open(path).read().split("\n")
    return lines[max(0, line - 8):line]

def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1") or 1))
    ap.add_argument("--replay")
    ap.add_argument("--keep", action="store_true")
    a = ap.parse_args()
    if a.tier not in ("quick", "thorough"):
        a.tier = "quick"
    P = plan.PLAN[a.prop]
    t0 = time.time()
    only = None
    if a.replay:
        rp = json.load(open(a.replay))
        a.seed, a.tier, only = rp["seed"], rp["tier"], rp["case"]
    tmp = tempfile.mkdtemp(prefix="dawgcheck-%s-" % a.prop)
    code = 2
    try:
        code = check(a, P, tmp, t0, only)
    except CheckError as e:
        log("ERROR:", e)
    finally:
        if a.keep:
            log("kept", tmp)
        else:
            shutil.rmtree(tmp, ignore_errors=True)
    sys.exit(code)

def check(a, P, tmp, t0, only):
    prop, tier, seed = a.prop, a.tier, a.seed
    pick = lambda k: P.get(k + "_thorough", P.get(k, [])) if tier == "thorough" else P.get(k, [])
    out = os.path.join(tmp, "out")
    os.makedirs(out)
    with cf.ThreadPoolExecutor(10) as ex:
        fb = ex.submit(build, tmp, P.get("race", False), P.get("tool", False))
        fg = [(n, ex.submit(generate, tmp, "%s%d" % (n, i), job)) for i, (n, job) in enumerate(pick("gen"))]
        fm = [ex.submit(model_check, tmp, job) for job in pick("mc")] if not only else []
        fb.result()
        gens = [(n, f.result()) for n, f in fg]
        t1 = time.time()
        files = [(n, g[0]) for n, g in gens]
        rc = run_driver(tmp, prop, tier, seed, out, files, P.get("args", []), only, timeout=7200 if tier == "thorough" else 780)
        t2 = time.time()
        models = [f.result() for f in fm]
    problems = crash_cases(tmp, prop, tier, seed, out, files, rc, P, only)
    summary = {}
    sp = os.path.join(out, "summary.json")
    if os.path.exists(sp):
        summary = json.load(open(sp))
    elif not problems:
        raise CheckError("the driver ended with %s:\n%s" % (rc, open(os.path.join(out, "driver.log")).read()[-3000:]))
    # race reports are written to files of their own
    races = sorted(glob.glob(os.path.join(out, "race.*")))
    for i, r in enumerate(races[:3]):
        t = os.path.join(out, "suspect-TraceSystem-race%d.ndjson" % i)
        with open(t, "w") as f:
            f.write(json.dumps({"op": "race", "report": open(r, errors="replace").read()[:6000]}) + "\n")
        json.dump({"case": None, "spec": "TraceSystem"}, open(t[:-7] + ".meta", "w"))

    suspects = sorted(glob.glob(os.path.join(out, "suspect-*.ndjson")))
    samples = sorted(glob.glob(os.path.join(out, "sample-*.ndjson")))
    if suspects:
        suspects = sorted(suspects, key=os.path.getsize)[:8]   # the shortest ones
        samples = samples[:4]
    with cf.ThreadPoolExecutor(8) as ex:
        verdicts = dict(zip(suspects + samples, ex.map(lambda p: judge(tmp, p), suspects + samples)))
    t3 = time.time()
    bad, errors, slow, accepted, events = [], [], [], 0, 0
    for p, v in verdicts.items():
        if v["verdict"] == "rejected":
            bad.append((p, v["line"]))
        elif v["verdict"] == "error" and p not in suspects and v["text"].startswith("TLC did not finish"):
            slow.append(p)      # nothing suspicious in it, and too much for TLC: not judged
        elif v["verdict"] == "error":
            errors.append((p, v["text"]))
        elif p in suspects:
            errors.append((p, "the driver and the specification disagree about this trace"))
        else:
            events += v["n"]
            accepted += open(p).read().count('"op":"reset"')
    if slow:
        log("not judged, too large: %s" % " ".join(os.path.basename(p) for p in slow))
    if not bad and errors:
        keep = os.path.join(HERE, "replays")
        os.makedirs(keep, exist_ok=True)
        shutil.copy(errors[0][0], os.path.join(keep, "error-" + os.path.basename(errors[0][0])))
        raise CheckError("no verdict on %s (kept in replays/):\n%s" % errors[0])
    write_evidence(a, P, models, [g for _, (_, g) in gens], summary, accepted, events, samples, len(bad), time.time() - t0)
    log("%s %s seed=%d: build+spec %.1fs driver %.1fs judging %.1fs; %s cases, %s observations, %d traces (%d events) judged by TLC"
        % (prop, tier, seed, t1 - t0, t2 - t1, t3 - t2, summary.get("cases"), summary.get("evaluations"), accepted, events))
    if not bad:
        if not only and accepted == 0:
            raise CheckError("no trace of the real code was judged")
        log("OK property=%s" % prop)
        return 0
    p, line = bad[0]
    os.makedirs(os.path.join(HERE, "replays"), exist_ok=True)
    meta = {}
    mp = p[:-7] + ".meta"
    if os.path.exists(mp):
        meta = json.load(open(mp))
    tr = show_trace(p, line)
    rp = os.path.join(HERE, "replays", "%s-%s-%d.json" % (prop, tier, seed))
    json.dump({"property": prop, "tier": tier, "seed": seed, "case": meta.get("case"), "spec": meta.get("spec"),
               "rejected_line": line, "trace_up_to_rejection": [json.loads(x) for x in tr if x.strip()],
               "replay": "python3 check.py %s --replay %s" % (prop, rp), "rejected_traces": len(bad)}, open(rp, "w"), indent=1)
    log("TLC rejects a trace of the real code (%d such); case %s; the last events:" % (len(bad), meta.get("case")))
    for x in tr[-4:]:
        log("   ", x[:1500])
    log("VIOLATION property=%s replay=%s" % (prop, rp))
    return 1

def crash_cases(tmp, prop, tier, seed, out, files, rc, P, only):
    """The driver hung or died: find the case, see that it happens again, and put it into a trace."""
    if rc in (0, 1, 66):
        return []
    if glob.glob(os.path.join(out, "race.*")):
        return ["race"]     # reported as such; whatever came of it need not come again
    if rc == 4:
        raise CheckError("driver: " + open(os.path.join(out, "driver.log")).read()[-2000:])
    cand = []
    hp = os.path.join(out, "hang.json")
    if rc == 3 and os.path.exists(hp):
        cand = [json.load(open(hp))["case"]]
    else:
        b = open(os.path.join(out, "progress"), "rb").read()
        for i in range(0, len(b), 64):
            s = b[i:i + 64].rstrip(b"\0").decode(errors="replace")
            if s:
                cand.append(s)
        if only:
            cand = [only]
    found = []
    for n, c in enumerate(cand):
        o2 = os.path.join(tmp, "again%d" % n)
        rc2 = run_driver(tmp, prop, tier, seed, o2, files, P.get("args", []), c, timeout=200)
        if rc2 in (0, 1, 4, 66):
            continue
        what = "hang" if rc2 in (3, "timeout") else "crash"
        t = os.path.join(out, "suspect-TraceSystem-x%02d.ndjson" % n)
        with open(t, "w") as f:
            f.write(json.dumps({"op": what, "case": c, "log": open(os.path.join(o2, "driver.log"), errors="replace").read()[:3000]}) + "\n")
        json.dump({"case": c, "spec": "TraceSystem"}, open(t[:-7] + ".meta", "w"))
        found.append(c)
        break
    if not found:
        raise CheckError("the driver ended with %s and no case does it again:\n%s" % (rc, open(os.path.join(out, "driver.log"), errors="replace").read()[-2500:]))
    return found

def write_evidence(a, P, models, gens, summary, accepted, events, samples, violations, wall):
    ex = []
    for p in samples[:2]:
        for l in open(p).read().split("\n")[:400]:
            if l and '"op":"reset"' not in l and len(l) < 1500:
                ex.append(json.loads(l))
            if len(ex) >= 12:
                break
    cov = {
        "states": sum(m["states"] for m in models) + sum(g["states"] for g in gens) + events,
        "transitions": sum(m["transitions"] for m in models) + sum(g["transitions"] for g in gens) + events,
        "traces_validated_against_impl": accepted,
        "spec_behaviours_replayed_into_impl": sum(g["behaviours"] for g in gens),
        "trace_events_judged_by_TLC": events,
        "observations_of_the_code": summary.get("evaluations", 0),
        "evaluations": summary.get("cases", 0),
        "distinct_nontrivial": summary.get("distinct_nontrivial", 0),
        "rule": P.get("rule", ""),
        "models": models, "generators": gens, "notes": summary.get("notes", {}),
        "samples": ex,
    }
    ev = {"property": a.prop, "tier": a.tier, "seed": a.seed, "level": P.get("level", "model_checking"),
          "coverage": cov, "assumptions": P.get("assumptions", []), "wall_s": round(wall, 2), "violations": violations}
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    with open(os.path.join(HERE, "evidence", a.prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)

if __name__ == "__main__":
    main()
