#!/usr/bin/env python3
"""Mutation campaign (development aid, not a check): small random changes to the code in a scratch copy; those
that build and pass the repository's tests are run through the drivers of the properties (without the
judging by TLC).  Survivors are listed for reading.   mutate.py OUT [workers] [file ...]"""
import sys, os, re, shutil, subprocess, json, random, threading, queue, glob, importlib.util
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
import plan, check
OUT = sys.argv[1]; W = int(sys.argv[2]) if len(sys.argv) > 2 else 3
BASE = os.environ.get("MUTDIR", "/tmp/mut")
files = sys.argv[3:] or [os.path.basename(f) for f in sorted(glob.glob("/repo/*.go")) if not f.endswith("_test.go")] + ["cmd/dawgtool/main.go"]
ORDER = {"utfc.go": ["C13", "C14", "C15", "C16", "C17", "C18"], "cmd/dawgtool/main.go": ["C18", "C20"]}
ALL = ["C12", "C01", "C02", "C05", "C03", "C04", "C06", "C07", "C08", "C09", "C10", "C11", "C21", "C19", "C17", "C18", "C20"]
pref = {"completer.go": ["C06"], "ranked_completer.go": ["C07"], "ranked_completer_candidate.go": ["C07"], "ranked_guide_builder.go": ["C07", "C12", "C09"],
        "indexer.go": ["C08", "C09"], "index_builder.go": ["C08", "C09", "C12"], "index.go": ["C10", "C11"], "guide.go": ["C10", "C11"], "ranked_guide.go": ["C10", "C11"],
        "dictionary.go": ["C01", "C02", "C10", "C11"], "dawg_builder.go": ["C05", "C03", "C04", "C12"]}
def props(f):
    if f in ORDER: return ORDER[f]
    p = pref.get(f, [])
    return p + [x for x in ALL if x not in p]

def mutants(f):
    src = open("/repo/" + f).read().split("\n")
    out = []
    for i, line in enumerate(src):
        s = line.split("//")[0]
        if not s.strip() or s.strip().startswith(("import", "package", '"', "func ", "type ", "}")) and "{" not in s.strip(): continue
        if s.strip().startswith(("package", "import", "type ", "//")): continue
        seen = set()
        def add(new):
            if new != line and new not in seen:
                seen.add(new); out.append((f, i, new))
        if s.strip().startswith("func "): continue
        swaps = [(" < ", [" <= "]), (" <= ", [" < "]), (" > ", [" >= "]), (" >= ", [" > "]), (" == ", [" != "]), (" != ", [" == "]),
                 ("&&", ["||"]), ("||", ["&&"]), (" + ", [" - "]), (" - ", [" + "]), ("<<", [">>"]), (">>", ["<<"]), ("|=", ["=", "&="]), ("&^=", ["&="]),
                 ("^", ["|", "&"]), (" & ", [" | "]), ("+=", ["-=", "="]), ("true", ["false"]), ("false", ["true"]), ("++", ["--"]), ("break", ["continue"]), ("continue", ["break"]),
                 ("&^", ["&"]), ("%", ["/"])]
        for a, bs in swaps:
            for m in re.finditer(re.escape(a), s):
                for b in bs:
                    add(line[:m.start()] + b + line[m.end():])
        for m in re.finditer(r"(?<![\w.'\"])(0x[0-9a-fA-F]+|\d+)(?![\w'\"])", s):
            n = int(m.group(1), 0)
            for v in {n + 1, n - 1, 0, n * 2}:
                if v >= 0 and v != n:
                    add(line[:m.start()] + str(v) + line[m.end():])
        m = re.match(r"(\s*)(\}?\s*else )?if (.*) \{\s*$", s)
        if m:
            cond = m.group(3)
            if ";" not in cond:
                add(line.replace(cond, "!(" + cond + ")", 1)); add(line.replace(cond, "(" + cond + ") && false", 1)); add(line.replace(cond, "(" + cond + ") || true", 1))
        if re.match(r"\s*[\w.\[\]\(\)\*\-&+]+ (=|\+=|\|=|&=|-=|&\^=) ", s) or re.match(r"\s*[\w.]+\(.*\)\s*$", s) or re.match(r"\s*[\w.\[\]]+(\+\+|--)\s*$", s):
            if not s.rstrip().endswith(("{", "(", ",")):
                add("")
        for m in re.finditer(r"\b(baseType|sizeType|valueType)\(", s):
            narrow = {"baseType": "uint16", "sizeType": "int16", "valueType": "int16"}[m.group(1)]
            depth, j = 0, m.end() - 1
            while j < len(s):
                depth += {"(": 1, ")": -1}.get(s[j], 0)
                if depth == 0: break
                j += 1
            add(line[:m.start()] + "%s(%s(%s))" % (m.group(1), narrow, line[m.end():j]) + line[j + 1:])
            if m.group(1) == "baseType":
                add(line[:m.start()] + "%s(%s) & 0xffffff" % (m.group(1), line[m.end():j]) + line[j + 1:])
    return out

def sh(cmd, cwd, timeout, env=None):
    try:
        p = subprocess.run(["nice", "-n", "10", "prlimit", "--as=%d" % (14 << 30)] + cmd, cwd=cwd, env=env or check.go_env(), capture_output=True, text=True, timeout=timeout)
        return p.returncode, p.stdout + p.stderr
    except subprocess.TimeoutExpired:
        return "timeout", ""

def prepare():
    os.makedirs(BASE + "/gen", exist_ok=True)
    idx = {}
    cache = {}
    for p, P in plan.PLAN.items():
        fl = []
        for i, (n, job) in enumerate(P.get("gen", [])):
            key = job["module"] + job["cfg"]
            if key not in cache:
                name = "%s-%d" % (n, len(cache))
                dst = BASE + "/gen/" + name + ".vec"
                if not os.path.exists(dst):
                    check.generate(BASE + "/gen", name, job)
                cache[key] = dst
            fl.append((n, cache[key]))
        idx[p] = fl
    return idx
def worker(k, q, res, gens):
    wd = "%s/w%d" % (BASE, k)
    shutil.rmtree(wd, ignore_errors=True); os.makedirs(wd)
    repo = wd + "/repo"; shutil.copytree("/repo", repo, symlinks=True)
    shutil.copytree(HERE + "/harness", wd + "/harness")
    gm = wd + "/harness/go.mod"
    s = open(gm).read().replace("=> /repo", "=> " + repo); open(gm, "w").write(s)
    while True:
        try: n, (f, i, new) = q.get_nowait()
        except queue.Empty: return
        path = os.path.join(repo, f); orig = open(path).read()
        lines = orig.split("\n"); old = lines[i]; lines[i] = new
        open(path, "w").write("\n".join(lines))
        r = "?"
        try:
            rc, o = sh(["go", "build", "./..."], repo, 100)
            if rc: r = "nobuild"; continue
            rc, o = sh(["go", "test", "-count=1", "./..."], repo, 60)
            if rc: r = "test"; continue
            rc, o = sh(["go", "build", "-o", wd + "/driver", "."], wd + "/harness", 200)
            if rc: r = "noharness"; continue
            rc, o = sh(["go", "build", "-o", wd + "/dawgtool", "./cmd/dawgtool"], repo, 200)
            r = "SURVIVED"
            for p in props(f):
                out = wd + "/out"; shutil.rmtree(out, ignore_errors=True); os.makedirs(out)
                v = ",".join(x for nn, x in gens[p] if nn == "vectors")
                x = ",".join(["%s=%s" % a for a in gens[p] if a[0] != "vectors"] + ["tool=" + wd + "/dawgtool", "scratch=" + wd, "repo=" + repo, "golden=" + HERE + "/golden"])
                e = check.go_env(); e["GOMAXPROCS"] = "4"
                rc, o = sh([wd + "/driver", "-prop", p, "-seed", "1", "-out", out, "-vectors", v, "-extra", x, "-limit", "60s"], wd, 400, e)
                if rc != 0:
                    r = "killed %s rc=%s" % (p, rc); break
        finally:
            open(path, "w").write(orig)
            with res["lock"]:
                with open(OUT, "a") as g:
                    g.write(json.dumps(dict(n=n, f=f, line=i + 1, old=old.strip(), new=new.strip(), r=r)) + "\n")
if __name__ == "__main__":
    gens = prepare()
    done = set()
    if os.path.exists(OUT):
        for l in open(OUT):
            d = json.loads(l); done.add((d["f"], d["line"], d["new"]))
    q = queue.Queue(); n = 0
    ms = [m for f in files for m in mutants(f)]
    random.Random(5).shuffle(ms)
    for m in ms:
        if (m[0], m[1] + 1, m[2].strip()) in done: continue
        q.put((n, m)); n += 1
    print(n, "mutants", flush=True)
    res = {"lock": threading.Lock()}
    ts = [threading.Thread(target=worker, args=(k, q, res, gens)) for k in range(W)]
    [t.start() for t in ts]; [t.join() for t in ts]
