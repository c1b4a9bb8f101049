#!/usr/bin/env python3
"""Mutation campaign (development aid; no check uses it).
mutate.py N SEED WORKERS DIR: for N mutants of /repo/src, in copies under DIR, keep those that compile and pass
the stable tests, run the related checks on them, and append a line per mutant to DIR/log."""
import json, os, random, re, subprocess, sys, threading
N, SEED, WORKERS, DIR = int(sys.argv[1]), int(sys.argv[2]), int(sys.argv[3]), sys.argv[4]
FNS = {"gamma.rs": ["P01", "P02", "P03", "P04", "P05", "P06", "P07", "P27", "P28", "P29"],
       "beta.rs": ["P06", "P07", "P08", "P09", "P27", "P28"],
       "error.rs": ["P10", "P11", "P12", "P14", "P15", "P27", "P28"],
       "dawson.rs": ["P13", "P15", "P28"],
       "faddeeva.rs": ["P14", "P15", "P28"],
       "bessel.rs": ["P16", "P17", "P18", "P19", "P20", "P21", "P22", "P23", "P24", "P27", "P28"],
       "utils.rs": ["P29", "P01", "P14", "P28"], "lib.rs": ["P03", "P05", "P07", "P09", "P10", "P12", "P13", "P14", "P16"]}
SRC = "/repo/src/"
def sites():
    out = {}
    for f in FNS:
        lines = open(SRC + f).read().split("\n")
        scope, depth = "", 0
        for i, l in enumerate(lines):
            s = l.strip()
            if s.startswith("#[cfg(test)]"):
                break
            m = re.match(r"(pub )?(?:const |static )?(fn|const|static)?\s*(\w+)\s*[:(<]", s)
            m2 = re.match(r"(?:pub )?(?:fn|const|static) (\w+)", s)
            if m2:
                scope = m2.group(1)
            if s.startswith("//") or not s or s.startswith("#[") or s.startswith("use "):
                continue
            code = l.split("//")[0]
            def add(kind, new, i=i, f=f):
                if new != lines[i]:
                    out.setdefault((f, scope), []).append((f, i, kind, lines[i], new))
            for m in re.finditer(r"(?<![\w.])(\d[\d_]*\.\d[\d_]*(?:[eE][-+]?\d+)?|\d[\d_]*[eE][-+]?\d+)", code):
                t = m.group(1).replace("_", "")
                v = float(t)
                for k in (1 + 1e-10, 1 + 1e-7, 1 + 1e-4, 1.07, 0.9):
                    w = repr(v * k) if v else "1e-12"
                    if "f64" in code[m.end():m.end() + 3] or True:
                        add("float", code[:m.start()] + w + l[m.end():])
            for m in re.finditer(r"(?<![\w.])(\d+)(?:f64)?(?![\w.])", code):
                if re.search(r"[<>+\-*/=(,\[ ]$", code[:m.start()] or " "):
                    for d in (1, -1):
                        v = int(m.group(1)) + d
                        if v >= 0:
                            add("int", code[:m.start()] + str(v) + l[m.end(1):])
            for a, bs in ((" < ", [" <= ", " > "]), (" <= ", [" < ", " >= "]), (" > ", [" >= ", " < "]), (" >= ", [" > ", " <= "]),
                          (" + ", [" - "]), (" - ", [" + "]), (" * ", [" / "]), (" / ", [" * "]), (" && ", [" || "]), (" || ", [" && "]), (" == ", [" != "]),
                          ("+= ", ["-= "]), ("-= ", ["+= "])):
                for m in re.finditer(re.escape(a), code):
                    for b in bs:
                        add("op", code[:m.start()] + b + l[m.end():])
            m = re.match(r"^(\s*)if (.*) \{$", code)
            if m:
                add("iftrue", f"{m.group(1)}if true || {m.group(2)} {{")
                add("iffalse", f"{m.group(1)}if false && ({m.group(2)}) {{")
            if s.endswith(";") and not s.startswith(("let", "return", "const", "static", "pub")) and s[0] not in "})":
                add("delete", "")
            for m in re.finditer(r"\.abs\(\)", code):
                add("abs", code[:m.start()] + l[m.end():])
    return out
def sh(cmd, cwd, t):
    try:
        return subprocess.run(cmd, shell=True, cwd=cwd, timeout=t, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    except subprocess.TimeoutExpired:
        sh2 = subprocess.CompletedProcess(cmd, 124, "", "")
        return sh2
STABLE = set(x if isinstance(x, str) else x.get("id") for x in json.load(open("/opt/vp/BASELINE.json")).get("stable", [])) if 0 else None
def prep(w):
    d = f"{DIR}/{w}"
    if not os.path.isdir(d + "/repo"):
        os.makedirs(d)
        sh(f"git clone -q /repo {d}/repo; mkdir -p {d}/verif", "/", 600)
    sh(f"git -C {d}/repo checkout -qf -- .; git -C {d}/repo pull -q", "/", 600)
    sh(f"(cd /verif && git ls-files | grep -v '^seeded' | tar cf - -T -) | tar xf - -C {d}/verif; sed -i 's#path = \"/repo\"#path = \"{d}/repo\"#' {d}/verif/harness/Cargo.toml; mkdir -p {d}/verif/evidence", "/", 600)
    return d
lock = threading.Lock()
def log(*a):
    with lock, open(DIR + "/log", "a") as f:
        f.write("\t".join(map(str, a)) + "\n")
def work(w, queue):
    d = prep(w)
    env = "CARGO_NET_OFFLINE=true PROPTEST_RNG_SEED=1 PROPTEST_DISABLE_FAILURE_PERSISTENCE=1"
    while True:
        with lock:
            if not queue:
                return
            f, i, kind, old, new = queue.pop()
        p = f"{d}/repo/src/{f}"
        src = open(SRC + f).read().split("\n")
        assert src[i] == old
        src[i] = new
        open(p, "w").write("\n".join(src))
        name = f"{f}:{i+1}:{kind}\t{old.strip()}\t=>\t{new.strip()}"
        r = sh(f"{env} timeout 120 cargo test -q --workspace --no-fail-fast --offline", d + "/repo", 200)
        if r.returncode:
            b = "error[" in r.stdout or "could not compile" in r.stdout
            log("BUILD" if b else "TESTS", name)
        else:
            got = None
            for id in FNS[f]:
                r = sh(f"timeout 880 bash check.sh {id} quick", d + "/verif", 900)
                if r.returncode == 1:
                    v = re.findall(r"property P\d\d: (.*?)  \[", r.stdout)
                    got = (id, (v or [""])[0][:160])
                    break
                if r.returncode:
                    got = (id, f"rc {r.returncode}")
                    break
            log("CAUGHT " + got[0] if got else "SURVIVED", name, got[1] if got else "")
        sh(f"git -C {d}/repo checkout -qf -- .", "/", 60)
S = sites()
rnd = random.Random(SEED)
keys = sorted(S)
queue = []
while len(queue) < N:
    for k in keys:
        if S[k]:
            queue.append(S[k].pop(rnd.randrange(len(S[k]))))
rnd.shuffle(queue)
queue = queue[:N]
ts = [threading.Thread(target=work, args=(w, queue)) for w in range(WORKERS)]
[t.start() for t in ts]
[t.join() for t in ts]
