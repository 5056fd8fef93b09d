#!/usr/bin/env python3
"""Systematic planted changes: mutates /repo's sources in scratch copies, keeps what builds and passes the tests, runs the
monitors on it (scaled down, then in full) and lists what nothing noticed.
  mutants.py gen                  -> /tmp/mut/list.json
  mutants.py tests N              -> /tmp/mut/tests.json (N at a time)
  mutants.py checks SCALE IN OUT  -> runs checks on survivors"""
import sys, os, re, json, random, subprocess, shutil, threading, queue, time
W = "/tmp/mut"
FILES = ["src/decode.rs", "src/detect.rs", "src/geometry.rs", "src/lib.rs", "src/prepare.rs", "src/version_db.rs", "src/identify/grid.rs", "src/identify/match_capstones.rs"]

def code_lines(f):
    t = open("/repo/" + f).read().split("\n")
    out = []
    for i, l in enumerate(t):
        if l.strip().startswith("#[cfg(test)]") and i + 1 < len(t) and "mod" in t[i + 1]:
            break
        s = l.strip()
        if s.startswith("//") or s.startswith("*") or s.startswith("/*") or s.startswith("#") or s.startswith("use "):
            continue
        out.append((i, l))
    return t, out

REL = {"<": ["<="], "<=": ["<"], ">": [">="], ">=": [">"], "==": ["!="], "!=": ["=="], "&&": ["||"], "||": ["&&"],
       "+": ["-"], "-": ["+"], "*": ["/"], "/": ["*"], "%": ["/"], "<<": [">>"], ">>": ["<<"], "&": ["|"], "|": ["&"], "^": ["|"],
       "+=": ["-="], "-=": ["+="], "..": ["..="], "..=": [".."], "*=": ["/="], "^=": ["|="], "|=": ["&="]}
WORD = {"min": "max", "max": "min", "true": "false", "false": "true", "left": "right", "right": "left", "x": "y", "y": "x", "width": "height", "height": "width",
        "saturating_sub": "wrapping_sub", "continue": "break", "break": "continue", "Black": "White", "is_some": "is_none", "is_none": "is_some", "floor": "ceil", "round": "floor", "CapStone": "Alignment"}

def gen():
    os.makedirs(W, exist_ok=True)
    M = []
    rnd = random.Random(5)
    for f in FILES:
        t, lines = code_lines(f)
        db = []
        for i, l in lines:
            c = l.split("//")[0]
            sig = re.match(r"\s*(pub )?(fn|impl|struct|enum|trait|where|type|mod)\b", c)
            for m in re.finditer(r"(?<= )(<=|>=|==|!=|&&|\|\||<<|>>|\+=|-=|\*=|\^=|\|=|<|>|\+|-|\*|/|%|&|\||\^)(?= )|(\.\.=|\.\.)(?=[\w(])", c):
                if sig: continue
                op = m.group(0)
                for r in REL.get(op, []):
                    M.append((f, i, c[:m.start()] + r + c[m.end():]))
            for m in re.finditer(r"(?<![\w.])(\d+)(\.\d+)?(?![\w.]*\w*\")", c):
                if sig: continue
                if m.group(2):
                    v = [str(float(m.group(0)) * 1.3)[:8], str(float(m.group(0)) * 0.7)[:8]]
                else:
                    n = int(m.group(1))
                    v = [str(n + 1)] + ([str(n - 1)] if n else [])
                for r in v:
                    (db if f.endswith("version_db.rs") else M).append((f, i, c[:m.start()] + r + c[m.end():]))
            for m in re.finditer(r"\b(" + "|".join(WORD) + r")\b", c):
                if sig: continue
                M.append((f, i, c[:m.start()] + WORD[m.group(1)] + c[m.end():]))
            s = c.strip()
            if s.endswith(";") and not s.startswith(("let ", "return", "use", "pub", "const", "type", "fn")) and s.count("(") == s.count(")") and s.count("{") == s.count("}") and s not in ("};", ");", "});") and not s.startswith(("}", ")", "]", ".")):
                M.append((f, i, c.replace(s, "")))
            m = re.match(r"(\s*(?:\} else )?if )(?!let)(.*)( \{)$", c)
            if m:
                M.append((f, i, m.group(1) + "!(" + m.group(2) + ")" + m.group(3)))
                M.append((f, i, m.group(1) + "false && (" + m.group(2) + ")" + m.group(3)))
        rnd.shuffle(db)
        M += db[:60]
    M = sorted(set(M))
    rnd.shuffle(M)
    L = [{"id": k, "file": f, "line": i, "new": n, "old": open("/repo/" + f).read().split("\n")[i]} for k, (f, i, n) in enumerate(M) if n != open("/repo/" + f).read().split("\n")[i]]
    json.dump(L, open(W + "/list.json", "w"))
    from collections import Counter
    print(len(L), Counter(m["file"] for m in L))

def apply(m, root):
    p = f"{root}/{m['file']}"
    t = open("/repo/" + m["file"]).read().split("\n")
    assert t[m["line"]] == m["old"]
    t[m["line"]] = m["new"]
    open(p, "w").write("\n".join(t))

def restore(m, root):
    shutil.copyfile("/repo/" + m["file"], f"{root}/{m['file']}")

def workspace(k):
    w = f"{W}/w{k}"
    if not os.path.exists(w):
        subprocess.run(f"cp -a /repo {w}", shell=True, check=True)
    subprocess.run("git checkout -q -- .", shell=True, cwd=w)
    return w

def tests(n):
    L = json.load(open(W + "/list.json"))
    out = W + "/tests.json"
    R = json.load(open(out)) if os.path.exists(out) else {}
    q = queue.Queue()
    for m in L:
        if str(m["id"]) not in R: q.put(m)
    lock = threading.Lock()
    def run(k):
        w = workspace(k)
        env = dict(os.environ, CARGO_NET_OFFLINE="true", CARGO_TARGET_DIR=w + "/target", CARGO_INCREMENTAL="1", CARGO_PROFILE_DEV_DEBUG="line-tables-only", RUST_BACKTRACE="0")
        while True:
            try: m = q.get_nowait()
            except queue.Empty: return
            apply(m, w)
            r = subprocess.run("ulimit -v 8000000; timeout -k 5 300 cargo build --offline -q", shell=True, cwd=w, env=env, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
            if r.returncode: v = "build"
            else:
                r = subprocess.run("ulimit -v 12000000; timeout -k 5 45 cargo test --offline -q --lib --tests --examples -- --test-threads 4", shell=True, cwd=w, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
                if r.returncode == 0:
                    r = subprocess.run("ulimit -v 12000000; timeout -k 5 60 cargo test --offline -q --doc", shell=True, cwd=w, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
                v = "pass" if r.returncode == 0 else "fail"
            restore(m, w)
            with lock:
                R[str(m["id"])] = v
                if len(R) % 20 == 0:
                    json.dump(R, open(out + ".t", "w")); os.replace(out + ".t", out)
                    print(len(R), "of", len(L), sum(x == "pass" for x in R.values()), "pass", flush=True)
    ts = [threading.Thread(target=run, args=(k,)) for k in range(n)]
    [t.start() for t in ts]; [t.join() for t in ts]
    json.dump(R, open(out, "w"))

DEC = ["C01", "C08", "C06", "C04", "C09", "C07", "C02", "C05", "C03"]
IMG = ["C15", "C10", "C14", "C11", "C19", "C21", "C23", "C16", "C13", "C22", "C17", "C12"]
ORDER = {"src/decode.rs": DEC + ["C22", "C17"], "src/version_db.rs": DEC + ["C11", "C15", "C23", "C12"], "src/lib.rs": ["C16", "C15", "C09", "C21", "C13", "C11", "C10", "C05", "C01"],
         "src/prepare.rs": IMG, "src/detect.rs": ["C16", "C11", "C13", "C21", "C15", "C10", "C19", "C14"], "src/geometry.rs": IMG, "src/identify/grid.rs": IMG, "src/identify/match_capstones.rs": IMG}

def checks(scale, fin, fout, shard=0, shards=1):
    L = {m["id"]: m for m in json.load(open(W + "/list.json"))}
    if fin == "tests":
        ids = [int(k) for k, v in json.load(open(W + "/tests.json")).items() if v == "pass"]
    else:
        ids = [int(k) for k, v in json.load(open(f"{W}/{fin}.json")).items() if v[0] != "caught"]
    if fin == "tests":  # a few of each line
        per, keep = {}, []
        for i in ids:
            k = (L[i]["file"], L[i]["line"])
            per[k] = per.get(k, 0) + 1
            if per[k] <= (1 if L[i]["file"].endswith(("db.rs", "decode.rs")) else 2): keep.append(i)
        ids = keep
    ids = [i for k, i in enumerate(sorted(ids)) if k % shards == shard]
    out = f"{W}/{fout}.{shard}.json" if shards > 1 else f"{W}/{fout}.json"
    R = json.load(open(out)) if os.path.exists(out) else {}
    w = workspace(f"c{shard}")
    h = f"{W}/harness{shard}"; ni = f"{W}/noimg{shard}"; ev = f"{W}/ev{shard}"
    shutil.rmtree(h + "/src", ignore_errors=True)
    os.makedirs(h, exist_ok=True)
    subprocess.run(f"cp -a /verif/harness/src /verif/harness/Cargo.toml /verif/harness/Cargo.lock {h}/; sed -i 's#path = \"/repo\"#path = \"{w}\"#' {h}/Cargo.toml; mkdir -p {ni}; cp -a /verif/noimg/src /verif/noimg/Cargo.* {ni}/; sed -i 's#path = \"/repo\"#path = \"{w}\"#' {ni}/Cargo.toml", shell=True, check=True)
    os.makedirs(ev, exist_ok=True)
    for n, i in enumerate(ids):
        if str(i) in R: continue
        m = L[i]
        apply(m, w)
        t0 = time.time()
        env = dict(os.environ, CARGO_NET_OFFLINE="true", VH_SCALE=str(scale), VH_EVIDENCE=ev, VH_NOIMG=ni + "/target/release/noimg")
        subprocess.run(f"rm -rf {h}/target/release/.fingerprint/rqrr-* {h}/target/release/.fingerprint/vh-* {ni}/target/release/.fingerprint/rqrr-* {ni}/target/release/.fingerprint/noimg-*", shell=True)
        r = subprocess.run(f"cargo build --offline -q --release --manifest-path {h}/Cargo.toml --target-dir {h}/target", shell=True, env=env, stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, text=True)
        v = ["survives", ""]
        if r.returncode: v = ["nobuild", r.stderr[-300:]]
        else:
            for p in ORDER[m["file"]]:
                if scale < 0.5 and p in ("C12", "C17"): continue
                if p == "C16":
                    subprocess.run(f"cargo build --offline -q --release --manifest-path {ni}/Cargo.toml --target-dir {ni}/target", shell=True, env=env, stderr=subprocess.DEVNULL)
                r = subprocess.run(f"ulimit -v 20000000; timeout -k 5 {900 if scale >= 1 else 300} {h}/target/release/vh check {p}", shell=True, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
                if r.returncode == 1 and "VIOLATION" in r.stdout:
                    v = ["caught", p]; break
                if r.returncode != 0 and scale >= 1:
                    v = ["noanswer", p + " " + r.stdout[-300:]]
        restore(m, w)
        R[str(i)] = v
        json.dump(R, open(out + ".t", "w")); os.replace(out + ".t", out)
        print(f"{n}/{len(ids)} {i} {v} {time.time()-t0:.0f}s {m['file']}:{m['line']+1}: {m['new'].strip()}", flush=True)

a = sys.argv
if a[1] == "gen": gen()
elif a[1] == "tests": tests(int(a[2]))
else: checks(float(a[2]), a[3], a[4], *map(int, a[5:7]))
