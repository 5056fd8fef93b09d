#!/usr/bin/env python3
"""Turns the definitions in tools/seeds/*.txt style tables below into seeded/<id>/ after confirming each in a scratch copy:
   builds, stable tests pass, demo passes unchanged and fails changed.  usage: seeds.py [id ...]"""
import json, os, shutil, subprocess, sys, tempfile, importlib.util
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
DEMO = os.path.join(here, "tools", "demo")
S = {}
def seed(id, prop, edits, demo, needs, breaks):
    S[id] = (prop, edits, demo, needs, breaks)
for f in sorted(os.listdir(os.path.join(here, "tools", "seeds"))):
    if f.endswith(".py"):
        exec(open(os.path.join(here, "tools", "seeds", f)).read())

def sh(c, cwd, env=None, t=900):
    return subprocess.run(c, shell=True, cwd=cwd, env=env, timeout=t, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)

def stable(cwd):
    base = json.load(open("/opt/vp/BASELINE.json"))
    env = dict(os.environ, CARGO_NET_OFFLINE="true", CARGO_TARGET_DIR=cwd + "/target")
    r = sh("cargo test --workspace --no-fail-fast --offline -- --test-threads 8", cwd, env)
    return r.returncode == 0, r.stdout

def main():
    ids = sys.argv[1:] or list(S)
    rep = "/tmp/seedrepo"
    shutil.rmtree(rep, ignore_errors=True)
    sh(f"cp -a /repo {rep} && cd {rep} && git checkout -q -- .", "/")
    for id in ids:
        prop, edits, demo, needs, breaks = S[id]
        d = os.path.join(here, "seeded", id)
        sh("git checkout -q -- .", rep)
        bad = None
        for f, a, b in edits:
            p = os.path.join(rep, f)
            t = open(p).read()
            if t.count(a) != 1:
                bad = f"{f}: {a!r} occurs {t.count(a)} times"
                break
            open(p, "w").write(t.replace(a, b))
        if bad:
            print(id, "EDIT", bad); continue
        patch = sh("git diff", rep).stdout
        ok, log = stable(rep)
        if not ok:
            fails = [l for l in log.splitlines() if "FAILED" in l or l.startswith("error")]
            print(id, "TESTS", fails[:4]); continue
        tmp = tempfile.mkdtemp(prefix="seed-")
        dd = os.path.join(tmp, "x")
        shutil.copytree(DEMO, dd)
        pre = "#![allow(dead_code, unused_imports)]\nmod enc;\nmod q;\nmod render;\nmod rng;\nmod rs;\nmod spec;\nuse enc::*;\nuse q::*;\nuse render::*;\nuse rqrr::*;\nuse spec::*;\n\n"
        open(os.path.join(dd, "main.rs"), "w").write(pre + demo.strip() + "\n")
        if "run by Miri" in demo:
            p = os.path.join(dd, "demo.sh")
            t = open(p).read()
            i = t.index("cargo build")
            open(p, "w").write(t[:i] + "MIRIFLAGS=-Zmiri-disable-isolation exec timeout 250 cargo +nightly miri run --offline -q\n")
        r1 = sh(f"bash {dd}/demo.sh", rep, t=300)
        sh("git checkout -q -- .", rep)
        r0 = sh(f"bash {dd}/demo.sh", rep, t=300)
        if r0.returncode != 0 or r1.returncode in (0, 2):
            print(id, "DEMO clean", r0.returncode, "patched", r1.returncode, (r0.stdout if r0.returncode else r1.stdout)[-1500:]); shutil.rmtree(tmp); continue
        shutil.rmtree(d, ignore_errors=True)
        shutil.copytree(dd, d)
        open(os.path.join(d, "patch.diff"), "w").write(patch)
        json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(os.path.join(d, "meta.json"), "w"), indent=1)
        shutil.rmtree(tmp)
        print(id, "ok:", r1.stdout.strip().splitlines()[-1:] , flush=True)
    shutil.rmtree(rep, ignore_errors=True)
main()
