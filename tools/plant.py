#!/usr/bin/env python3
"""Helper to keep planted bugs: fills seeded/<id>/ from a definition and confirms it.
   plant.py make DEFS.py        writes seeded/<id>/ for each bug(...) of DEFS.py
   plant.py try ID...           applies each to /repo, runs build, tests, demo and the property's check, undoes it
"""
import json, os, re, shutil, subprocess, sys, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
D = os.path.join(V, "tools", "demo")
def sh(cmd, **kw):
    return subprocess.run(cmd, shell=True, text=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, **kw)
def make(defs):
    def bug(id, prop, edits, needs, breaks, main, files={}, py=False):
        t = tempfile.mkdtemp(prefix="plant", dir="/tmp")
        sh(f"git -C /repo worktree prune; git clone -q /repo {t}/r")
        for f, old, new in edits:
            p = f"{t}/r/{f}"; s = open(p).read()
            assert s.count(old) == 1, (id, f, s.count(old), old)
            open(p, "w").write(s.replace(old, new))
        diff = subprocess.run(["git", "-C", f"{t}/r", "diff"], text=True, stdout=subprocess.PIPE).stdout
        shutil.rmtree(t)
        o = os.path.join(V, "seeded", id)
        if os.path.exists(o): shutil.rmtree(o)
        os.makedirs(o)
        open(f"{o}/patch.diff", "w").write(diff)
        json.dump(dict(property=prop, needs=needs, what_it_breaks=breaks), open(f"{o}/meta.json", "w"), indent=1)
        if py:
            for f in ("demo.sh", "main.rs", "lock", "Cargo.toml.in"): shutil.copy(f"{D}_py/{f}", f"{o}/{f}")
            open(f"{o}/demo.py", "w").write(main.strip() + "\n")
        else:
            for f in ("demo.sh", "prelude.rs", "lock", "Cargo.toml.in"): shutil.copy(f"{D}/{f}", f"{o}/{f}")
            open(f"{o}/main.rs", "w").write("mod prelude;\nuse prelude::*;\n\n" + main.strip() + "\n")
        shutil.copytree(f"{V}/stubs", f"{o}/stubs", ignore=shutil.ignore_patterns("async-recursion", "random-access-memory", "target", "Cargo.lock"))
        for k, v in files.items(): open(f"{o}/{k}", "w").write(v)
        print("made", id)
    exec(open(defs).read(), dict(bug=bug))
def tryit(ids):
    env = dict(os.environ, HB_DEMO_TARGET="/tmp/plant_target")
    for id in ids:
        d = os.path.join(V, "seeded", id); prop = json.load(open(f"{d}/meta.json"))["property"]
        res = {}
        assert not sh("git -C /repo status --porcelain").stdout.strip(), "repo dirty"
        r0 = sh(f"{d}/demo.sh", cwd="/repo", env=env)
        a = sh(f"git -C /repo apply {d}/patch.diff")
        try:
            if a.returncode: print(id, "DOES NOT APPLY", a.stdout); continue
            b = sh("bash /opt/vp/build.sh && bash /opt/vp/test.sh /tmp/plant_out.json")
            r1 = sh(f"{d}/demo.sh", cwd="/repo", env=env)
            c = sh(f"{V}/tools/run.sh {prop} quick", env=dict(os.environ, VERIF_SEED="1"))
            viol = [l for l in c.stdout.splitlines() if l.startswith("VIOLATION")]
        finally:
            sh("git -C /repo checkout -- .")
        ok = r0.returncode == 0 and r1.returncode == 1 and b.returncode == 0
        print(f"{id} {prop} demo {r0.returncode}->{r1.returncode} build {b.returncode} {'KEEP' if ok else 'BAD'} check {c.returncode} {'CAUGHT' if c.returncode==1 and viol else 'MISSED'}", flush=True)
        if not ok: print((r0.stdout if r0.returncode else r1.stdout)[-1500:])
        if c.returncode == 1 and viol:
            print("    ", [l for l in c.stdout.splitlines() if l.strip()][0][:50], "|", c.stdout[-400:].replace("\n", " | ")[:400])
        else: print("    ", c.stdout[-800:])
if __name__ == "__main__":
    {"make": lambda a: make(a[0]), "try": tryit}[sys.argv[1]](sys.argv[2:])
