#!/usr/bin/env python3
"""Development aid: run checks against mutated scratch copies of /repo.
usage: mut.py SPEC.py [name ...]; SPEC defines M = [(name, file, old, new, [checks]), ...]"""
import os, runpy, shutil, subprocess, sys, time
spec = runpy.run_path(sys.argv[1])["M"]
names = sys.argv[2:]
root = os.environ.get("MUT_ROOT", "/tmp/mut")
seed = os.environ.get("VERIF_SEED", "1")
for name, f, old, new, checks in spec:
    if names and name not in names:
        continue
    shutil.rmtree(root, ignore_errors=True)
    shutil.copytree(os.environ.get("MUT_SRC", "/repo"), root, ignore=shutil.ignore_patterns("_build", ".git"))
    edits = f if isinstance(f, list) else [(f, old, new)]
    ok = True
    for ff, o, n in edits:
        p = os.path.join(root, ff)
        s = open(p).read()
        if o not in s:
            print(name, "PATTERN NOT FOUND in", ff)
            ok = False
            break
        s = s.replace(o, n, 1)
        open(p, "w").write(s)
    if not ok:
        continue
    for c in checks:
        t = time.time()
        env = dict(os.environ, VERIF_REPO=root, VERIF_BUILD=root + "build", VERIF_SEED=seed)
        r = subprocess.run([sys.executable, os.environ.get("MUT_CHECK", "/verif/check.py"), c], env=env, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)
        msg = [l for l in r.stdout.splitlines() if l.startswith("FAIL")]
        st = {0: "MISSED", 1: "caught"}.get(r.returncode, "ERROR")
        print("%-28s %-4s %s %.0fs %s" % (name, c, st, time.time() - t, (msg or [""])[0][:170]), flush=True)
        if st == "ERROR":
            print(r.stderr[-1500:])
shutil.rmtree(root, ignore_errors=True)
