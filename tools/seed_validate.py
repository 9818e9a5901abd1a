#!/usr/bin/env python3
"""Development aid: validate planted bugs (seeded/<id>) in private mount namespaces, several at a time.
usage: seed_validate.py [-j N] [-c C01,C02|all|none] [id ...]
For each: demo on the unchanged tree, apply, build+tests, demo, the check of its property (or those given)."""
import json, os, subprocess, sys, time
from concurrent.futures import ThreadPoolExecutor
args = sys.argv[1:]
jobs, checks, ids = 3, None, []
while args:
    a = args.pop(0)
    if a == "-j":
        jobs = int(args.pop(0))
    elif a == "-c":
        checks = args.pop(0)
    else:
        ids.append(a)
V = "/verif"
ids = ids or sorted(os.listdir(V + "/seeded"))
stable = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
allc = [c["property"] for c in json.load(open(V + "/MANIFEST.json"))["checks"]]


def one(i):
    t0 = time.time()
    root = "/tmp/sv/" + i
    subprocess.run(["rm", "-rf", root])
    os.makedirs(root)
    prop = json.load(open("%s/seeded/%s/meta.json" % (V, i)))["property"]
    cs = [prop] if checks is None else allc if checks == "all" else [] if checks == "none" else checks.split(",")
    subprocess.run(["cp", "-a", "/repo", root + "/repo"], check=True)
    subprocess.run(["cp", "-a", V + "/seeded/" + i, root + "/seed"], check=True)
    subprocess.run("mkdir %s/verif && cd %s && tar c --exclude=./seeded --exclude=./.git . | tar x -C %s/verif" % (root, V, root), shell=True, check=True)
    sh = """
set -u
mount --bind %(r)s/repo /repo && mount --bind %(r)s/verif /verif || exit 9
cd /repo
bash %(r)s/seed/demo.sh > %(r)s/demo0.log 2>&1; echo "demo0 $?"
git apply %(r)s/seed/patch.diff || { echo "apply 1"; exit; }
bash /opt/vp/test.sh %(r)s/test.json > %(r)s/test.log 2>&1; echo "test $?"
bash %(r)s/seed/demo.sh > %(r)s/demo1.log 2>&1; echo "demo1 $?"
cd /verif
for c in %(c)s; do VERIF_SEED=1 VERIF_TIER=quick python3 check.py $c quick > %(r)s/$c.log 2>&1; echo "check $c $?"; done
""" % {"r": root, "c": " ".join(cs)}
    r = subprocess.run(["unshare", "-Urm", "bash", "-c", sh], capture_output=True, text=True)
    out = r.stdout.split("\n")
    try:
        passed = set(json.load(open(root + "/test.json"))["passed"])
        bad = sorted(stable - passed)
    except Exception as e:
        bad = ["?" + str(e)]
    kv = {}
    caught = []
    for l in out:
        w = l.split()
        if w[:1] == ["check"]:
            log = open("%s/%s.log" % (root, w[1])).read()
            ok = w[2] == "1" and "VIOLATION property=" + w[1] in log
            caught.append("%s:%s" % (w[1], "CAUGHT" if ok else "quiet" if w[2] == "0" else "ERR" + w[2]))
        elif len(w) == 2:
            kv[w[0]] = w[1]
    good = kv.get("demo0") == "0" and kv.get("demo1") not in (None, "0", "2") and not bad
    print("%-34s %s demo %s/%s tests-lost %d %s  [%s] %.0fs" % (i, "VALID" if good else "INVALID", kv.get("demo0"), kv.get("demo1"),
          len(bad), bad[:2], " ".join(c for c in caught if checks != "all" or not c.endswith("quiet")), time.time() - t0), flush=True)
    if good:
        subprocess.run(["rm", "-rf", root])
    elif r.stderr:
        print(r.stderr[-500:])


with ThreadPoolExecutor(jobs) as ex:
    list(ex.map(one, ids))
