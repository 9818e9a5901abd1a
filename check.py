#!/usr/bin/env python3
"""Driver: builds /repo's library with the harness of one property, runs the
generated-input search, writes evidence/<id>.json.

  check.py C01              run (VERIF_TIER, VERIF_SEED from the environment)
  check.py C01 --replay F   re-run one recorded failing case
  check.py --build-only     compile everything once (setup_cmd)
"""
import concurrent.futures, glob, hashlib, json, os, re, shutil, signal, subprocess, sys, tempfile, threading, time

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.environ.get("VERIF_BUILD", os.path.join(VERIF, "build"))
sys.path.insert(0, VERIF)
from checks_table import CHECKS  # noqa

QT = "/usr/include/x86_64-linux-gnu/qt5"
BASE = ["-pipe", "-w", "-fopenmp", "-fPIC", "-D_REENTRANT", "-DHAVE_OPENMP", "-DQT_NO_DEBUG", "-DQT_GUI_LIB", "-DQT_CORE_LIB"]
VARIANTS = {
    # the optimisation level of the shipped build
    "rel": ["-O3", "-march=x86-64-v2"],
    "asan": ["-O1", "-march=x86-64-v2", "-g1", "-fno-omit-frame-pointer", "-fsanitize=address,undefined,float-cast-overflow",
             "-fno-sanitize=alignment,vptr", "-fno-sanitize-recover=all"],
}
OCL_DEFS = ["-DHAVE_OPENCL", "-DHAVE_OPENCL2"]
CUDA_DEFS = ["-DHAVE_CUDA", "-DHAVE_NCCL", "-I" + os.path.join(VERIF, "harness", "cuda")]


def log(*a):
    print("[check]", *a, file=sys.stderr, flush=True)


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


QUICK_DEPTH = 2     # multiplies case numbers and time budgets of the quick tier


class Builder:
    def __init__(self):
        self.shim = True
        self.hdr = self._hdr_hash()
        os.makedirs(os.path.join(BUILD, "obj"), exist_ok=True)

    def _hdr_hash(self):
        h = hashlib.sha256()
        files = sorted(glob.glob(REPO + "/nbody/*.h") + glob.glob(REPO + "/player/*.h") + glob.glob(VERIF + "/shim/*/*") +
                       glob.glob(VERIF + "/harness/cuda/*.h") + glob.glob(VERIF + "/harness/cuda/thrust/*.h") +
                       glob.glob(REPO + "/pri/*"))
        for f in files:
            h.update(f.encode())
            with open(f, "rb") as fd:
                h.update(fd.read())
        return h.hexdigest()

    def flags(self, variant, ocl, extra=()):
        f = BASE + VARIANTS[variant] + (OCL_DEFS if ocl else [])
        if self.shim:
            f = f + ["-I" + VERIF + "/shim"]
        f = f + ["-I" + REPO + "/nbody", "-I" + QT, "-I" + QT + "/QtGui", "-I" + QT + "/QtCore"]
        return f + list(extra)

    def obj(self, src, flags, std, deps=()):
        """compile one source, cached by content"""
        h = hashlib.sha256((self.hdr + " ".join(flags) + std + src).encode())
        for f in [src] + list(deps):
            with open(f, "rb") as fd:
                h.update(fd.read())
        out = os.path.join(BUILD, "obj", os.path.basename(src) + "-" + h.hexdigest()[:24] + ".o")
        if os.path.exists(out):
            return out, None
        tmp = out + ".%d.tmp" % os.getpid()
        r = sh(["g++", "-std=" + std] + flags + ["-c", src, "-o", tmp])
        if r.returncode != 0:
            return out, src + ":\n" + r.stdout[-6000:]
        os.rename(tmp, out)
        return out, None

    def lib_sources(self, ocl):
        src = [f for f in sorted(glob.glob(REPO + "/nbody/*.cpp")) if "cuda" not in os.path.basename(f)]
        if not ocl:
            src = [f for f in src if "opencl" not in os.path.basename(f)]
        # longest compile first
        return sorted(src, key=lambda f: -os.path.getsize(f))

    def rcc(self):
        files = [REPO + "/nbody/opencl.qrc", REPO + "/nbody/nbody_engine_opencl.cl"] + sorted(glob.glob(REPO + "/nbody/*.h"))
        h = hashlib.sha256()
        for f in files:
            with open(f, "rb") as fd:
                h.update(fd.read())
        out = os.path.join(BUILD, "qrc_opencl_%s.cpp" % h.hexdigest()[:16])
        if not os.path.exists(out):
            tmp = out + ".%d" % os.getpid()
            r = sh(["rcc", "-name", "opencl", REPO + "/nbody/opencl.qrc", "-o", tmp])
            if r.returncode != 0:
                r = sh(["/usr/lib/qt5/bin/rcc", "-name", "opencl", REPO + "/nbody/opencl.qrc", "-o", tmp])
            if r.returncode != 0:
                raise RuntimeError(r.stdout)
            os.rename(tmp, out)
        return out

    def cu(self, src):
        """a CUDA source as plain C++ for the execution model in harness/cuda"""
        with open(src) as f:
            text = f.read()
        text = re.sub(r"([A-Za-z_]\w*(?:\s*<[^<>;(){}]*>)?)\s*<<<(.*?)>>>\s*\(", r"cuemu::prepare(cuemu::config(\2), \1)(", text, flags=re.S)
        text = re.sub(r"extern\s+__shared__\s+([\w:]+)\s+(\w+)\s*\[\s*\]\s*;", r"\1* \2 = static_cast<\1*>(cuemu::dynamic_shared());", text)
        text = '#define CUEMU_DEVICE_CODE\n#line 1 "%s"\n' % src + text
        out = os.path.join(BUILD, "cu_%s_%s.cpp" % (os.path.basename(src)[:-3], hashlib.sha256(text.encode()).hexdigest()[:16]))
        if not os.path.exists(out):
            with open(out + ".%d.tmp" % os.getpid(), "w") as f:
                f.write(text)
            os.rename(out + ".%d.tmp" % os.getpid(), out)
        return out

    def build(self, parts):
        """parts: list of part dicts; returns list of binaries"""
        for attempt in (0, 1):
            try:
                return self._build(parts)
            except CompileError as e:
                if attempt == 0 and self.shim:
                    log("compile failed with the light header, retrying with the real one\n" + str(e)[:600])
                    self.shim = False
                    continue
                raise

    def _build(self, parts):
        jobs = {}   # key -> (src, flags, std, deps)
        need = []
        for p in parts:
            ocl = p.get("ocl_build", p.get("ocl", False))
            v = p.get("variant", "rel")
            keys = []
            subst = lambda l: [x.replace("@REPO@", REPO).replace("@QT@", QT) for x in l]
            pdefs, rdefs = subst(p.get("defs", [])), subst(p.get("repo_defs", []))

            def add(src, extra=(), std="gnu++11", deps=()):
                k = (src, v, ocl, tuple(extra))
                jobs.setdefault(k, (src, self.flags(v, ocl, extra), std, tuple(deps)))
                keys.append(k)
            cuda = CUDA_DEFS if p.get("cuda") else []
            ldefs = p.get("lib_defs", [])
            pdefs = pdefs + cuda + ldefs
            hsrc = os.path.join(VERIF, "harness", p["harness"] + ".cpp")
            hdeps = sorted(glob.glob(VERIF + "/harness/*.h"))
            if p.get("opt"):
                add(hsrc, ["-I" + VERIF + "/harness"] + pdefs + p["opt"], "gnu++17", hdeps)
            else:
                add(hsrc, ["-I" + VERIF + "/harness"] + pdefs, "gnu++17", hdeps)
            for s in p.get("repo_sources", []):
                add(os.path.join(REPO, s), rdefs)
            for hdr in p.get("moc", []):
                out = os.path.join(BUILD, "moc_%s_%s.cpp" % (os.path.basename(hdr)[:-2], self.hdr[:16]))
                r = sh(["/usr/lib/qt5/bin/moc", "-I" + REPO + "/player", "-I" + REPO + "/nbody", os.path.join(REPO, hdr), "-o", out + ".%d.tmp" % os.getpid()])
                if r.returncode != 0:
                    raise RuntimeError(r.stdout)
                os.rename(out + ".%d.tmp" % os.getpid(), out)
                add(out, rdefs)
            if not p.get("nolib"):
                for s in self.lib_sources(ocl):
                    with open(s, errors="replace") as f:
                        add(s, cuda if cuda and re.search(r"cuda|CUDA|nbody_engines\.h", f.read()) else ldefs)
                if cuda:
                    for s in sorted(glob.glob(REPO + "/nbody/*cuda*.cpp")):
                        add(s, cuda)
                    for s in sorted(glob.glob(REPO + "/nbody/*.cu")):
                        add(self.cu(s), cuda + ["-fsanitize=bounds", "-fsanitize-undefined-trap-on-error"])
                    add(VERIF + "/harness/cuda/cuemu.cpp", cuda)
                if ocl:
                    add(self.rcc())
            need.append(keys)
        objs = {}
        order = sorted(jobs, key=lambda k: -(os.path.getsize(k[0]) * (4 if k[0].startswith(VERIF + "/harness") else 1)))
        errs = []
        with concurrent.futures.ThreadPoolExecutor(max_workers=os.cpu_count() or 8) as ex:
            futs = {ex.submit(self.obj, *jobs[k]): k for k in order}
            for f in concurrent.futures.as_completed(futs):
                o, e = f.result()
                if e:
                    errs.append(e)
                objs[futs[f]] = o
        if errs:
            raise CompileError("\n".join(errs))
        bins = []

        def link(pk):
            p, keys = pk
            ol = [objs[k] for k in keys]
            h = hashlib.sha256((" ".join(ol) + str(p.get("libs"))).encode()).hexdigest()[:20]
            out = os.path.join(BUILD, "%s-%s-%s" % (p["harness"], p.get("variant", "rel"), h))
            if not os.path.exists(out):
                tmp = out + ".%d.%d.tmp" % (os.getpid(), threading.get_ident())
                cmd = ["g++"] + [f for f in self.flags(p.get("variant", "rel"), False) if f.startswith("-f") or f.startswith("-O")]
                cmd += ["-o", tmp] + ol + p.get("libs", []) + ["-lgomp"] + (["-lOpenCL"] if p.get("ocl_build", p.get("ocl")) else []) + \
                       ["-lQt5Gui", "-lQt5Core", "-lpthread", "-lquadmath", "-ldl"]
                r = sh(cmd)
                if r.returncode != 0:
                    raise CompileError(r.stdout[-4000:])
                os.rename(tmp, out)
            return out
        with concurrent.futures.ThreadPoolExecutor(max_workers=4) as ex:
            bins = list(ex.map(link, zip(parts, need)))
        return bins


class CompileError(Exception):
    pass


def part_env(p, scratch):
    e = dict(os.environ)
    e.update({"QT_QPA_PLATFORM": "offscreen", "OMP_WAIT_POLICY": "passive", "OMP_DYNAMIC": "false", "LC_ALL": "C",
              "QT_LOGGING_RULES": "*.debug=false", "HOME": scratch, "XDG_RUNTIME_DIR": scratch, "TMPDIR": scratch,
              "UBSAN_OPTIONS": "print_stacktrace=1:halt_on_error=1",
              "ASAN_OPTIONS": "detect_leaks=0:allocator_may_return_null=0:max_allocation_size_mb=2048:abort_on_error=0:exitcode=77"})
    e.pop("OMP_NUM_THREADS", None)
    e["OMP_NUM_THREADS"] = str(p.get("omp", 2))
    if p.get("ocl"):
        e["VERIF_OCL"] = "1"
    if p.get("cuda"):
        e["VERIF_CUDA"] = "1"
    for k, v in p.get("env", {}).items():
        e[k] = v.replace("@SCRATCH@", scratch).replace("@VERIF@", VERIF).replace("@REPO@", REPO)
    return e


def run_part(pid, p, binary, tier, seed, scratch, replay=None):
    os.makedirs(scratch, exist_ok=True)
    out = os.path.join(scratch, "stats.json")
    rdir = os.path.join(VERIF, "replay")
    os.makedirs(rdir, exist_ok=True)
    rfile = os.path.join(rdir, "%s-%s.txt" % (pid, p["harness"] + ("-" + p["variant"] if p.get("variant") else "")))
    prefix = ["oclgrind"] + p.get("ocl_args", []) if p.get("ocl") else []
    budget = p.get("thorough_budget", 300) if tier == "thorough" else p.get("budget", 25) * QUICK_DEPTH
    cmd = prefix + [binary, "--seed=%d" % seed, "--tier=" + tier, "--tmp=" + scratch, "--out=" + out, "--replay-out=" + rfile,
                    "--workers=%d" % p.get("workers", os.cpu_count() or 8), "--budget=%g" % budget]
    scale = p.get("scale", 1.0) * (1 if tier == "thorough" else QUICK_DEPTH) * float(os.environ.get("VERIF_SCALE", "1"))
    if scale != 1:
        cmd.append("--scale=%g" % scale)
    for o in p.get("only", []) + os.environ.get("VERIF_ONLY", "").split(","):
        if o:
            cmd.append("--only=" + o)
    if replay:
        cmd = prefix + [binary, "--tmp=" + scratch, "--replay=" + os.path.abspath(replay)]
    if not replay and os.path.exists(rfile):
        os.unlink(rfile)
    env = part_env(p, scratch)
    env["VERIF_BIN"] = binary
    pr = subprocess.Popen(cmd, env=env, cwd=scratch, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace",
                          start_new_session=True)
    try:
        text, _ = pr.communicate(timeout=budget + (700 if tier == "thorough" else 300))
    except subprocess.TimeoutExpired:
        text = ""
        log("part", p["harness"], "exceeded its hard time limit")
    finally:
        try:
            os.killpg(pr.pid, signal.SIGKILL)
        except ProcessLookupError:
            pass
        pr.wait()
    stats = {}
    if os.path.exists(out):
        with open(out) as f:
            try:
                stats = json.load(f)
            except ValueError as e:
                log("bad statistics", e)
    fails = [l for l in text.splitlines() if l.startswith("FAIL ")]
    info = [l for l in text.splitlines() if l.startswith("[pbt]")]
    for l in info:
        print(l, file=sys.stderr)
    if pr.returncode not in (0, 1):
        print(text[-3000:], file=sys.stderr)
    elif pr.returncode == 1:
        print(text[-2500:], file=sys.stderr)
    return {"rc": pr.returncode, "stats": stats, "fails": fails, "replay": rfile, "text": text, "part": p}


def known_findings(pid):
    res = []
    fn = os.path.join(VERIF, "known_findings.json")
    if os.path.exists(fn):
        with open(fn) as f:
            for k in json.load(f).get("findings", []):
                if k["property"] == pid and k.get("status") == "known":
                    res.append(k)
    return res


def main():
    args = sys.argv[1:]
    if args and args[0] == "--build-only":
        b = Builder()
        t = time.time()
        parts = [p for c in CHECKS.values() for p in c["parts"]]
        b.build(parts)
        log("built %d harnesses in %.1f s" % (len(parts), time.time() - t))
        return 0
    pid = args[0]
    c = CHECKS[pid]
    tier = os.environ.get("VERIF_TIER", "quick")
    for a in args[1:]:
        if a in ("quick", "thorough"):
            tier = a
    if tier not in ("quick", "thorough"):
        tier = "quick"
    try:
        seed = int(os.environ.get("VERIF_SEED", "1"))
    except ValueError:
        seed = 1
    replay = None
    if "--replay" in args:
        replay = args[args.index("--replay") + 1]
    t0 = time.time()
    b = Builder()
    parts = c["parts"]
    if replay:
        with open(replay) as f:
            pn = f.readline().split(None, 1)[1].strip()
        base = os.path.basename(replay)
        sel = [p for p in parts if base.startswith("%s-%s" % (pid, p["harness"] + ("-" + p["variant"] if p.get("variant") else "")))]
        parts = sel[-1:] or parts
        log("replaying", pn)
    bins = b.build(parts)
    t_build = time.time() - t0
    log("%s build %.1f s" % (pid, t_build))
    root = tempfile.mkdtemp(prefix="verif-%s-" % pid, dir="/dev/shm" if os.access("/dev/shm", os.W_OK) and not c.get("disk") else None)
    os.chmod(root, 0o755)
    results = []
    try:
        if c.get("parallel") and not replay:
            with concurrent.futures.ThreadPoolExecutor(max_workers=len(parts)) as ex:
                fs = [ex.submit(run_part, pid, p, bn, tier, seed, os.path.join(root, "p%d" % i)) for i, (p, bn) in enumerate(zip(parts, bins))]
                results = [f.result() for f in fs]
        else:
            for i, (p, bn) in enumerate(zip(parts, bins)):
                r = run_part(pid, p, bn, tier, seed, os.path.join(root, "p%d" % i), replay)
                results.append(r)
                if r["rc"] == 1:
                    break
    finally:
        shutil.rmtree(root, ignore_errors=True)
    if replay:
        for r in results:
            print(r["text"])
        return max(r["rc"] for r in results)
    violations = [r for r in results if r["rc"] == 1]
    errors = [r for r in results if r["rc"] not in (0, 1)]
    ev = sum(r["stats"].get("evaluations", 0) for r in results)
    dn = sum(r["stats"].get("distinct_nontrivial", 0) for r in results)
    labels, cases, samples = {}, {}, []
    for r in results:
        for k, v in r["stats"].get("labels", {}).items():
            labels[k] = labels.get(k, 0) + v
        for k, v in r["stats"].get("cases", {}).items():
            cases[k] = cases.get(k, 0) + v
        samples += r["stats"].get("samples", [])
    evidence = {
        "property": pid, "tier": tier, "seed": seed, "level": c.get("level", "exploration"),
        "coverage": {"evaluations": ev, "distinct_nontrivial": dn, "rule": c["rule"], "samples": samples[:12] or ["(none)"],
                     "cases_per_generator": cases, "labels": labels,
                     "discarded": sum(r["stats"].get("discarded", 0) for r in results),
                     "cut_by_time": any(r["stats"].get("cut_by_time") for r in results),
                     "not_reproduced": sum(r["stats"].get("not_reproduced", 0) for r in results)},
        "assumptions": c.get("assumptions", []), "wall_s": round(time.time() - t0, 2), "violations": len(violations),
        "build_s": round(t_build, 2),
    }
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    fn = os.path.join(VERIF, "evidence", pid + ".json")
    with open(fn + ".tmp", "w") as f:
        json.dump(evidence, f, indent=1)
        f.write("\n")
    os.rename(fn + ".tmp", fn)
    for k in known_findings(pid):
        if k.get("label") and not any(l.endswith(k["label"]) for l in labels):
            continue   # not met in this run
        print("KNOWN-FINDING: property=%s %s" % (pid, k["what"]))
    if violations:
        for r in violations:
            for l in r["fails"]:
                print(l)
            print("VIOLATION property=%s replay=%s" % (pid, r["replay"]))
        return 1
    if errors:
        log("check error", [r["rc"] for r in errors])
        return 2
    print("OK property=%s tier=%s seed=%d evaluations=%d nontrivial=%d wall=%.1fs" % (pid, tier, seed, ev, dn, time.time() - t0))
    return 0


if __name__ == "__main__":
    sys.exit(main())
