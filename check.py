#!/usr/bin/env python3
"""Decides one property by symbolic execution of /repo's current source.

  check.py <property-id>        (VERIF_TIER=quick|thorough, VERIF_SEED=n)
  check.py --replay <file>      re-run one counterexample against the real code

Exit 0: the property held on everything explored.  Exit 1 with a line
"VIOLATION property=<id> replay=<path>": a solver counterexample was found and
reproduced against the natively compiled real code.
"""
import concurrent.futures as cf
import glob, hashlib, json, os, re, resource, shutil, subprocess, sys, time

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
B = os.path.join(HERE, ".build")
VK = os.path.join(B, "vk")
CLANG = "clang++-18" if shutil.which("clang++-18") else "clang++"
LLVM = "/usr/lib/llvm-18/bin"
sys.path.insert(0, HERE)
import props  # noqa: E402

DEFS = ["-DFDUMP_DEFINE", "-DRTP_DEFINE", "-DFPRINT_ERRORS"]
SYM_SAN = "shift,signed-integer-overflow,integer-divide-by-zero,array-bounds,bool,enum,float-cast-overflow,return,unreachable"
NJ = 8


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


class Build:
    """bitcode + native replay binary from REPO's working tree, for one harness file set"""

    def __init__(self, work, files, wrap=(), defs=None):
        self.w, self.files = work, files
        self.wrap, self.defs = wrap, DEFS if defs is None else defs
        os.makedirs(work, exist_ok=True)
        ver = "0"
        m = re.search(r"VERSION\s+([\d.]+)", open(REPO + "/CMakeLists.txt").read().split("project(")[-1])
        if m:
            ver = m.group(1)
        cfg = open(REPO + "/src/config.h.in").read() if os.path.exists(REPO + "/src/config.h.in") else ""
        cfg = re.sub(r"@PROJECT_VERSION@|\$\{PROJECT_VERSION\}", ver, cfg)
        open(work + "/config.h", "w").write(re.sub(r"@\w+@", ver, cfg))
        self.inc = ["-I" + REPO + "/include", "-I" + REPO + "/src", "-I" + work, "-I" + HERE + "/harness", "-I" + REPO]

    def run(self):
        srcs = sorted(glob.glob(REPO + "/src/*.cc"))
        hs = [HERE + "/harness/" + f for f in self.files]
        jobs = []
        self.bcs, objs = [], []
        ubs = ["-fsanitize=" + SYM_SAN, "-fsanitize-trap=all"]
        for i, f in enumerate(srcs + hs + [HERE + "/rt/symrt.cpp"]):
            o = "%s/%d_%s.bc" % (self.w, i, os.path.basename(f))
            san = ubs if f in srcs else []
            jobs.append([CLANG, "-std=c++14", "-O1", "-Xclang", "-disable-llvm-passes", "-gline-tables-only", "-emit-llvm", "-c", f, "-o", o,
                         "-fno-exceptions", "-D_GLIBCXX_EXTERN_TEMPLATE=0", "-U_FORTIFY_SOURCE", "-DVK_SYM", "-w"] + san + self.defs + self.inc)
            self.bcs.append(o)
        for i, f in enumerate(srcs + hs + [HERE + "/rt/native.cpp"]):
            o = "%s/%d_%s.o" % (self.w, i, os.path.basename(f))
            jobs.append([CLANG, "-std=c++14", "-O1", "-g1", "-c", f, "-o", o, "-fsanitize=address,undefined", "-fno-sanitize-recover=all",
                         "-fno-omit-frame-pointer", "-ftrivial-auto-var-init=pattern", "-w"] + self.defs + self.inc)
            objs.append(o)
        # the big files first
        jobs.sort(key=lambda j: -os.path.getsize([x for x in j if x.startswith("/") and (x.endswith(".cc") or x.endswith(".cpp"))][0]))
        # a harness written against a declaration the tree no longer has is left out and reported as undecided; the rest still decides
        self.left_out = {}
        with cf.ThreadPoolExecutor(NJ) as ex:
            for j, r in zip(jobs, ex.map(sh, jobs)):
                if r.returncode:
                    src = [x for x in j if x in hs]
                    if not src:
                        raise RuntimeError("compile failed: " + r.stdout[-3000:])
                    self.left_out[os.path.basename(src[0])] = r.stdout[-800:]
        if self.left_out:
            gone = lambda o: any(o.endswith("_" + f + e) for f in self.left_out for e in (".bc", ".o"))
            for f in [o for o in self.bcs + objs if gone(o) and os.path.exists(o)]:
                os.unlink(f)
            self.bcs = [o for o in self.bcs if not gone(o)]
            objs = [o for o in objs if not gone(o)]
        link = sh([LLVM + "/llvm-link", "-o", self.w + "/all.bc"] + self.bcs)
        if link.returncode:
            raise RuntimeError("llvm-link: " + link.stdout[-2000:])
        self.native = self.w + "/replay"

        def opt():
            r = sh([VK, "--opt", self.w + "/all.bc", self.w + "/prog.bc"])
            if r.returncode:
                raise RuntimeError("opt: " + r.stdout[-2000:])

        def nat():
            r = sh([CLANG, "-fsanitize=address,undefined", "-rdynamic", "-o", self.native] + objs + ["-Wl,--wrap=" + x for x in self.wrap] + ["-ldl"])
            if r.returncode:
                raise RuntimeError("link: " + r.stdout[-2000:])
        with cf.ThreadPoolExecutor(2) as ex:
            for f in [ex.submit(opt), ex.submit(nat)]:
                f.result()
        self.bc = self.w + "/prog.bc"
        for f in self.bcs + objs:
            os.unlink(f)
        os.unlink(self.w + "/all.bc")


def replay(native, path, leak=False, timeout=20, fills=("190", "0", "255")):
    """returns (code, text): 0 ok, 77 not applicable, anything else: the real code misbehaves"""
    last = (0, "")
    for fill in fills:
        env = dict(os.environ, ASAN_OPTIONS="detect_leaks=0:abort_on_error=0:exitcode=88:max_malloc_fill_size=1048576:malloc_fill_byte=%s:allocator_may_return_null=0:max_allocation_size_mb=1024" % fill,
                   UBSAN_OPTIONS="halt_on_error=1:exitcode=89:print_stacktrace=1")
        if leak:
            env["VK_LEAK"] = "1"
        try:
            r = subprocess.run([native, path], stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, env=env, timeout=timeout)
            last = (r.returncode, r.stderr.decode("utf8", "replace"))
        except subprocess.TimeoutExpired:
            last = (124, "REPLAY: no termination within %d s" % timeout)
        if last[0] not in (0, 77):
            return last
    return last


def limit():
    resource.setrlimit(resource.RLIMIT_AS, (7 << 30, 7 << 30))


def main():
    if len(sys.argv) > 2 and sys.argv[1] == "--replay":
        return do_replay(sys.argv[2])
    pid = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if len(sys.argv) > 2 and sys.argv[2] in ("quick", "thorough"):
        tier = sys.argv[2]
    seed = int(os.environ.get("VERIF_SEED", "1"))
    keep = os.environ.get("VERIF_KEEP")
    P = props.PROPS[pid]
    t0 = time.time()
    if P["py"]:
        return run_py(pid, P, tier, seed, t0)
    work = "%s/work_%s_%d" % (B, pid, os.getpid())
    outdir = work + "/out"
    shutil.rmtree(work, ignore_errors=True)
    os.makedirs(outdir)
    eng = [HERE + "/engine/" + f for f in os.listdir(HERE + "/engine")]
    if not os.path.exists(VK) or max(os.path.getmtime(f) for f in eng) > os.path.getmtime(VK):
        subprocess.run(["bash", HERE + "/engine/build.sh"], check=True)
    try:
        return run(pid, P, tier, seed, work, outdir, t0)
    finally:
        if not keep:
            shutil.rmtree(work, ignore_errors=True)


def run(pid, P, tier, seed, work, outdir, t0):
    bld = Build(work, P["files"], P["wrap"], P["defs"])
    bld.run()
    t_build = time.time() - t0
    jobs = []
    results, problems, errs = [], [], []
    gone = set()
    for f, why in bld.left_out.items():
        errs.append("%s does not compile against this tree, its harnesses are undecided: %s" % (f, why))
        gone |= set(re.findall(r"\b(\w+)\s*\(", open(HERE + "/harness/" + f).read()))
    only = os.environ.get("VERIF_ONLY")
    for R in P["runs"]:
        if only and not re.search(only, R["h"]):
            continue
        if R["h"] in gone:
            continue
        R = dict(R)
        if tier == "thorough":
            R.update(R.get("thorough", {}))
            R["time"] = R["time"] if "time" in R.get("thorough", {}) else R.get("time", 40) * 8
        elif R.get("tier") == "thorough":
            continue
        n = R.get("shards", 1)
        for k in range(n):
            cmd = [VK, "--run", bld.bc, "--harness", R["h"], "--out", outdir, "--time", str(R.get("time", 40)), "--shard", "%d/%d" % (k, n),
                   "--seed", str(seed), "--witness", str(R.get("witness", 24))] + [str(x) for x in R.get("opts", [])] + (["--leak"] if R.get("leak") else [])
            jobs.append((R, k, cmd))
    jobs.sort(key=lambda j: -j[0].get("time", 40))
    procs = []

    def go(job):
        R, k, cmd = job
        try:
            r = sh(cmd, timeout=R.get("time", 40) + 60, preexec_fn=limit)
            return job, r.returncode, r.stdout
        except subprocess.TimeoutExpired:
            return job, 124, "engine timeout"
    with cf.ThreadPoolExecutor(NJ) as ex:
        for job, rc, out in ex.map(go, jobs):
            f = "%s/res_%s_%d.json" % (outdir, job[0]["h"], job[1])
            if rc != 0 or not os.path.exists(f):
                errs.append("%s shard %d: engine exit %d: %s" % (job[0]["h"], job[1], rc, out[-300:]))
                continue
            try:
                d = json.loads(open(f).read())
            except ValueError as e:
                errs.append("%s shard %d: %s" % (job[0]["h"], job[1], e))
                continue
            d["run"] = job[0]
            results.append(d)
    t_sym = time.time() - t0 - t_build
    leakby = {R["h"]: R.get("leak", False) for R in P["runs"]}
    # ---- failures: replay on the real code, report only what reproduces
    tasks, seen = [], {}
    for d in results:
        for fl in d["failures"]:
            key = (d["harness"], fl["kind"], fl["msg"])
            seen[key] = seen.get(key, 0) + 1
            if seen[key] <= 6:
                tasks.append((d["harness"], fl["kind"], fl["msg"], fl["where"], fl["replay"]))
    wits = sorted(glob.glob(outdir + "/wit_*.txt"))
    viol, unrepro = [], []
    with cf.ThreadPoolExecutor(NJ) as ex:
        rs = list(ex.map(lambda t: replay(bld.native, t[4], leakby.get(t[0], False)), tasks))
        ws = list(ex.map(lambda w: replay(bld.native, w, fills=("190",)), wits))
    for t, (rc, txt) in zip(tasks, rs):
        (unrepro if rc in (0, 77) else viol).append((t, rc, txt))
    wit_ok = wit_na = 0
    for w, (rc, txt) in zip(wits, ws):
        if rc == 0:
            wit_ok += 1
        elif rc == 77:
            wit_na += 1
        else:
            h = open(w).readline().split()[1]
            viol.append(((h, "translation", "symbolic run passed this input, native run fails", "", w), rc, txt))
    # ---- known findings
    known = load_known(pid)
    new, kf = [], {}
    for v in viol:
        k = match_known(known, v)
        if k:
            kf.setdefault(k["id"], (k, v))
        else:
            new.append(v)
    rdir = "%s/replays/%s" % (B, pid)
    shutil.rmtree(rdir, ignore_errors=True)
    lines = []
    rep = {}
    for (h, kind, msg, where, path), rc, txt in new:
        key = (h, kind, msg)
        if key in rep:
            continue
        rep[key] = 1
        os.makedirs(rdir, exist_ok=True)
        dst = "%s/%s" % (rdir, os.path.basename(path))
        shutil.copy(path, dst)
        open(dst, "a").write("# property %s\n# files %s\n# harness %s\n# %s: %s\n# at %s\n# native exit %d\n" % (pid, " ".join(P["files"]), h, kind, msg, where, rc) + "".join("# " + l + "\n" for l in txt.splitlines()[:40]))
        print("  counterexample: %s: %s [%s] %s" % (h, msg, kind, where[:200]))
        for l in txt.splitlines()[:6]:
            print("      " + l)
        lines.append("VIOLATION property=%s replay=%s" % (pid, dst))
    for k, v in kf.values():
        print("KNOWN-FINDING: property=%s %s" % (pid, k["what"]))
    # ---- vacuity: every label a harness declares must have been reached
    reached, asserted, fns, drops = {}, {}, set(), {}
    tot = dict(paths=0, instructions=0, queries=0, cache_hits=0, sat=0, unsat=0, unknown=0, solver_s=0.0, asserts=0, assert_queries=0, dropped=0, forks=0)
    for d in results:
        for k in tot:
            tot[k] += d[k]
        reached.setdefault(d["harness"], set()).update(d["reached"])
        for k, n in d["asserted"].items():
            asserted[k] = asserted.get(k, 0) + n
        fns.update(d["functions"])
        for k, n in d["drop_reasons"].items():
            drops[d["harness"] + ": " + k] = drops.get(d["harness"] + ": " + k, 0) + n
    vac = ["%s/%s" % (R["h"], l) for R in P["runs"] for l in R.get("reach", []) if R["h"] in reached and l not in reached[R["h"]]]
    samples = []
    for w in wits[:3]:
        samples.append(open(w).read()[:600])
    cov = {
        "evaluations": tot["paths"], "distinct_nontrivial": tot["paths"] - tot["dropped"] if tot["paths"] > tot["dropped"] else tot["paths"],
        "rule": "one evaluation = one feasible symbolic path of the real code through a harness (a path stands for every input satisfying its path condition, and differs from every other path in at least one branch decision); non-trivial = ran to its end without being cut by a bound",
        "samples": samples or ["none"],
        "explanation": P.get("claim", ""),
        "bounds": P.get("bounds", []),
        "functions_encoded": sorted(x.split("(")[0] for x in fns), "functions_encoded_count": len(fns),
        "harnesses": sorted({d["harness"] for d in results}),
        "assertions_decided": asserted, "assertion_instances": tot["asserts"], "assertion_queries": tot["assert_queries"],
        "solver": {"name": "z3", "queries": tot["queries"], "cache_hits": tot["cache_hits"], "sat": tot["sat"], "unsat": tot["unsat"], "unknown": tot["unknown"], "time_s": round(tot["solver_s"], 2)},
        "instructions_executed": tot["instructions"], "forks": tot["forks"],
        "cut_or_undecided": drops, "exhaustive": not drops and not errs,
        "vacuity": {"labels_reached": {k: sorted(v) for k, v in reached.items()}, "labels_missed": vac},
        "translation_validation": {"witness_inputs_replayed_natively": len(wits), "agree": wit_ok, "not_applicable": wit_na},
        "not_reproduced": [{"harness": t[0], "kind": t[1], "msg": t[2], "where": t[3]} for t, rc, txt in unrepro][:20],
        "engine_errors": errs, "time_build_s": round(t_build, 1), "time_symbolic_s": round(t_sym, 1),
    }
    ev = {"property": pid, "tier": tier, "seed": seed, "level": P.get("level", "other"), "coverage": cov,
          "assumptions": P.get("assumptions", []) + props.COMMON_ASSUMPTIONS, "wall_s": round(time.time() - t0, 2), "violations": len(lines)}
    os.makedirs(HERE + "/evidence", exist_ok=True)
    json.dump(ev, open("%s/evidence/%s.json" % (HERE, pid), "w"), indent=1)
    print("%s [%s]: %d paths, %d instructions, %d queries (%.1fs solver, %d unknown), %d asserts, %d cut, %d/%d witnesses agree, %d unreproduced, %.1fs" % (
        pid, tier, tot["paths"], tot["instructions"], tot["queries"], tot["solver_s"], tot["unknown"], tot["asserts"], tot["dropped"], wit_ok, len(wits), len(unrepro), time.time() - t0))
    if os.environ.get("VERIF_VERBOSE"):
        print("  drops:", json.dumps(drops, indent=1))
        for t, rc, txt in unrepro[:10]:
            print("  unreproduced:", t[:4], rc, txt[:300])
        for d in results:
            print("  ", d["harness"], d["shard"], "paths", d["paths"], "wall", round(d["wall_s"], 1), "solver", round(d["solver_s"], 1), "dropped", d["dropped"], "samples", d["samples"], "fails", len(d["failures"]))
    if errs:
        print("  engine problems:", errs[:4])
    if not results:
        print("UNDECIDED property=%s: no harness could be run" % pid)
        return 2
    if vac:
        print("  labels not reached:", vac)
    for l in lines:
        print(l)
    return 1 if lines else 0


def run_py(pid, P, tier, seed, t0):
    """Python scripts: CrossHair executes the functions symbolically (z3); counterexamples are replayed on the plain interpreter"""
    work = "%s/work_%s_%d" % (B, pid, os.getpid())
    shutil.rmtree(work, ignore_errors=True)
    os.makedirs(work)
    env = dict(os.environ, VERIF_REPO=REPO, PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0", PYTHONPATH="")
    vt = shutil.which("python3-vt") or "/opt/veriftools/pyvenv/bin/python3"
    only = os.environ.get("VERIF_ONLY")
    runs = []
    for R in P["runs"]:
        if only and not re.search(only, R["h"]):
            continue
        if tier != "thorough" and R.get("tier") == "thorough":
            continue
        n = R.get("shards", 1)
        for k in range(n):
            runs.append(dict(R, time=R.get("time", 120) * (4 if tier == "thorough" else 1), shard="%d/%d" % (k, n), id="%s_%d" % (R["h"], k)))
    runs.sort(key=lambda r: -r.get("time", 0))
    mod = P["py"]

    def go(R):
        out = "%s/%s.json" % (work, R["id"])
        try:
            r = sh([vt, HERE + "/py/driver.py", mod, R["h"], out, str(R["time"])], timeout=R["time"] + 60, env=dict(env, VERIF_SHARD=R["shard"]), cwd=work, preexec_fn=limit)
        except subprocess.TimeoutExpired:
            return R, None, "timeout"
        if r.returncode or not os.path.exists(out):
            return R, None, r.stdout[-800:]
        return R, json.load(open(out)), ""

    def rep(call):
        try:
            r = sh(["python3", HERE + "/py/replay.py", mod, call], env=env, cwd=work, timeout=60)
            return r.returncode, r.stdout[-600:]
        except subprocess.TimeoutExpired:
            return 124, "no termination within 60 s"
    try:
        # the harness module must load at all: a script that cannot be imported is an error of the script
        with cf.ThreadPoolExecutor(NJ) as ex:
            results = list(ex.map(go, runs))
        errs, viol, unrepro, cut = [], [], [], {}
        tot = dict(paths=0, queries=0, solver=0.0)
        confirmed = []
        for R, d, e in results:
            if d is None:
                errs.append("%s: %s" % (R["id"], e))
                d = {"calls": [], "states": ["TIMEOUT"], "paths": 0, "queries": 0, "solver_s": 0.0, "messages": []}
            tot["paths"] += d["paths"]
            tot["queries"] += d["queries"]
            tot["solver"] += d["solver_s"]
            if d["states"] == ["CONFIRMED"]:
                confirmed.append(R["id"])
            bad = False
            for c in d["calls"]:
                rc, txt = rep(c)
                bad = True
                (viol if rc not in (0, 3) else unrepro).append((R["h"], c, rc, txt))
            if not bad and d["states"] != ["CONFIRMED"]:
                cut[R["id"]] = (d["states"], d["messages"])
        # a function-level harness that fails on every input, while the script as a whole is right, met a changed interface
        src = open("%s/py/%s.py" % (HERE, mod)).read()
        ns = {}
        exec(src[src.index("\nTRIVIAL ="):], ns)
        for h in sorted(set(v[0] for v in viol) & set(ns["TRIVIAL"])):
            if not any(v[0] in ns["WHOLE"] for v in viol) and all(rep(c)[0] != 0 for c in ns["TRIVIAL"][h]):
                unrepro += [v for v in viol if v[0] == h]
                viol = [v for v in viol if v[0] != h]
        known = load_known(pid)
        rdir = "%s/replays/%s" % (B, pid)
        shutil.rmtree(rdir, ignore_errors=True)
        lines = []
        done = set()
        for h, c, rc, txt in viol:
            if h in done:
                continue
            done.add(h)
            k = [x for x in known if x["harness"] == h and re.search(x["msg"], c)]
            if k:
                print("KNOWN-FINDING: property=%s %s" % (pid, k[0]["what"]))
                continue
            os.makedirs(rdir, exist_ok=True)
            dst = "%s/%s.txt" % (rdir, h)
            open(dst, "w").write("# property %s\ncall %s\n" % (pid, c) + "".join("# " + l + "\n" for l in txt.splitlines()))
            print("  counterexample: %s\n      %s" % (c, txt.strip()[-300:]))
            lines.append("VIOLATION property=%s replay=%s" % (pid, dst))
        cov = {"evaluations": tot["paths"], "distinct_nontrivial": tot["paths"],
               "rule": "one evaluation = one feasible symbolic path of the script's functions under a harness; paths differ in at least one branch decision",
               "samples": ["%s: %s" % (R["h"], (d or {}).get("messages")) for R, d, e in results][:3], "explanation": P["claim"], "bounds": P["bounds"],
               "functions_encoded": P["obs"], "functions_encoded_count": len(P["obs"]), "harnesses": sorted({R["h"] for R in runs}), "confirmed_over_all_paths": confirmed,
               "solver": {"name": "z3 (CrossHair)", "queries": tot["queries"], "time_s": round(tot["solver"], 2)}, "cut_or_undecided": {k: str(v) for k, v in cut.items()},
               "exhaustive": not cut and not errs, "not_reproduced": [list(x) for x in unrepro], "engine_errors": errs}
        ev = {"property": pid, "tier": tier, "seed": seed, "level": P["level"], "coverage": cov, "assumptions": P["assumptions"], "wall_s": round(time.time() - t0, 2), "violations": len(lines)}
        os.makedirs(HERE + "/evidence", exist_ok=True)
        json.dump(ev, open("%s/evidence/%s.json" % (HERE, pid), "w"), indent=1)
        print("%s [%s]: %d paths, %d queries (%.1fs solver), %d of %d confirmed over all paths, %d unreproduced, %.1fs" % (pid, tier, tot["paths"], tot["queries"], tot["solver"], len(confirmed), len(runs), len(unrepro), time.time() - t0))
        if cut or errs:
            print("  undecided:", cut, errs)
        for l in lines:
            print(l)
        return 1 if lines else 0
    finally:
        shutil.rmtree(work, ignore_errors=True)


def load_known(pid):
    f = HERE + "/known_findings.txt"
    out = []
    if os.path.exists(f):
        for l in open(f):
            l = l.strip()
            if l.startswith("{"):
                d = json.loads(l)
                if d.get("property") == pid and d.get("status") == "known":
                    out.append(d)
    return out


def match_known(known, v):
    (h, kind, msg, where, path), rc, txt = v
    for k in known:
        if k["harness"] == h and k["kind"] == kind and re.search(k["msg"], msg) and re.search(k.get("native", ""), txt):
            return k
    return None


def do_replay(path):
    P = None
    for l in open(path):
        if l.startswith("# property "):
            P = props.PROPS[l.split()[2]]
    if P["py"]:
        c = [l[5:].strip() for l in open(path) if l.startswith("call ")][0]
        r = sh(["python3", HERE + "/py/replay.py", P["py"], c], env=dict(os.environ, VERIF_REPO=REPO, PYTHONDONTWRITEBYTECODE="1"))
        print(r.stdout)
        return r.returncode
    work = "%s/work_replay_%d" % (B, os.getpid())
    try:
        b = Build(work, P["files"], P["wrap"], P["defs"])
        b.run()
        rc, txt = replay(b.native, os.path.abspath(path))
        print(txt)
        print("native exit", rc)
        return 0 if rc in (0, 77) else 1
    finally:
        shutil.rmtree(work, ignore_errors=True)


if __name__ == "__main__":
    sys.exit(main())
