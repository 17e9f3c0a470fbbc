"""Runs the jobs of one property: build IR, execute symbolically, replay counterexamples, write evidence."""
import concurrent.futures as cf
import json, os, re, shutil, subprocess, sys, tempfile, threading, time
import build
from build import VERIF, BUILD, REPO, Config

MPIENV = {"OMPI_ALLOW_RUN_AS_ROOT": "1", "OMPI_ALLOW_RUN_AS_ROOT_CONFIRM": "1", "OMPI_MCA_plm": "isolated", "OMPI_MCA_pml": "ob1",
          "OMPI_MCA_btl": "self,vader", "OMPI_MCA_btl_vader_single_copy_mechanism": "none", "OMPI_MCA_rmaps_base_oversubscribe": "1",
          "OMPI_MCA_hwloc_base_binding_policy": "none", "OMPI_MCA_mpi_yield_when_idle": "1", "OMP_NUM_THREADS": "3",
          "ASAN_OPTIONS": "detect_leaks=0", "MALLOC_PERTURB_": "165"}
ENGINE_ONLY = {"mpi-buffer", "mpi-collective", "mpi-usage", "mpi-truncate", "omp-race", "deadlock"}


class Job:
    """one symbolic execution: a harness, a configuration, a number of ranks"""

    def __init__(self, src, ndim=2, target="vanilla", ranks=1, mode="real", tier="quick", reach=("end",), params=None, defs=(), hilapp=True,
                 lib=True, t=300, timeout=20000, viol=3, threads=3, paths=None, extra=(), bounds="", args=(), native=True, steps=None, only=(), eng=()):
        self.src, self.ndim, self.target, self.ranks, self.mode, self.tier = src, ndim, target, ranks, mode, tier
        self.reach, self.params, self.defs, self.hilapp, self.lib = tuple(reach), dict(params or {}), tuple(defs), hilapp, lib
        self.t, self.timeout, self.viol, self.threads, self.paths, self.extra = t, timeout, viol, threads, paths, tuple(extra)
        self.bounds, self.args, self.native, self.steps, self.eng = bounds, tuple(args), native, steps, tuple(eng)
        self.cfg = Config(ndim, target, ())

    def name(self):
        p = ",".join("%s=%s" % kv for kv in sorted(self.params.items()))
        return "%s[%s,%d rank%s%s%s]" % (self.src, self.cfg.key, self.ranks, "s" if self.ranks > 1 else "", ",ieee" if self.mode == "ieee" else "", "," + p if p else "")

    def xdefs(self):
        return ["-D" + d for d in self.defs] + list(self.extra)

    def path(self):
        return VERIF + "/harness/" + self.src + ".cpp"


def hsym_cmd(job, prog, out, model=None):
    c = [build.hsym(), "-n", str(job.ranks), "-o", out, "-t", str(job.t), "--timeout", str(job.timeout), "--viol", str(job.viol), "--threads", str(job.threads)]
    if job.mode == "ieee":
        c.append("--ieee")
    c += job.eng
    if job.paths:
        c += ["--paths", str(job.paths)]
    if job.steps:
        c += ["--steps", str(job.steps)]
    for k, v in job.params.items():
        c += ["-D", "%s=%s" % (k, v)]
    for a in job.args:
        c += ["--arg", a]
    if model:
        c += ["--model", model]
    return c + [prog]


def run_job(job, libpool, work):
    t0 = time.time()
    r = {"job": job.name(), "bounds": job.bounds}
    try:
        prog = build.harness_ir(job.path(), job.cfg, libpool, job.hilapp, job.lib, job.xdefs())
        r["build_s"] = round(time.time() - t0, 2)
        out = work + "/" + re.sub(r"\W+", "_", job.name())[:150] + ".json"
        p = subprocess.run(hsym_cmd(job, prog, out), stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=job.t + 60)
        r["rc"] = p.returncode
        if not os.path.exists(out):
            r["error"] = "engine produced no result (rc %d): %s" % (p.returncode, p.stderr.decode(errors="replace")[-500:])
        else:
            r["res"] = json.load(open(out))
            r["prog"] = prog
    except subprocess.TimeoutExpired:
        r["error"] = "engine timed out"
    except build.BuildError as e:
        r["error"] = "build: " + str(e)
    r["wall"] = round(time.time() - t0, 2)
    return r


def write_model(job, v, path):
    with open(path, "w") as f:
        for k, x in job.params.items():
            f.write("p %s 0 %s\n" % (k, x))
        for n, i, x in v["model"]:
            f.write("v %s %d %s\n" % (n, i, x))


def native_lib(cfg, asan, pool):
    def f():
        import hashlib
        key = hashlib.sha256((build.lib_hash() + os.path.basename(build.hilapp()) + cfg.key + str(asan)).encode()).hexdigest()[:20]
        d = BUILD + "/nlib/" + key
        out = d + "/lib.a"
        if os.path.exists(out):
            return out
        with build.Lock("nlib-" + key):
            if os.path.exists(out):
                return out
            os.makedirs(d, exist_ok=True)

            def one(l):
                s = REPO + "/libraries/" + l + ".cpp"
                cpt = d + "/" + os.path.basename(l) + ".cpt"
                o = cpt[:-4] + ".o"
                if l.endswith("extended"):
                    cpt = s
                else:
                    build.transform(s, cfg, cpt)
                build.sh(native_cc(cfg, asan) + ["-I" + os.path.dirname(s), "-c", cpt, "-o", o], what="native compile")
                return o
            objs = list(pool.map(one, cfg.libs()))
            if os.path.exists(out):
                os.unlink(out)
            build.sh(["ar", "rcs", out] + objs, what="ar")
            build.prune(BUILD + "/nlib", key, 4)
        return out
    return build.memo("nlib%s%s" % (cfg.key, asan), f)


def native_cc(cfg, asan):
    return ["g++" if cfg.target == "openmp" else "clang++-18", "-x", "c++", "-std=c++17", "-O1", "-ffp-contract=off", "-g", "-w"] + (["-fsanitize=address", "-fno-omit-frame-pointer"] if asan else []) + \
        ["-DGIT_SHA_VALUE=local"] + cfg.cc_opts() + cfg.includes() + build.MPIINC


def native_prog(job, asan, pool, outdir):
    exe = outdir + "/native" + ("-asan" if asan else "")
    if os.path.exists(exe):
        return exe
    inc = ["-I" + VERIF + "/rt", "-I" + VERIF + "/harness"] + job.xdefs()
    src = job.path()
    if job.hilapp:
        cpt = outdir + "/" + job.src.replace("/", "_") + ".cpt"
        build.transform(src, job.cfg, cpt, inc)
        src = cpt
    o = outdir + "/h.o"
    build.sh(native_cc(job.cfg, asan) + inc + ["-c", src, "-o", o], what="native compile")
    n = outdir + "/hs_native.o"
    build.sh(native_cc(job.cfg, asan) + inc + ["-c", VERIF + "/rt/native/hs_native.cpp", "-o", n] + ([] if job.lib else ["-DHS_NO_MPI"]), what="native compile")
    link = ["g++" if job.target == "openmp" else "clang++-18", "-o", exe, o, n] + (["-fsanitize=address"] if asan else []) + (["-fopenmp"] if job.target == "openmp" else [])
    if job.lib:
        link += [native_lib(job.cfg, asan, pool), "-L/usr/lib/x86_64-linux-gnu/openmpi/lib", "-lmpi", "-lfftw3", "-lfftw3f"]
    build.sh(link + ["-lm", "-lpthread"], what="link")
    return exe


def native_run(job, exe, model, cwd, timeout=60):
    env = dict(os.environ)
    env.update(MPIENV)
    env["HS_MODEL"] = model
    cmd = [exe] if job.ranks == 1 and not job.lib else ["mpirun", "--oversubscribe", "--bind-to", "none", "-n", str(job.ranks), exe]
    try:
        p = subprocess.run(cmd, cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout)
        return p.returncode, p.stdout.decode(errors="replace") + p.stderr.decode(errors="replace")
    except subprocess.TimeoutExpired:
        subprocess.run(["pkill", "-9", "-f", exe])
        return "timeout", ""


def replay(job, res, v, n, prop, pool, log):
    """returns (reproduced, path)"""
    d = VERIF + "/replays/%s-%d" % (prop, n)
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    model = d + "/model.txt"
    write_model(job, v, model)
    info = {"property": prop, "job": job.name(), "kind": v["kind"], "message": v["msg"], "where": v["where"], "model": v["model"]}
    ok, how = False, []
    try:
        if job.native and v["kind"] not in ("omp-race", "mpi-buffer"):
            asan = v["kind"] == "memory"
            exe = native_prog(job, asan, pool, d)
            if v["kind"] == "deadlock":
                rc, txt = native_run(job, exe, model, d, 25)
                ok = rc == "timeout"
            else:
                rc, txt = native_run(job, exe, model, d)
                if v["kind"] == "assert":
                    ok = "HS_FAIL" in txt
                elif v["kind"] == "memory":
                    ok = "AddressSanitizer" in txt or (rc not in (0, "timeout") and "HS_ASSUME" not in txt)
                else:
                    ok = rc not in (0, "timeout") and "HS_ASSUME" not in txt
                if not ok and rc == "timeout":
                    ok = True
                    how.append("native run hangs")
            info["native"] = {"rc": rc, "output": txt[-3000:]}
            how.append("native replay %s" % ("reproduces" if ok else "does not reproduce"))
        if not ok and (v["kind"] != "assert" or not job.native):
            out = d + "/engine.json"
            p = subprocess.run(hsym_cmd(job, res["prog"], out, model), stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=600)
            e = json.load(open(out))
            ok = any(x["kind"] == v["kind"] for x in e["violations"])
            info["engine_replay"] = e["violations"]
            how.append("concrete re-execution of the IR %s" % ("reproduces" if ok else "does not reproduce"))
    except Exception as x:
        how.append("replay failed: %s" % str(x)[-600:])
    info["how"] = how
    json.dump(info, open(d + "/info.json", "w"), indent=1)
    log("  %s: %s: %s\n    at %s\n    %s" % (job.name(), v["kind"], v["msg"], v["where"], "; ".join(how)))
    return ok, d + "/info.json"


def known_findings():
    out = []
    p = VERIF + "/known_findings.txt"
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r"known: property=(\S+) job=(\S+) match=/(.*)/ (.*)$", l.strip())
            if m:
                out.append({"property": m[1], "job": m[2], "re": re.compile(m[3]), "what": m[4]})
    return out


def run_property(prop, spec, tier, seed, verbose=False, only=None):
    t0 = time.time()
    jobs = [j for j in spec["jobs"] if tier == "thorough" or j.tier == "quick"]
    if only:
        jobs = [j for j in jobs if only in j.name()]
    log = lambda s: print(s[:400] if not s.startswith("INC") else s, flush=True)
    work = tempfile.mkdtemp(prefix="hv-")
    workers = int(os.environ.get("HV_JOBS", "8"))
    libpool = cf.ThreadPoolExecutor(workers)
    pool = cf.ThreadPoolExecutor(workers)
    results, problems = [], []
    violations = []
    kf = [k for k in known_findings() if k["property"] == prop]
    kf_seen = {}
    try:
        build.hsym()
        try:
            build.hilapp()
        except build.BuildError as e:
            problems.append(str(e))
            jobs = []
        # largest first
        futs = [(j, pool.submit(run_job, j, libpool, work)) for j in jobs]
        for j, f in futs:
            r = f.result()
            results.append((j, r))
            if verbose:
                x = r.get("res", {})
                log("  %-70s %6.1fs paths %s steps %s checks %s queries %s solver %ss %s" % (j.name(), r["wall"], x.get("paths"), x.get("steps"), x.get("checks"), x.get("queries"), x.get("solver_seconds"), r.get("error", "")[:60].replace("\n", " ") or x.get("incomplete_why", "") or x.get("fatal", "")))
        n = 0
        unmatched = 0
        for j, r in results:
            if "error" in r:
                problems.append("%s: %s" % (j.name(), r["error"]))
                continue
            x = r["res"]
            real = False
            for v in x["violations"]:
                sig = "%s|%s|%s" % (v["kind"], v["msg"], v["where"])
                k = next((k for k in kf if k["job"] in ("*", j.src) and k["re"].search(sig)), None)
                if k:
                    kf_seen[k["what"]] = kf_seen.get(k["what"], 0) + 1
                    continue
                n += 1
                if n > 6:
                    continue
                ok, path = replay(j, r, v, n, prop, libpool, log)
                if ok:
                    violations.append((j, v, path))
                    real = True
                    break
                problems.append("%s: counterexample not reproduced: %s" % (j.name(), v["msg"][:200]))
            if violations and tier == "quick":
                break
            if x["incomplete"] and not real:
                problems.append("%s: incomplete: %s %s" % (j.name(), x["incomplete_why"], x["fatal"]))
            elif not x["violations"]:
                for tag in j.reach:
                    if tag not in x["reached"]:
                        problems.append("%s: vacuous: '%s' is never reached" % (j.name(), tag))
    finally:
        shutil.rmtree(work, ignore_errors=True)
    for w, c in sorted(kf_seen.items()):
        log("KNOWN-FINDING: property=%s %s" % (prop, w))
    tot = lambda k: sum(r["res"].get(k, 0) for _, r in results if "res" in r)
    fns = {}
    for _, r in results:
        for f, file, line in r.get("res", {}).get("functions", []):
            if "/repo/" in file or file.endswith(".cpt"):
                nm = re.sub(r"\(.*", "", f)
                fns[nm] = os.path.basename(file)
    samples = []
    for j, r in results[:12]:
        x = r.get("res")
        if x:
            samples.append({"job": j.name(), "bounds": j.bounds, "paths": x["paths"], "instructions": x["steps"], "assertions": x["checks"], "queries": x["queries"],
                            "unsat": x["unsat"], "sat": x["sat"], "unknown": x["unknown"], "solver_s": x["solver_seconds"], "wall_s": r["wall"], "witnesses": x["reached"]})
    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": spec["level"],
        "coverage": {
            "states": tot("paths") + tot("forks"), "transitions": tot("steps"),
            "traces_validated_against_impl": len(violations),
            "programs": len(results), "disagreements_checked": tot("checks"),
            "explanation": "Symbolic execution of the LLVM IR of the transpiled sources; every assertion is decided by Z3 over all values of the symbolic inputs within the bounds. states = path segments (explored paths + forks); transitions = IR instructions executed; programs = harness x configuration x rank-count jobs; disagreements_checked = assertions.",
            "jobs": len(results), "paths": tot("paths"), "instructions": tot("steps"), "assertions": tot("checks"),
            "assertions_on_concrete_values": tot("checks_concrete"), "assertions_between_identical_terms": tot("checks_identical"), "assertions_up_to_rounding": tot("checks_up_to_rounding"),
            "queries": tot("queries"), "unsat": tot("unsat"), "sat": tot("sat"), "unknown": tot("unknown"), "solver_seconds": round(tot("solver_seconds"), 3),
            "bounds": spec["bounds"], "outside_bounds": spec.get("outside", ""),
            "functions_encoded": len(fns), "functions": sorted(fns)[:400],
            "samples": samples or [{"note": "no job completed"}],
            "problems": problems[:20], "known_findings_seen": kf_seen,
            "source_hash": build.lib_hash(),
        },
        "assumptions": spec.get("assumptions", []) + GENERIC_ASSUMPTIONS,
        "wall_s": round(time.time() - t0, 2), "violations": len(violations),
    }
    os.makedirs(VERIF + "/evidence", exist_ok=True)
    json.dump(ev, open(VERIF + "/evidence/%s.json" % prop, "w"), indent=1)
    if violations:
        for j, v, path in violations:
            log("VIOLATION property=%s replay=%s" % (prop, path))
        return 1
    if problems:
        shown = set()
        for p in problems[:5]:
            tail = p.split(": ", 1)[-1][-400:]
            log("INCONCLUSIVE %s: %s" % (prop, p[:700] if tail not in shown else p[:100] + " (as above)"))
            shown.add(tail)
        return 2
    log("OK %s: %d jobs, %d assertions, %d paths, %d instructions, %d queries (%.1fs solver), %.1fs" % (prop, len(results), tot("checks"), tot("paths"), tot("steps"), tot("queries"), tot("solver_seconds"), time.time() - t0))
    return 0


GENERIC_ASSUMPTIONS = [
    "clang 18 -O1 IR of the code hilapp generates stands for the compiled program (the compiler is trusted)",
    "MPI, files, FFTW and the C++ stream and container run-time are the models in rt/src and engine/ext.cpp; MPI is a reliable FIFO per (source, destination, tag), sends never buffer unless stated",
    "unless a job says ieee, floating-point values are real numbers (results hold modulo rounding); data movement is tracked bit by bit",
    "one schedule of the ranks is explored: without wildcard receives the matching of messages does not depend on the schedule",
]
