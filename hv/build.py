"""Build steps: the engine, hilapp, LLVM IR of the real sources, native replay binaries.  Everything is keyed by the
content of what it is made from, so a changed /repo is always re-encoded and an unchanged one is not."""
import fcntl, hashlib, os, re, shutil, subprocess, sys, threading, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("HV_REPO", "/repo")
BUILD = os.path.join(VERIF, "build")
MPIINC = ["-I/usr/lib/x86_64-linux-gnu/openmpi/include", "-I/usr/lib/x86_64-linux-gnu/openmpi/include/openmpi"]
NOFOLD = ("-fno-builtin-sqrt", "-fno-builtin-sqrtf", "-fno-unroll-loops")  # extra of jobs with exact roots of constants
LIBS = ["plumbing/initialize", "plumbing/input", "plumbing/cmdline", "plumbing/random", "plumbing/lattice",
        "plumbing/map_node_layout", "plumbing/memalloc", "plumbing/timing", "plumbing/test_gathers", "plumbing/com_mpi",
        "plumbing/memory_pool", "datatypes/extended", "plumbing/fft"]
IRFLAGS = ["-x", "c++", "-std=c++17", "-isystem", VERIF + "/rt/inc", "-fno-exceptions", "-O1", "-ffp-contract=off", "-fno-pie",
           "-gline-tables-only", "-D_GLIBCXX_EXTERN_TEMPLATE=0", "-S", "-emit-llvm", "-w"]


class BuildError(Exception):
    pass


def sh(cmd, cwd=None, timeout=900, what="", env=None):
    r = subprocess.run(cmd, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout, env=env)
    if r.returncode:
        out = r.stdout.decode(errors="replace")
        errs = [l for l in out.splitlines() if "error" in l.lower()]
        raise BuildError("%s failed (%d):\n%s\n--\n%s" % (what or cmd[0], r.returncode, "\n".join(errs[:10]), out[-1500:]))
    return r.stdout.decode(errors="replace")


def hash_files(paths, extra=""):
    h = hashlib.sha256(extra.encode())
    for p in sorted(paths):
        h.update(p.encode())
        with open(p, "rb") as f:
            h.update(f.read())
    return h.hexdigest()[:20]


def tree(d, exts=None):
    out = []
    for r, ds, fs in os.walk(d):
        ds[:] = [x for x in ds if x not in ("build", "bin", ".git")]
        for f in fs:
            if exts is None or os.path.splitext(f)[1] in exts:
                out.append(os.path.join(r, f))
    return out


class Lock:
    def __init__(self, name):
        os.makedirs(BUILD, exist_ok=True)
        self.p = os.path.join(BUILD, "." + name.replace("/", "_") + ".lock")

    def __enter__(self):
        self.f = open(self.p, "w")
        fcntl.flock(self.f, fcntl.LOCK_EX)

    def __exit__(self, *a):
        self.f.close()


_memo = {}
_mlock = threading.Lock()


def memo(key, fn):
    with _mlock:
        if key in _memo:
            e = _memo[key]
        else:
            e = _memo[key] = {"lock": threading.Lock()}
    with e["lock"]:
        if "err" in e:
            raise e["err"]
        if "val" not in e:
            try:
                e["val"] = fn()
            except Exception as x:
                e["err"] = x
                raise
        return e["val"]


def lib_hash():
    return memo("libhash", lambda: hash_files(tree(REPO + "/libraries", {".cpp", ".h", ".hpp", ".c", ".mk", ""})))


def rt_hash():
    return memo("rthash", lambda: hash_files(tree(VERIF + "/rt")))


def hsym():
    def f():
        h = hash_files(tree(VERIF + "/engine"))
        exe = BUILD + "/hsym-" + h
        if os.path.exists(exe):
            return exe
        with Lock("hsym"):
            if not os.path.exists(exe):
                d = BUILD + "/engine-obj"
                sh(["make", "-j8", "-C", VERIF + "/engine", "OUT=" + d], what="engine build")
                for o in os.listdir(BUILD):
                    if o.startswith("hsym-"):
                        os.unlink(BUILD + "/" + o)
                shutil.copy(d + "/hsym", exe + ".tmp")
                os.rename(exe + ".tmp", exe)
        return exe
    return memo("hsym", f)


def hilapp():
    """hilapp built from /repo/hilapp/src; object files of an earlier build are reused for unchanged sources."""
    def f():
        src = REPO + "/hilapp/src"
        sig = REPO + "/libraries/hila_signatures.h"
        h = hash_files(tree(src) + [sig], open(REPO + "/hilapp/Makefile").read())
        d = BUILD + "/hilapp"
        exe = d + "/hilapp-" + h
        if os.path.exists(exe):
            return exe
        with Lock("hilapp"):
            if os.path.exists(exe):
                return exe
            os.makedirs(d + "/tree/src", exist_ok=True)
            shutil.copy(REPO + "/hilapp/Makefile", d + "/tree/Makefile")
            hdr = False
            os.makedirs(d + "/libraries", exist_ok=True)
            q = d + "/libraries/hila_signatures.h"
            if not os.path.exists(q) or open(q).read() != open(sig).read():
                shutil.copy(sig, q)
                hdr = True
            for p in tree(src):
                q = d + "/tree/src/" + os.path.relpath(p, src)
                new = open(p, "rb").read()
                if not os.path.exists(q) or open(q, "rb").read() != new:
                    os.makedirs(os.path.dirname(q), exist_ok=True)
                    open(q, "wb").write(new)
                    hdr = hdr or q.endswith(".h")
            for q in tree(d + "/tree/src"):
                if not os.path.exists(src + "/" + os.path.relpath(q, d + "/tree/src")):
                    os.unlink(q)
                    hdr = True
            b = d + "/tree/build"
            if hdr and os.path.isdir(b):
                shutil.rmtree(b)
            os.makedirs(b, exist_ok=True)
            env = {k: v for k, v in os.environ.items() if k not in ("MAKEFLAGS", "MFLAGS")}
            sh(["make", "-C", d + "/tree", "-j8", "LLVM_VERSION=18", "GIT_SHA=local", "CXXFLAGS=-fno-rtti -std=c++17 -O1", "build/hilapp"], what="hilapp build", env=env)
            shutil.copy(b + "/hilapp", exe + ".tmp")
            os.rename(exe + ".tmp", exe)
        return exe
    return memo("hilapp", f)


class Config:
    """One build configuration of the library: dimension, target, defines."""

    def __init__(self, ndim=2, target="vanilla", defs=()):
        self.ndim, self.target, self.defs = ndim, target, tuple(defs)
        self.key = "%dd-%s%s" % (ndim, target, "".join("-" + x.replace("=", "") for x in self.defs))

    def hilapp_opts(self):
        o = ["-DNDIM=%d" % self.ndim, "-DSPECIAL_BOUNDARY_CONDITIONS"] + ["-D" + d for d in self.defs]
        if self.target == "avx":
            o = ["-target:AVX", "-DAVX", "-DSUBNODE_LAYOUT"] + o
        if self.target == "openmp":
            o = ["-target:openmp", "-DOPENMP"] + o
        return o

    def cc_opts(self):
        o = ["-DNDIM=%d" % self.ndim, "-DSPECIAL_BOUNDARY_CONDITIONS"] + ["-D" + d for d in self.defs]
        if self.target == "avx":
            o += ["-DAVX", "-DSUBNODE_LAYOUT", "-mavx2", "-mfma"]
        if self.target == "openmp":
            o += ["-DOPENMP", "-fopenmp"]
        return o

    def libs(self):
        return LIBS + ["plumbing/setup_layout_vector" if self.target == "avx" else "plumbing/setup_layout_generic"]

    def includes(self):
        L = REPO + "/libraries"
        return ["-I" + L, "-I" + L + "/plumbing", "-I" + L + "/datatypes", "-I" + L + "/tools"]


def transform(src, cfg, out, extra_inc=()):
    """run hilapp on src"""
    o = [hilapp(), "-std=c++17"] + cfg.hilapp_opts() + ["-DGIT_SHA_VALUE=local", "-I."] + cfg.includes() + [x for x in extra_inc if x[:2] in ("-D", "-I")] + MPIINC + [src, "-o", out]
    r = sh(o, cwd=os.path.dirname(src), what="hilapp " + os.path.basename(src))
    if cfg.target == "openmp":
        # OpenMP initialises a private copy without initializer clause like a static object; g++ does, clang leaves classes
        # uninitialised: spell it out
        t = open(out).read()
        t2 = re.sub(r"(#pragma omp declare reduction\(\w+:)(.*)(:[^:\n]*omp_out[^\n]*\))[ \t]*$", r"\1\2\3 initializer(omp_priv = \2{})", t, flags=re.M)
        if t2 != t:
            open(out, "w").write(t2)
    return r


def to_ir(src, cfg, out, extra=()):
    sh(["clang++-18"] + IRFLAGS + cfg.cc_opts() + ["-DGIT_SHA_VALUE=local"] + list(extra) + cfg.includes() + [src, "-o", out], what="clang " + os.path.basename(src))


def prune(d, keep, n):
    """drop old cache entries, keeping the newest n"""
    try:
        es = [(os.path.getmtime(os.path.join(d, e)), e) for e in os.listdir(d) if e != keep]
        for _, e in sorted(es)[:-n] if len(es) > n else []:
            p = os.path.join(d, e)
            shutil.rmtree(p) if os.path.isdir(p) else os.unlink(p)
    except OSError:
        pass


def rt_ir(pool):
    def f():
        d = BUILD + "/rt-" + rt_hash()
        outs = []
        for s in sorted(os.listdir(VERIF + "/rt/src")):
            o = d + "/" + s[:-4] + ".ll"
            outs.append(o)
        if all(os.path.exists(o) for o in outs):
            return outs
        with Lock("rt"):
            os.makedirs(d, exist_ok=True)
            for o in outs:
                if not os.path.exists(o):
                    s = VERIF + "/rt/src/" + os.path.basename(o)[:-3] + ".cpp"
                    sh(["clang++-18"] + IRFLAGS + [s, "-o", o + ".tmp"], what="runtime")
                    os.rename(o + ".tmp", o)
        return outs
    return memo("rt", f)


def lib_ir(cfg, pool):
    """IR of the HILA library in one configuration"""
    def f():
        key = hashlib.sha256((lib_hash() + os.path.basename(hilapp()) + rt_hash() + cfg.key).encode()).hexdigest()[:20]
        d = BUILD + "/lib/" + key
        out = d + "/lib.bc"
        if os.path.exists(out):
            os.utime(d)
            return out
        with Lock("lib-" + key):
            if os.path.exists(out):
                return out
            os.makedirs(d, exist_ok=True)

            def one(l):
                s = REPO + "/libraries/" + l + ".cpp"
                cpt = d + "/" + os.path.basename(l) + ".cpt"
                if l.endswith("extended"):
                    to_ir(s, cfg, cpt[:-4] + ".ll")
                else:
                    transform(s, cfg, cpt)
                    to_ir(cpt, cfg, cpt[:-4] + ".ll", ["-I" + os.path.dirname(s)])
                return cpt[:-4] + ".ll"
            lls = list(pool.map(one, cfg.libs()))
            sh(["llvm-link-18"] + lls + rt_ir(pool) + ["-o", out + ".tmp"], what="llvm-link")
            os.rename(out + ".tmp", out)
            for l in lls:
                os.unlink(l)
            prune(BUILD + "/lib", key, 16)
        return out
    return memo("lib" + cfg.key, f)


def harness_ir(src, cfg, pool, use_hilapp=True, link_lib=True, extra=(), prep=None):
    """IR of one harness, linked with the library"""
    def f():
        exs = list(extra)
        key = hashlib.sha256((lib_hash() + os.path.basename(hilapp()) + rt_hash() + cfg.key + hash_files([src] + tree(VERIF + "/harness", {".h"})) + str(exs) + str(use_hilapp) + str(link_lib)).encode()).hexdigest()[:20]
        d = BUILD + "/harness/" + key
        out = d + "/prog.bc"
        if os.path.exists(out):
            os.utime(d)
            return out
        with Lock("h-" + key):
            if os.path.exists(out):
                return out
            os.makedirs(d, exist_ok=True)
            base = os.path.basename(src)[:-4]
            inc = ["-I" + VERIF + "/rt", "-I" + VERIF + "/harness"]
            ll = d + "/" + base + ".ll"
            if use_hilapp:
                cpt = d + "/" + base + ".cpt"
                transform(src, cfg, cpt, inc + exs)
                to_ir(cpt, cfg, ll, inc + exs)
            else:
                to_ir(src, cfg, ll, inc + exs)
            libs = [lib_ir(cfg, pool)] if link_lib else rt_ir(pool)
            sh(["llvm-link-18", ll] + libs + ["-o", out + ".tmp"], what="llvm-link")
            os.rename(out + ".tmp", out)
            os.unlink(ll)
            prune(BUILD + "/harness", key, 400)
        return out
    return memo("h" + src + cfg.key + str(extra) + str(use_hilapp) + str(link_lib), f)
