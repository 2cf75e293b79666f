"""Builds what a check needs from /repo's current working tree, in a scratch directory."""
import glob, hashlib, os, shutil, subprocess, sys, concurrent.futures as cf

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
CACHE = os.path.join(VERIF, ".cache")   # object cache keyed by the full preprocessed text; optional
JOBS = 8

BASE = ["-g1", "-w", "-D_POSIX_C_SOURCE=200112L", "-fopenmp"]
X86 = ["-mavx", "-mfma", "-mtune=haswell"]

VARIANTS = {
    # as the project's Makefile builds it; locals start as a pattern so that an
    # uninitialised read is deterministic
    "plain": dict(cc="g++", arch="haswell", flags=["-O2", "-ftrivial-auto-var-init=pattern"]),
    "asan": dict(cc="g++", arch="haswell", flags=["-O1", "-fsanitize=address,undefined", "-fno-sanitize=alignment,vptr",
                                                  "-fno-sanitize-recover=undefined", "-fno-omit-frame-pointer"],
                 ld=["-fsanitize=address,undefined"]),
    "trace": dict(cc="g++", arch="haswell", flags=["-O1", "-fsanitize=thread", "-fno-builtin",
                                                   "-include", os.path.join(VERIF, "shim/trace_intrin.h")]),
    "tsan": dict(cc="g++", arch="haswell", flags=["-O1", "-fsanitize=thread", "-fno-builtin", "-include", os.path.join(VERIF, "shim/trace_intrin.h")],
                 ld=["-fsanitize=thread"]),
    "arm": dict(cc="g++", arch="armv8", flags=["-O2", "-mavx", "-mfma", "-ftrivial-auto-var-init=pattern"]),
    "armasan": dict(cc="g++", arch="armv8", flags=["-O1", "-mavx", "-mfma", "-fsanitize=address,undefined",
                                                   "-fno-sanitize=alignment,vptr", "-fno-sanitize-recover=undefined"],
                    ld=["-fsanitize=address,undefined"]),
}


class BuildError(Exception):
    pass


def run(cmd, **kw):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)
    if r.returncode:
        raise BuildError("%s\n%s" % (" ".join(cmd) if isinstance(cmd, list) else cmd, r.stdout[-4000:]))
    return r.stdout


def write_hw(d, procs, threads=1, sockets=1, model="Generic CPU @ 2.50GHz", one=None, alls=None):
    os.makedirs(d, exist_ok=True)
    one = one or [("L1d", "32K"), ("L1i", "32K"), ("L2", "1M"), ("L3", "8M")]
    alls = alls or [("L1d", "128K"), ("L1i", "128K"), ("L2", "4M"), ("L3", "8M")]
    with open(d + "/lscpu", "w") as f:
        f.write("Architecture:        x86_64\nCPU(s):              %d\nModel name:          %s\n"
                "Thread(s) per core:  %d\nCore(s) per socket:  %d\nSocket(s):           %d\n"
                % (procs, model, threads, procs // (threads * sockets), sockets))
    with open(d + "/caches_one", "w") as f:
        f.write("NAME ONE-SIZE\n" + "".join("%-4s %12s\n" % x for x in one))
    with open(d + "/caches_all", "w") as f:
        f.write("NAME ALL-SIZE\n" + "".join("%-4s %12s\n" % x for x in alls))
    with open(d + "/cpuinfo", "w") as f:
        for i in range(procs):
            f.write("processor\t: %d\nvendor_id\t: GenuineIntel\nmodel name\t: %s\n\n" % (i, model))


def hw_env(d):
    e = dict(os.environ)
    e["PATH"] = VERIF + "/fakebin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin"
    e["FAKE_HW"] = d
    e["PYTHONDONTWRITEBYTECODE"] = "1"
    e.pop("PYTHONPATH", None)
    return e


class Tree:
    """A staged, configured copy of the repository's sources."""

    def __init__(self, work, arch="haswell", m_lim=None, n_lim=None, ncores=24, name=None):
        self.arch = arch
        self.m_lim = m_lim or (8 if arch == "haswell" else 10)
        self.n_lim = n_lim or (32 if arch == "haswell" else 24)
        self.ncores = ncores
        self.pack = "-DUSE_CAKE_PACK"
        self.dir = os.path.join(work, name or ("tree-%s-%d-%d-%d" % (arch, self.m_lim, self.n_lim, ncores)))
        self.hw = self.dir + ".hw"
        if os.path.isdir(self.dir):
            return
        os.makedirs(self.dir)
        for d in ("src", "include", "python"):
            shutil.copytree(os.path.join(REPO, d), os.path.join(self.dir, d),
                            ignore=shutil.ignore_patterns("__pycache__", "*.pyc"))
        write_hw(self.hw, ncores)
        env = hw_env(self.hw)
        for f in ("src/kernels/haswell/dense.cpp", "src/kernels/armv8/dense.cpp", "src/kernels/haswell/sparse.cpp", "src/kernels/armv8/sparse.cpp"):
            p = os.path.join(self.dir, f)
            if os.path.exists(p):
                shutil.copy(p, p + ".committed")
                if f.endswith("sparse.cpp"):
                    shutil.copy(p, p + ".committed.cpp")
        run(["python3", "python/kernel_gen.py", arch, str(self.m_lim), str(self.n_lim), "dense"], cwd=self.dir, env=env)
        shutil.move(self.dir + "/dense.cpp", self.dir + "/src/kernels/%s/dense.cpp" % arch)
        run(["python3", "python/grid_gen.py"], cwd=self.dir, env=env)

    def gen_sparse(self):
        run(["python3", "python/kernel_gen.py", self.arch, str(self.m_lim), str(self.n_lim), "sparse"],
            cwd=self.dir, env=hw_env(self.hw))
        shutil.move(self.dir + "/sparse.cpp", self.dir + "/src/kernels/%s/sparse.cpp" % self.arch)

    def sources(self):
        s = sorted(glob.glob(self.dir + "/src/*.cpp"))
        drop = {"linear.cpp", "autotune_sa.cpp"}
        k = self.dir + "/src/kernels/" + self.arch
        if self.arch == "armv8":
            drop.add("transpose.cpp")
            extra = [k + "/blis_pack_armv8.cpp", k + "/dense.cpp"]
        else:
            extra = [k + "/blis_pack_haswell.cpp", k + "/dense.cpp", k + "/transpose_haswell.cpp"]
        return [x for x in s if os.path.basename(x) not in drop] + extra

    def defs(self):
        if self.arch == "armv8":
            return ["-DUSE_CAKE_ARMV8", "-DBLIS_ARMV8_PACK", "-I", VERIF + "/shim/neon"]
        return ["-DUSE_CAKE_HASWELL", self.pack] + X86


def _cached_compile(cmd, out, cwd, deps_key):
    if deps_key and os.path.isdir(CACHE):
        c = os.path.join(CACHE, deps_key + ".o")
        if os.path.exists(c):
            shutil.copy(c, out)
            return
        run(cmd, cwd=cwd)
        tmp = c + ".%d" % os.getpid()
        shutil.copy(out, tmp)
        os.rename(tmp, c)
        return
    run(cmd, cwd=cwd)


def _key(cmd_noout, tree_digest, src):
    h = hashlib.sha256()
    h.update(tree_digest.encode())
    h.update(open(src, "rb").read())
    h.update("\0".join(cmd_noout).encode())
    return h.hexdigest()


def digest_dir(d):
    h = hashlib.sha256()
    for root, dirs, files in os.walk(d):
        dirs.sort()
        for f in sorted(files):
            p = os.path.join(root, f)
            h.update(os.path.relpath(p, d).encode() + b"\0" + open(p, "rb").read())
    return h.hexdigest()


def compile_all(jobs):
    """jobs: list of (cmd without -o, src, out, cwd, digest)"""
    with cf.ThreadPoolExecutor(JOBS) as ex:
        fs = [ex.submit(_cached_compile, cmd + [src, "-c", "-o", out], out, cwd,
                        _key([c.replace(os.path.dirname(os.path.dirname(out)), "@") for c in cmd], dig, src) if dig else None)
              for cmd, src, out, cwd, dig in jobs]
        for f in fs:
            f.result()


def build(work, variant, harness, tree=None, extra_lib=(), extra_flags=(), lib_flags=(), ldflags=(), out=None, shim=True, shim_flags=(), defs=(), with_lib=True, drop=()):
    """Compile the library (variant), the OMP shim and the harness into one executable."""
    v = VARIANTS[variant]
    t = tree or Tree(work, v["arch"])
    harness = [harness] if isinstance(harness, str) else list(harness)
    name = out or (os.path.splitext(os.path.basename(harness[0]))[0] + "-" + variant)
    od = os.path.join(work, "obj-" + name)
    os.makedirs(od)
    inc = ["-I", t.dir + "/include"]
    dig = digest_dir(t.dir + "/include")
    eng = hashlib.sha256((digest_dir(VERIF + "/engine") + digest_dir(VERIF + "/shim")).encode()).hexdigest()
    jobs, objs = [], []

    def add(src, cmd, digest):
        o = os.path.join(od, "%d_%s.o" % (len(objs), os.path.basename(src)))
        objs.append(o)
        jobs.append((cmd, src, o, t.dir, digest))

    san = [f for f in v["flags"] if f.startswith("-fsanitize=address")]
    for h in harness:
        add(h, [v["cc"], "-std=gnu++17", "-O2", "-g1", "-w", "-I", VERIF + "/engine", "-I", VERIF + "/shim", "-I", t.dir + "/src"] + inc + t.defs()
            + (["-fsanitize=address"] if san else []) + ["-DTREE_NCORES=%d" % t.ncores] + list(extra_flags) + list(defs), dig + eng)
    if with_lib:
        for s in t.sources() + list(extra_lib):
            if os.path.basename(s) in drop:
                continue
            add(s, [v["cc"]] + BASE + t.defs() + v["flags"] + inc + list(lib_flags) + list(defs), dig + eng)
    else:
        for s in extra_lib:
            add(s, [v["cc"]] + BASE + t.defs() + v["flags"] + inc + list(lib_flags) + list(defs), dig + eng)
    if shim:
        add(VERIF + "/shim/omp_shim.cpp", ["g++", "-O2", "-g1", "-w", "-I", VERIF + "/shim"] + (["-fsanitize=address"] if san else []) + list(shim_flags), eng)
    compile_all(jobs)
    exe = os.path.join(work, name)
    run([v["cc"], "-o", exe] + objs + v.get("ld", []) + list(ldflags) + ([] if shim else ["-fopenmp"]) + ["-lm", "-lpthread"])
    shutil.rmtree(od)
    return exe
