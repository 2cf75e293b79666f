"""What each check builds and runs."""
import os, shutil
import build as B

C = B.VERIF + "/checks/"


class Spec:
    def __init__(self, build, assumptions=(), budget_quick=420, budget_thorough=3000):
        self.build = build
        self.assumptions = list(assumptions)
        self.budget_quick = budget_quick
        self.budget_thorough = budget_thorough


def simple(src, variant="plain", **kw):
    def f(work):
        return [(variant, B.build(work, variant, C + src, **kw), {})]
    return f


WRAPS = ["-Wl,--wrap=%s" % f for f in ("free", "memcpy", "memmove", "memset")]


def c05(work):
    t = B.Tree(work)
    return [("trace", B.build(work, "trace", [C + "C05.cpp", C + "race.cpp"], tree=t, extra_flags=["-DTRACE"], ldflags=WRAPS), {}),
            # as written: no store of a shared variable is optimised away
            ("trace-O0", B.build(work, "trace", [C + "C05.cpp", C + "race.cpp"], tree=t, out="C05-O0", extra_flags=["-DTRACE", "-DO0"], lib_flags=["-O0"], ldflags=WRAPS), {}),
            ("orders", B.build(work, "plain", C + "C05.cpp", tree=t, out="C05-orders"), {}),
            ("libgomp", B.build(work, "plain", C + "C05.cpp", tree=t, out="C05-real", extra_flags=["-DREAL", "-fopenmp"], shim=False), {})]


def c24(work):
    d = work + "/fakebin"
    hw = work + "/hw4"
    shutil.copytree(B.VERIF + "/fakebin", d)
    B.write_hw(hw, 4)
    t, e = B.Tree(work), {"FAKE_BIN": d, "FAKE_HW": hw}
    return [("tsan", B.build(work, "tsan", C + "C24.cpp", tree=t, shim_flags=["-DSHIM_TL"], lib_flags=["-O0"], ldflags=["-Wl,--wrap=posix_memalign"]), e),
            ("libgomp", B.build(work, "plain", C + "C24.cpp", tree=t, out="C24-real", extra_flags=["-DREAL", "-fopenmp"], shim=False, ldflags=["-Wl,--wrap=posix_memalign"]), e)]


def c11(work):
    bins = []
    for m, n in ((8, 32), (6, 16), (13, 70), (40, 16), (6, 130)):
        t = B.Tree(work, m_lim=m, n_lim=n)
        src, com = C + "C11.cpp", (m, n) == (8, 32)
        extra = []
        if com:
            k = t.dir + "/committed_dense.cpp"
            with open(k, "w") as f:
                f.write("#define cake_sgemm_haswell_6x16 committed_6x16\n#include \"%s\"\n" % (t.dir + "/src/kernels/haswell/dense.cpp.committed"))
            extra = [k]
        bins.append(("table-%dx%d" % (m, n), B.build(work, "plain", src, tree=t, out="C11-%d-%d" % (m, n), extra_lib=extra,
                                                     extra_flags=["-DSCALE=%d" % (2 if com else 1)] + (["-DCOMMITTED"] if com else [])), {}))
    return bins


def c12(work):
    t = B.Tree(work, "armv8")
    k = t.dir + "/committed_dense.cpp"
    with open(k, "w") as f:
        f.write("#define cake_sgemm_armv8_8x12 committed_8x12\n#include \"%s\"\n" % (t.dir + "/src/kernels/armv8/dense.cpp.committed"))
    big = []
    for m, n in ((11, 40), (34, 12), (8, 110)):
        t2 = B.Tree(work, "armv8", m_lim=m, n_lim=n)
        big.append(("kernels-%dx%d" % (m, n), B.build(work, "arm", C + "C11.cpp", tree=t2, out="C12-k%d-%d" % (m, n), extra_flags=["-DSCALE=1"]), {}))
    return [("armv8", B.build(work, "arm", C + "C12.cpp", tree=t), {}),
            ("armv8-blis-pack", B.build(work, "arm", C + "C12.cpp", tree=t, out="C12-blis", defs=["-DUSE_BLIS_ARMV8_PACK", "-DDEFAULT_TILE_ONLY"]), {}),
            ("kernels-10x24", B.build(work, "arm", C + "C11.cpp", tree=t, out="C12-k", extra_lib=[k], extra_flags=["-DSCALE=1", "-DCOMMITTED"]), {})] + big


def c13(work):
    bins = []
    for arch, m, n in (("haswell", 8, 32), ("haswell", 13, 70), ("haswell", 40, 16), ("haswell", 6, 130), ("armv8", 10, 24), ("armv8", 12, 50), ("armv8", 34, 12), ("armv8", 8, 110)):
        t = B.Tree(work, arch, m_lim=m, n_lim=n)
        t.gen_sparse()
        k = t.dir + "/src/kernels/%s/sparse.cpp" % arch
        com = (m, n) in ((8, 32), (10, 24))
        f = ["-DUSE_ROSKO_" + arch.upper()]
        bins.append(("%s-%dx%d" % (arch, m, n), B.build(work, "plain" if arch == "haswell" else "arm", C + "C13.cpp", tree=t, out="C13-%s-%d-%d" % (arch, m, n), with_lib=False, shim=False,
                                                      extra_lib=[k] + ([k + ".committed.cpp"] if com else []), lib_flags=f, extra_flags=f + (["-DCOMMITTED"] if com else [])), {}))
    return bins


def c14(work):
    os.makedirs(work + "/fakebin")
    so = work + "/fakebin/libfakehw.so"
    B.run(["gcc", "-O1", "-w", "-shared", "-fPIC", "-o", so, B.VERIF + "/shim/fakehw.c", "-ldl"])
    for f in ("lscpu", "nproc"):
        os.symlink(B.VERIF + "/fakebin/" + f, work + "/fakebin/" + f)
    return [("plain", B.build(work, "plain", C + "C14.cpp", ldflags=[so, "-Wl,-rpath," + work + "/fakebin"]), {"FAKE_BIN": work + "/fakebin", "FAKE_SO": so})]


def c15(work):
    t = B.Tree(work)
    arm = B.Tree(work, "armv8")
    g = B.Tree(work, name="tree-blis")
    g.pack = "-DUSE_BLIS_HASWELL_PACK"
    return [("haswell", B.build(work, "plain", C + "C15.cpp", tree=t), {}),
            ("armv8", B.build(work, "arm", C + "C15.cpp", tree=arm, out="C15-arm"), {}),
            ("gemm-blis-pack", B.build(work, "plain", C + "C12.cpp", tree=g, out="C15-gemm", extra_flags=["-DDEFAULT_TILE_ONLY"]), {})]


def c20(work):
    bins = []
    for m, n in ((8, 32), (12, 64), (26, 16), (6, 112)):
        t = B.Tree(work, m_lim=m, n_lim=n)
        bins.append(("table-%dx%d" % (m, n), B.build(work, "plain", C + "C20.cpp", tree=t, out="C20-%d-%d" % (m, n), extra_flags=[] if m in (8, 12) else ["-DPART=15000"]), {}))
    return bins


def c21(work):
    d = work + "/fakebin"
    hw = work + "/hw4"
    shutil.copytree(B.VERIF + "/fakebin", d)
    t = B.Tree(work, ncores=4)
    B.write_hw(hw, 4)
    return [("plain", B.build(work, "plain", C + "C21.cpp", tree=t), {"FAKE_BIN": d, "FAKE_HW": hw})]


def c25(work):
    d = work + "/fakebin"
    hw = work + "/hw4"
    shutil.copytree(B.VERIF + "/fakebin", d)
    t = B.Tree(work, ncores=4)
    B.write_hw(hw, 4)
    return [("plain", B.build(work, "plain", C + "C25.cpp", tree=t, ldflags=["-Wl,--wrap=popen"]), {"FAKE_BIN": d, "FAKE_HW": hw})]


def c23(work):
    """One small library per core count, each with the divisor table generated on a machine with that count."""
    t = B.Tree(work)
    quick = list(range(1, 33)) + [36, 40, 44, 48, 50, 52, 56, 60, 61, 64, 72, 80, 84, 90, 96, 97, 112, 120, 127, 128, 144, 192, 210, 256]
    counts = quick + ([n for n in range(33, 257) if n not in quick] + [288, 320, 384, 480, 512, 720, 1024] if os.environ["VERIF_TIER"] == "thorough" else [])
    jobs, lines = [], []
    env0 = [f for f in B.BASE + t.defs() + B.VARIANTS["plain"]["flags"]]
    src = [f for f in t.sources() if "grid_dims_2d(" in open(f).read() and os.path.basename(f) == "block_sizing.cpp"] or t.sources()
    def one(i):
        n = counts[i]
        th, so = (1, 2, 1, 4, 2)[i % 5], (1, 1, 2, 1, 4)[i % 5]
        d = work + "/n%d" % n
        shutil.copytree(t.dir + "/include", d + "/include")
        shutil.copy(B.REPO + "/include/tiling.h", d + "/include/tiling.h")
        B.write_hw(d + "/hw", n * th * so, th, so)
        B.run(["python3", t.dir + "/python/grid_gen.py"], cwd=d, env=B.hw_env(d + "/hw"))
        cmd = ["g++"] + env0 + ["-fPIC", "-shared", "-fsanitize=bounds", "-fsanitize-undefined-trap-on-error", "-Wl,-z,defs", "-I", d + "/include", "-o", d + "/lib.so"]
        try:
            B.run(cmd + src)
        except B.BuildError:      # the planner's file needs another one
            B.run([f for f in cmd if f != "-Wl,-z,defs"] + t.sources())
        return "%d %d %dx%dx%d %s" % (n, n in quick, n, th, so, d + "/lib.so")
    with B.cf.ThreadPoolExecutor(B.JOBS) as ex:
        lines = list(ex.map(one, range(len(counts))))
    with open(work + "/libs.txt", "w") as f:
        f.write("\n".join(lines) + "\n")
    return [("grids", B.build(work, "plain", C + "C23.cpp", tree=t, ldflags=["-ldl"], extra_flags=["-fno-sanitize=all"]), {"GRID_LIBS": work + "/libs.txt"})]


def c19(work):
    d = work + "/fakebin"
    shutil.copytree(B.VERIF + "/fakebin", d)
    t = B.Tree(work, ncores=8)
    inc = ["-I", B.VERIF + "/shim/torch_stub", "-std=gnu++17"]
    lin = t.dir + "/src/linear.cpp"
    env = {"FAKE_HW": t.hw, "PATH": d + ":/usr/bin:/bin"}
    pic = inc + ["-fPIC"]
    so = B.build(work, "plain", C + "C19_ext.cpp", tree=t, out="ext.so", shim=False, extra_lib=[lin, B.VERIF + "/shim/omp_shim.cpp"], extra_flags=pic,
                 lib_flags=pic + ["-I", B.VERIF + "/shim"], ldflags=["-shared"])
    B.write_hw(work + "/pyhw", 4)
    return [("python", C + "C19_py.py", dict(env, FAKE_HW=work + "/pyhw", PY_TREE=t.dir, PY_EXT=so)),
            ("plain", B.build(work, "plain", C + "C19.cpp", tree=t, extra_lib=[lin], extra_flags=inc, lib_flags=inc), env),
            ("asan", B.build(work, "asan", C + "C19.cpp", tree=t, out="C19-asan", extra_lib=[lin], extra_flags=inc + ["-DNOLEDGER"], lib_flags=inc), env)]


SHIM = "OpenMP runtime replaced by a deterministic one that runs team members as coroutines; compiled code is the project's, with its own optimisation flags"

SPECS = {
    "C01": Spec(simple("C01.cpp"), [SHIM, "matrix sizes below 2^31 elements", "contexts whose caches hold at least one register tile"]),
    "C02": Spec(simple("C02.cpp"), [SHIM, "2-D entry points: p <= number of cores in the context"]),
    "C03": Spec(simple("C03.cpp"), [SHIM]),
    "C04": Spec(simple("C04.cpp", "asan"), [SHIM, "the inline-assembly BLIS pack kernels are not instrumented by AddressSanitizer (their panels are guard-checked in C15)"]),
    "C05": Spec(c05, ["race detector: conflicts are looked for inside one parallel region between two barriers; accesses made by inline assembly are not seen; thread-local storage is ignored",
                      "scheduling is explored at synchronisation points, which is complete for race-free regions", "values compared bit for bit"]),
    "C06": Spec(simple("C06.cpp"), [SHIM, "the context fields a caller may rely on are the hardware description and the register tile; alpha_n is scratch"]),
    "C07": Spec(simple("C07.cpp"), [SHIM, "packed buffers are 64-byte aligned, as the library's own are"]),
    "C08": Spec(simple("C08.cpp"), [SHIM, "the order of tiles inside a packed buffer is internal; it is checked through the products (C01, C07) and the round trip"]),
    "C09": Spec(simple("C09.cpp"), [SHIM, "sizes up to 2^27 per dimension; 2-D planners on the grid table generated for 24 cores"]),
    "C10": Spec(simple("C10.cpp"), [SHIM, "the automatic rule is compared except within 1e-5 of its thresholds, and where no register tile fits in the L3 share (the rule is 0/0 there)"]),
    "C11": Spec(c11, ["B panels are 64-byte aligned, as the library's packed buffers are", "kernel tables generated for the limits 8x32, 6x16 and 13x70"]),
    "C13": Spec(c13, ["the early-exit kernels (all but the any-order ones) are given compressed panels whose empty columns come last, as density ordering produces",
                      "B panels are 32-byte aligned", "NEON intrinsics replaced by portable code with the same lane semantics"]),
    "C14": Spec(c14, ["the machine is described by substituted lscpu output and a redirected /proc/cpuinfo (by preloading), in the formats util-linux prints",
                      "the table of known CPU models in the code is the documentation of those models"]),
    "C15": Spec(c15, [SHIM, "panels of the kernels' own size, kappa = 1, unit stride in one dimension (what the library asks of them)", "NEON intrinsics replaced by portable code with the same lane semantics"]),
    "C16": Spec(simple("C16.cpp"), [SHIM, "source and destination do not overlap"]),
    "C17": Spec(simple("C17.cpp", ldflags=["-Wl,--wrap=rand"]), [SHIM, "differences between 0.0005 and 0.0025 (around the 0.001 tolerance) are not generated", "equal infinities in both matrices are not generated"]),
    "C18": Spec(simple("C18.cpp"), [SHIM, "round to nearest, gradual underflow (the process default)", "infinities and overflow are generated where every summation order agrees on the outcome"]),
    "C20": Spec(c20, [SHIM, "tables generated for the limits 8x32 and 12x64; register tiles in the table"]),
    "C21": Spec(c21, [SHIM, "one warm-up call precedes each measurement, so one-time initialisation is not counted", "allocation through malloc and friends, descriptors and child processes are observed; direct mmap is not"]),
    "C22": Spec(simple("C22.cpp", ldflags=["-Wl,--wrap=_Z23cake_sgemm_haswell_6x16PfS_S_iii"]), [SHIM, "time passes only in kernels, at parallel regions and when the clock is read", "default register tile"]),
    "C23": Spec(c23, ["the library runs with the core count it was configured for", "core counts 1..32 and 24 larger ones (1..256 and seven larger ones in the thorough tier)", "sizes up to 2^30"]),
    "C24": Spec(c24, ["every host thread has its own context and outputs; inputs may be shared", "under ThreadSanitizer each call's own parallel regions run with a team of one (C05 covers races inside a call)",
                      "inline assembly is not seen by ThreadSanitizer"]),
    "C25": Spec(c25, [SHIM, "failures of malloc, calloc, posix_memalign, realloc, aligned_alloc and popen are injected; a call may end the process by exiting unsuccessfully, abort() or using a null pointer"]),
    "C26": Spec(simple("C26.cpp"), [SHIM, "caches that hold at least one register tile; the L3 budget is checked when the L2 tile is no larger than the L3 tile and p <= cores (otherwise the planner trades it for bandwidth)"]),
    "C27": Spec(simple("C27.cpp", "asan"), [SHIM]),
    "C28": Spec(simple("C28.cpp"), [SHIM, "what is printed is read as blank-separated words and lines; spacing and wording around them is free"]),
    "C29": Spec(simple("C29.cpp"), [SHIM, "schedules outside the enumeration are integers converted to its type"]),
    "C19": Spec(c19, [SHIM, "libtorch is not installed: the extension is compiled against a stub with libtorch's tensor semantics (strides, views, reshape rules, ownership)",
                      "two-dimensional, non-empty inputs", "cache sizes that hold at least one register tile"]),
    "C12": Spec(c12, [SHIM, "NEON intrinsics replaced by portable code with the same lane semantics; no ARM compiler or hardware is used",
                      "the BLIS packing option is checked at its own register tile, 8x12"]),
}
