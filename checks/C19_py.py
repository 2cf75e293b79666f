#!/opt/veriftools/pyvenv/bin/python3
"""python/cake.py (module and autograd function) on the real extension, with a stub torch on numpy."""
import argparse, contextlib, ctypes, importlib, json, os, random, sys, time, types
sys.dont_write_bytecode = True
import numpy as np
from hypothesis import given, settings, seed, HealthCheck, Phase, strategies as st

ARM = "python"
TREE, EXT, HW = os.environ["PY_TREE"], os.environ["PY_EXT"], os.environ["FAKE_HW"]


class T(np.ndarray):
    """numpy array with the few tensor methods the module uses; data shares the storage"""
    requires_grad = False

    @property
    def data(self):
        return self

    def uniform_(self, a=0.0, b=1.0):
        self[...] = RNG.uniform(a, b, self.shape).astype(np.float32)
        return self

    def size(self, d=None):
        return self.shape if d is None else self.shape[d]

    def t(self):
        return self.T

    def numel(self):
        return int(np.asarray(self).size)


def wrap(a):
    return np.asarray(a).view(T)


RNG = np.random.default_rng(1)


class Ctx:
    def save_for_backward(self, *ts):
        for t in ts:
            if t is not None and not isinstance(t, T):
                raise TypeError("save_for_backward can only save variables")
        self.saved_tensors = ts
    needs_input_grad = (True, True, True)


class Function:
    last = None

    @classmethod
    def apply(cls, *args):
        ctx = Ctx()
        ctx.needs_input_grad = tuple(a is not None for a in args)
        out = cls.forward(ctx, *args)
        Function.last = (cls, ctx, args)
        return out


def run_backward(g):
    cls, ctx, args = Function.last
    r = cls.backward(ctx, g)
    r = r if isinstance(r, tuple) else (r,)
    if len(r) < len(args) or any(x is not None for x in r[len(args):]):    # extra trailing Nones are allowed by torch
        raise Fail("gradients", "%d gradients for %d inputs" % (len(r), len(args)))
    return r


class Module:
    def __init__(self):
        object.__setattr__(self, "_parameters", {})

    def __setattr__(self, k, v):
        if isinstance(v, Parameter_):
            self._parameters[k] = v
        object.__setattr__(self, k, v)

    def register_parameter(self, k, v):
        self._parameters[k] = v
        object.__setattr__(self, k, v)

    def __call__(self, *a):
        return self.forward(*a)


class Parameter_(T):
    pass


def Parameter(t, requires_grad=True):
    return t.view(Parameter_)


def Tensor(*shape):
    return wrap(np.full(shape, np.nan, dtype=np.float32))


class Fail(Exception):
    def __init__(self, kind, msg):
        super().__init__(kind + ": " + msg)
        self.kind = kind


LIB = ctypes.CDLL(EXT)
fp = ctypes.POINTER(ctypes.c_float)


def ptr(a):
    return None if a is None else a.ctypes.data_as(fp)


CALLS = []


def ext(name, cache, g, x, w, b):
    for n, a in (("input", x), ("weight", w)) + ((("grad_output", g),) if name == "backward" else ()):
        if not isinstance(a, T) or a.ndim != 2 or a.dtype != np.float32:
            raise TypeError("%s(): incompatible argument %s" % (name, n))
    if not isinstance(cache, T) or (b is not None and not isinstance(b, T)):
        raise TypeError("%s(): incompatible arguments" % name)
    cs = np.ascontiguousarray(np.asarray(cache).reshape(-1), dtype=np.int32)
    CALLS.append((name, [int(v) for v in cs]))
    if cs.size < 2:
        raise RuntimeError("index out of range in the cache sizes")
    B, I, O = x.shape[0], x.shape[1], w.shape[0]
    if w.shape[1] != I or (b is not None and b.shape != (O,)) or (g is not None and g.shape != (B, O)):
        raise RuntimeError("shape mismatch in %s" % name)
    c = [None if a is None else np.ascontiguousarray(a, dtype=np.float32) for a in (g, x, w, b)]
    o1 = np.empty((B, O) if name == "forward" else (B, I), np.float32)
    o2, o3 = np.empty((O, I), np.float32), np.empty((O,), np.float32)
    msg = ctypes.create_string_buffer(256)
    rc = LIB.ext_call(name.encode(), int(cs.size), cs.ctypes.data_as(ctypes.POINTER(ctypes.c_int)), *[ptr(a) for a in c], B, I, O, ptr(o1), ptr(o2), ptr(o3), msg)
    if rc:
        raise RuntimeError("extension: %s" % (msg.value.decode() or "results of the wrong shape"))
    return wrap(o1) if name == "forward" else [wrap(o1), wrap(o2), wrap(o3) if b is not None else None]


def install():
    torch = types.ModuleType("torch")
    torch.Tensor, torch.int32, torch.float32, torch.int, torch.float, torch.int64, torch.long = Tensor, np.int32, np.float32, np.int32, np.float32, np.int64, np.int64
    torch.tensor = lambda v, dtype=None: wrap(np.array(v, dtype=dtype))
    torch.IntTensor = lambda v: wrap(np.array(v, dtype=np.int32))
    torch.empty = lambda *s, **k: Tensor(*(s[0] if len(s) == 1 and not isinstance(s[0], int) else s))
    torch.zeros = lambda *s, **k: torch.empty(*s) * 0 if False else wrap(np.zeros(s[0] if len(s) == 1 and not isinstance(s[0], int) else s, np.float32))
    torch.no_grad = contextlib.nullcontext
    nn, F, ag, init = (types.ModuleType("torch." + n) for n in ("nn", "nn.functional", "autograd", "nn.init"))
    nn.Module, nn.Parameter, nn.functional, nn.init = Module, Parameter, F, init
    init.uniform_ = lambda t, a=0.0, b=1.0: t.uniform_(a, b)
    ag.Function, ag.Variable = Function, lambda x, **k: x
    torch.nn, torch.autograd = nn, ag
    lin = types.ModuleType("linear_cpp")
    lin.forward = lambda cs, x, w, b: ext("forward", cs, None, x, w, b)
    lin.backward = lambda cs, g, x, w, b: ext("backward", cs, g, x, w, b)
    for n, m in (("torch", torch), ("torch.nn", nn), ("torch.nn.functional", F), ("torch.autograd", ag), ("torch.nn.init", init), ("linear_cpp", lin)):
        sys.modules[n] = m
    sys.path.insert(0, TREE + "/python")


def human(n):
    """a size as lscpu prints it: at most one decimal"""
    for u, s in (("G", 30), ("M", 20), ("K", 10)):
        if n >= 1 << s:
            v = n / (1 << s)
            return ("%d%s" % (v, u)) if v == int(v) else "%.1f%s" % (v, u)
    return "%d" % n


UNITS = st.one_of(st.sampled_from([256 << 10, 512 << 10, 1 << 20, 1280 << 10, 2 << 20, 1536 << 10, 3 << 19]), st.integers(2, 4096).map(lambda k: k << 10))
UNITS = UNITS.filter(lambda n: (n % (1 << 20) == 0) or n < (1 << 20) or (n * 10) % (1 << 20) == 0)
CASE = st.fixed_dictionaries(dict(
    L2=UNITS, L3=st.one_of(UNITS, st.integers(2, 1000).map(lambda m: m << 20), st.just(1 << 30)), cores=st.integers(1, 16),
    batch=st.integers(1, 24), inf=st.integers(1, 40), outf=st.integers(1, 40), bias=st.booleans(), scale=st.sampled_from([0, 1]), seed=st.integers(0, 2 ** 31),
    steps=st.lists(st.sampled_from(["fwd", "bwd", "bwd", "update"]), min_size=1, max_size=6), kw=st.booleans()))
S = dict(n=0, nt=set(), samples=[], labels={}, max=0.0)


def write_hw(c):
    caches = [("L1d", 32 << 10, c["cores"] * 32 << 10), ("L1i", 32 << 10, c["cores"] * 32 << 10), ("L2", c["L2"], c["L2"] * c["cores"]), ("L3", c["L3"], c["L3"])]
    # ALL-SIZE sums over instances; one L3 instance here
    for f, k in (("caches_one", 1), ("caches_all", 2)):
        with open(HW + "/" + f, "w") as o:
            o.write("NAME %s-SIZE\n" % ("ONE" if k == 1 else "ALL") + "".join("%-4s %12s\n" % (x[0], human(x[k])) for x in caches))


def want(c, a, b, mag):
    return np.asarray(a, np.float64), np.asarray(b, np.float64), mag


def close(what, got, ref, mag, k, exact):
    if not isinstance(got, T) or got.shape != ref.shape:
        raise Fail("wrong shape", "%s has shape %s, expected %s" % (what, getattr(got, "shape", None), ref.shape))
    tol = 0 if exact else mag * (k + 4) * 6e-8
    bad = ~(np.abs(np.asarray(got, np.float64) - ref) <= tol)
    if bad.any():
        i = tuple(int(v) for v in np.argwhere(bad)[0])
        raise Fail("wrong value", "%s%s is %r, expected %r" % (what, list(i), float(got[i]), float(ref[i])))


def check(c):
    t0 = time.process_time()
    S["n"] += 1
    global RNG
    RNG = np.random.default_rng(c["seed"])
    write_hw(c)
    sys.modules.pop("cake", None)
    cake = importlib.import_module("cake")
    CALLS.clear()
    exact = c["scale"] == 0
    data = (lambda *s: wrap(RNG.integers(-5, 6, s).astype(np.float32))) if exact else (lambda *s: wrap(RNG.standard_normal(s).astype(np.float32)))
    m = cake.cake_linear(input_features=c["inf"], output_features=c["outf"], bias=c["bias"]) if c["kw"] or not c["bias"] else cake.cake_linear(c["inf"], c["outf"])
    if m.weight.shape != (c["outf"], c["inf"]) or (m.bias is not None) != c["bias"] or (c["bias"] and m.bias.shape != (c["outf"],)):
        raise Fail("parameters", "weight %s, bias %s" % (m.weight.shape, None if m.bias is None else m.bias.shape))
    if set(m._parameters) != {"weight", "bias"}:
        raise Fail("parameters", "registered parameters %s" % sorted(m._parameters))
    for n, q in (("weight", m.weight), ("bias", m.bias)):
        if q is not None and not (np.abs(np.asarray(q)) <= 0.1).all():
            raise Fail("parameters", "%s is not initialised within [-0.1, 0.1]" % n)
    def redraw():
        m.weight[...] = data(c["outf"], c["inf"])
        if c["bias"]:
            m.bias[...] = data(c["outf"])
    redraw()
    f64 = lambda a: np.asarray(a, np.float64)
    x = None
    for s in c["steps"]:
        if s == "update":
            redraw()
            continue
        x = data(c["batch"], c["inf"])
        w, b = m.weight, m.bias
        keep = [np.array(v) for v in (x, w) + ((b,) if b is not None else ())]
        y = m(x)
        ref, mag = f64(x) @ f64(w).T, np.abs(f64(x)) @ np.abs(f64(w)).T
        if b is not None:
            ref, mag = ref + f64(b), mag + np.abs(f64(b))
        close("output", y, ref, mag, c["inf"], exact)
        if s == "bwd":
            g = data(c["batch"], c["outf"]); gk = np.array(g)
            gx, gw, gb = run_backward(g)[:3]
            close("grad_input", gx, f64(g) @ f64(w), np.abs(f64(g)) @ np.abs(f64(w)), c["outf"], exact)
            close("grad_weight", gw, f64(g).T @ f64(x), np.abs(f64(g)).T @ np.abs(f64(x)), c["batch"], exact)
            if b is None:
                if gb is not None:
                    raise Fail("gradients", "a bias gradient without a bias")
            else:
                close("grad_bias", gb, f64(g).sum(0), np.abs(f64(g)).sum(0), c["batch"], exact)
            if not np.array_equal(g, gk):
                raise Fail("input modified", "grad_output")
        for v, k in zip((x, w) + ((b,) if b is not None else ()), keep):
            if not np.array_equal(v, k):
                raise Fail("input modified", "an argument of the module changed")
    for n, cs in CALLS:
        if len(cs) < 2 or cs[0] != c["L2"] or cs[1] != c["L3"]:
            raise Fail("cache sizes", "%s was given cache sizes %s on a machine with L2 %d, L3 %d" % (n, cs, c["L2"], c["L3"]))
    if CALLS and min(c["batch"], c["inf"], c["outf"]) > 1 and len({c["batch"], c["inf"], c["outf"]}) > 1:
        S["nt"].add(json.dumps(c, sort_keys=True))
        if len(S["samples"]) < 8:
            S["samples"].append("[python] " + json.dumps(c))
    for k in set(c["steps"]):
        S["labels"][k] = S["labels"].get(k, 0) + 1
    S["max"] = max(S["max"], time.process_time() - t0)


def main():
    ap = argparse.ArgumentParser()
    for a in ("--tier", "--seed", "--out", "--scratch", "--workers", "--scale", "--budget", "--only", "--replay"):
        ap.add_argument(a)
    a = ap.parse_args()
    install()
    os.makedirs(HW, exist_ok=True)
    if a.replay:
        lines = open(a.replay).read().split("\n")
        if "arm " + ARM not in lines:
            return 44
        c = json.loads([l for l in lines if l.startswith("json ")][0][5:])
        try:
            check(c)
        except Exception as e:
            print("replay arm=%s\n  case: %s\n  %s: %s" % (ARM, json.dumps(c), type(e).__name__, e))
            return 1
        print("replay arm=%s: holds" % ARM)
        return 0
    t0 = time.time()
    n = max(1, int((400 if a.tier != "thorough" else 20000) * float(a.scale or 1)))
    last = {}

    if not (a.only and ARM not in a.only):
        @seed(int(a.seed or 1))
        @settings(max_examples=n, database=None, deadline=None, derandomize=False, suppress_health_check=list(HealthCheck), phases=[Phase.generate, Phase.shrink], report_multiple_bugs=False, print_blob=False)
        @given(CASE)
        def prop(c):
            try:
                check(c)
            except Exception as e:
                last["c"], last["e"] = c, e
                raise
        try:
            prop()
        except BaseException as e:
            if "c" not in last:
                raise
    vio = 1 if "c" in last else 0
    json.dump(dict(evaluations=S["n"], distinct_nontrivial=len(S["nt"]), nontrivial_total=len(S["nt"]), discarded=0, excluded_known=0, planned=n, budget_hit=False, violations=vio,
                   max_case_cpu_ms=int(S["max"] * 1000), wall_s=round(time.time() - t0, 2), samples=S["samples"], arms={ARM: S["n"]}, labels=S["labels"],
                   rule="[python] a case imports python/cake.py on a described machine and runs a history of forward, backward and parameter updates of cake_linear; non-trivial = at least one call, sizes above 1 and not all equal"), open(a.out, "w"))
    if vio:
        msg = "%s: %s" % (type(last["e"]).__name__, last["e"])
        print("  minimal case: %s\n  %s" % (json.dumps(last["c"]), msg))
        with open(a.out + ".replay", "w") as f:
            f.write("arm %s\njson %s\nmessage %s\n" % (ARM, json.dumps(last["c"]), msg))
    return vio


sys.exit(main())
