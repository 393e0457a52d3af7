"""P26: random numbers fill every element once, reproducibly, from independent streams.

The real parallel method runs with a symbolic number of elements and stand-ins for the array and
the generators: the solver decides that every element belongs to exactly one part and every part
to its own generator. The real generator then runs, for every method and form of call (sizes,
types, output arrays of any layout, parameters), under every order in which its threads may run:
shape, type and refusals must be those of numpy, all elements must be filled with values of their
own, and the numbers must be the same in every order. Tasks with random numbers run on several ranks.
"""

import concurrent.futures
import itertools
import threading
import warnings

import numpy as np

from vp import engine, symslice
from vp.harness import Harness

ASSUMPTIONS = [
    "up to 8 (thorough 16) threads; up to 10^6 elements in the partition, up to 1400 in real arrays",
    "the quality of the numbers is numpy's; streams of different seeds do not repeat each other's values",
]


# ------------------------------------------------------------------ partition


class Part:
    def __init__(self, s):
        self.s = s
        self.dtype = np.dtype(np.float64)

    def __len__(self):
        raise engine.Skip("length of a part")


class Arr:
    """A contiguous array of symbolic length, which only remembers how it is cut."""

    dtype = np.dtype(np.float64)
    ndim = 1
    flags = type("F", (), {"c_contiguous": True, "f_contiguous": True, "contiguous": True, "forc": True})()

    def __init__(self, n):
        self.n = self.size = n
        self.shape = (n,)

    def ravel(self, *a, **k):
        return self

    def reshape(self, *a, **k):
        return self

    def view(self, *a, **k):
        return self

    def __getitem__(self, s):
        return Part(s)


class NP:
    """numpy, except for what would need the number of elements."""

    def __init__(self, sink):
        def random(gen, *a, **k):
            """Random."""
            return sink(gen, *a, **k)

        self.random = type("R", (), {"Generator": type("Generator", (), {"random": random}), "SFC64": np.random.SFC64})

    def prod(self, x, **k):
        x = x[0] if isinstance(x, tuple) else x
        return x

    def empty(self, n, dtype=None, **k):
        return Arr(n[0] if isinstance(n, tuple) else n)

    def ceil(self, x):
        return x.ceil() if hasattr(x, "ceil") else np.ceil(x)

    def floor(self, x):
        return x.floor() if hasattr(x, "floor") else np.floor(x)

    def isscalar(self, x):
        return not isinstance(x, (np.ndarray, list, tuple))

    def __getattr__(self, k):
        return getattr(np, k)


class Int(int):
    """int(), leaving symbolic numbers symbolic."""

    def __new__(cls, x=0, *a):
        if type(x) is engine.SymReal:
            return x.__trunc__()
        if type(x) is engine.SymInt:
            return x
        return int(x, *a)


class Inline:
    def submit(self, fn, *a, **k):
        f = concurrent.futures.Future()
        try:
            f.set_result(fn(*a, **k))
        except Exception as e:
            f.set_exception(e)
        return f

    def map(self, fn, *its):
        return iter([fn(*a) for a in zip(*its)])

    def shutdown(self, *a, **k):
        pass


def partition(ctx):
    from caput.algorithms import random

    nt = ctx.params["threads"]
    size = ctx.int("size", 0, 10**6)
    k = ctx.int("k", 0, 10**6)
    ctx.assume(k < size)
    parts, whole = [], []

    def sink(gen, *a, out=None, **kw):
        if out is None:
            whole.append(a)
            return Arr(size)
        parts.append((gen, out))
        return out

    try:
        rng = random.MultithreadedRNG(seed=1, threads=nt)
        old = {n: random.__dict__.get(n, engine) for n in ("np", "int")}
        random.np, random.int = NP(sink), Int
        try:
            with symslice.patched(random):
                rng._executor = Inline()
                call = rng._build_method("random", 0, np.float64, True, True)
                got = call(size)
        finally:
            for n, o in old.items():
                if o is engine:
                    del random.__dict__[n]
                else:
                    setattr(random, n, o)
    except (AttributeError, TypeError, RuntimeError) as e:
        raise engine.Skip(f"the partition is written in another way: {e}") from None
    if whole:
        ctx.check(len(whole) == 1 and not parts, "a small array was generated twice")
        ctx.reach("small")
        return
    if not all(type(p) is Part and type(p.s) in (slice, symslice.SymSlice) for _, p in parts):
        raise engine.Skip("the array is cut in another way")
    ctx.check(len({id(g) for g, _ in parts}) == len(parts), "a generator fills two parts at once")
    inside = [symslice.contains(ctx, p.s, size, k) for _, p in parts]
    ctx.check(ctx.Or(*inside), "an element belongs to no part", threads=nt)
    for a, b in itertools.combinations(inside, 2):
        ctx.check(ctx.Not(ctx.And(a, b)), "an element belongs to two parts", threads=nt)
    ctx.reach("parts")


# ------------------------------------------------------------------ real generators


class Turns(concurrent.futures.ThreadPoolExecutor):
    """Runs the tasks submitted to it one after another, in the order given."""

    def __init__(self, n, order):
        super().__init__(n)
        self.order, self.n, self.at = list(order), 0, 0
        self.cond = threading.Condition()

    def submit(self, fn, *a, **k):
        me = self.n
        self.n += 1

        def run():
            with self.cond:
                self.cond.wait_for(lambda: self.order[self.at % len(self.order)] == me % len(self.order), timeout=2)
            try:
                return fn(*a, **k)
            finally:
                with self.cond:
                    self.at += 1
                    self.cond.notify_all()

        return super().submit(run)


SIZES = [None, 3, 999, 1000, 1003, (4, 251), (3, 1, 350), [2, 600], (0,), ()]


def attempt(fn):
    try:
        return fn(), None
    except (TypeError, ValueError, RuntimeError) as e:
        return None, e


def make(seed, nt, order=None):
    from caput.algorithms.random import MultithreadedRNG

    g = MultithreadedRNG(seed, threads=nt)
    if order is not None and hasattr(g, "_executor"):
        g._executor.shutdown(False)
        g._executor = Turns(nt, order)
    return g


def filled(ctx, name, x, dt):
    """Every element is one of the distribution's values, and its own."""
    x = np.asarray(x)
    if name == "poisson":
        ctx.check(((x > 900000) & (x < 1100000)).all(), "an element is no such number", method=name)
        return
    lo, hi = {"random": (0, 1), "uniform": (2, 5), "normal": (40, 60), "standard_normal": (-9, 9), "power": (0, 1),
              "integers": (10, 10**15 + 10)}[name]
    ctx.check(np.isfinite(x).all() and (x >= lo).all() and (x <= hi).all(), "an element is no such number", method=name,
              got=str(x.ravel()[:3]))
    if x.dtype == np.float32:
        ctx.check(len(np.unique(x)) > 0.9 * x.size, "elements are repeated", method=name, size=x.size)
    else:
        ctx.check(len(np.unique(x)) == x.size, "elements are repeated", method=name, size=x.size, got=len(np.unique(x)))


PARAMS = {"random": [], "integers": [10, 10**15], "uniform": [2.0, 5.0], "normal": [50.0, 1.0], "standard_normal": [],
          "poisson": [10**6], "power": [3.0]}
NAMES = {"integers": ["low", "high"], "uniform": ["low", "high"], "normal": ["loc", "scale"], "poisson": ["lam"], "power": ["a"]}


def calls(ctx):
    warnings.simplefilter("ignore")
    name = ctx.params["method"]
    size = ctx.choose("size", SIZES)
    nt = ctx.choose("threads", [1, 2, 3, 7])
    pf = ctx.choose("params", ["positional", "keyword", "default", "array"]) if PARAMS[name] else "positional"
    sf = ctx.choose("size-form", ["positional", "keyword"]) if pf == "positional" else "keyword"
    args, kw = list(PARAMS[name]), {}
    if pf == "keyword":
        kw, args = dict(zip(NAMES[name], args)), []
    elif pf == "default":
        if name in ("poisson", "power", "integers"):
            args = args[-1:]
        elif name != "normal":
            args = args[:1]
    elif pf == "array":
        args = [np.full((size if size is not None else 4) if not isinstance(size, list) else tuple(size), args[0]), *args[1:]]
    has_dt = name in ("random", "standard_normal", "integers")
    dt = ctx.choose("dtype", [None, np.float32 if name != "integers" else np.uint64]) if has_dt and pf != "array" else None
    if sf == "positional":
        args.append(size)
        if dt is not None and bool(ctx.bool("dtype-positional")):
            args.append(dt)
            dt = None
            if name == "integers" and bool(ctx.bool("endpoint")):
                args = [7, 7, size, args[-1], True]
    elif size is not None:
        kw["size"] = size
    if dt is not None:
        kw["dtype"] = dt
    ref, e0 = attempt(lambda: getattr(np.random.Generator(np.random.SFC64(5)), name)(*args, **kw))
    a, e1 = attempt(lambda: getattr(make(5, nt), name)(*args, **kw))
    if e0 is not None:
        ctx.check(e1 is not None, "a call numpy refuses was accepted", method=name, kw=repr(kw), e0=repr(e0))
        ctx.reach("refused")
        return
    ctx.check(e1 is None, "a call numpy accepts was refused", method=name, size=size, pf=pf, got=repr(e1))
    ctx.check(np.shape(a) == np.shape(ref) and np.asarray(a).dtype == np.asarray(ref).dtype, "another shape or type than numpy's",
              method=name, size=size, got=(np.shape(a), str(np.asarray(a).dtype)), want=(np.shape(ref), str(np.asarray(ref).dtype)))
    if len(args) == 5:
        ctx.check((np.asarray(a) == 7).all(), "not the numbers asked for", method=name)
    elif pf not in ("default",) and np.size(a):
        filled(ctx, name, a, dt)
    b, _ = attempt(lambda: getattr(make(5, nt), name)(*args, **kw))
    ctx.check(np.array_equal(a, b), "the same seed gives other numbers", method=name)
    c, _ = attempt(lambda: getattr(make(6, nt), name)(*args, **kw))
    if np.size(a) > 10 and pf != "default" and len(args) != 5:
        ctx.check(not np.any(np.asarray(a) == np.asarray(c)) or name in ("poisson",) or np.asarray(a).dtype == np.float32,
                  "another seed gives the same numbers", method=name)
    ctx.reach("done")


def outputs(ctx):
    """Output arrays given by the caller."""
    warnings.simplefilter("ignore")
    name = ctx.choose("method", ["random", "standard_normal"])
    nt = ctx.choose("threads", [1, 3])
    shape = ctx.choose("shape", [(5,), (1001,), (7, 150), (2, 3, 200), (0, 4)])
    lay = ctx.choose("layout", ["C", "F", "strided", "reversed", "readonly", "none", "offset"])
    dt = ctx.choose("dtype", [np.float64, np.float32])
    how = ctx.choose("how", ["keyword", "keyword+size", "keyword+wrong", "positional"])
    pass_dt = bool(ctx.bool("pass-dtype"))

    def mk():
        big = np.full(tuple(2 * n for n in shape), -100.0, dtype=dt)
        if lay == "strided":
            return big, big[tuple(slice(0, 2 * n, 2) for n in shape)]
        if lay == "offset":
            flat = big.reshape(-1)
            return big, flat[3:3 + int(np.prod(shape))].reshape(shape) if np.prod(shape) + 3 <= flat.size else flat[:int(np.prod(shape))].reshape(shape)
        x = np.full(shape, -100.0, dtype=dt, order="F" if lay == "F" else "C")
        if lay == "readonly":
            x.flags.writeable = False
        return x, (x[::-1] if lay == "reversed" else None if lay == "none" else x)

    def call(g, out):
        d = dt if pass_dt else np.float64
        if how == "positional":
            return getattr(g, name)(shape if out is None else None, d, out)
        kw = {"dtype": d} if pass_dt else {}
        if how == "keyword+size" or out is None:
            kw["size"] = shape
        if how == "keyword+wrong":
            kw["size"] = (*shape[:-1], shape[-1] + 1)
        return getattr(g, name)(out=out, **kw)

    base0, out0 = mk()
    ref, e0 = attempt(lambda: call(np.random.Generator(np.random.SFC64(5)), out0))
    base, out = mk()
    got, e1 = attempt(lambda: call(make(5, nt), out))
    if e0 is not None:
        ctx.check(e1 is not None, "an output array numpy refuses was accepted", layout=lay, how=how, shape=shape, e0=repr(e0))
        ctx.check(not np.any(base != -100.0), "a refused output array was written to")
        ctx.reach("refused")
        return
    ctx.check(e1 is None, "an output array numpy accepts was refused", layout=lay, how=how, shape=shape, got=repr(e1))
    ctx.check(got.shape == ref.shape and got.dtype == ref.dtype, "another shape or type", got=got.shape, want=ref.shape)
    if out is None:
        if got.size:
            filled(ctx, name, got, dt)
        ctx.reach("done")
        return
    ctx.check(got is out or np.shares_memory(got, out) or out.size == 0, "another array is returned")
    if out.size:
        filled(ctx, name, out, dt)
    ctx.check(int((base != -100.0).sum()) == out.size, "elements outside the output array were written",
              got=int((base != -100.0).sum()), want=out.size)
    ctx.reach("done")


def orders(ctx):
    """Every order of the threads gives the same numbers."""
    nt = ctx.params["threads"]
    name = ctx.choose("method", ["random", "normal", "integers", "poisson"])
    size = ctx.choose("size", [1000, (3, 401)])
    perms = list(itertools.permutations(range(nt)))
    p = perms[ctx.concretize(ctx.int("order", 0, len(perms) - 1))]
    a = make(3, nt)
    b = make(3, nt, p)
    for i in range(2):
        x, y = (getattr(g, name)(*PARAMS[name], size=size) for g in (a, b))
        ctx.check(np.array_equal(x, y), "the numbers depend on the order of the threads", order=p, method=name, call=i)
        if i == 0:
            first = x
        else:
            ctx.check(not np.array_equal(first, x), "the second call gives the same numbers")
    ctx.reach("done")


# ------------------------------------------------------------------ tasks


def t_setup(ctx):
    return dict(seed=ctx.choose("seed", [None, 0, 1, 12345678901]), threads=ctx.choose("threads", [None, 1, 2]),
                name=ctx.choose("name", ["Alpha", "Beta"]))


def t_rank(ctx, comm, inp):
    import logging

    from caput.pipeline.tasklib.random import RandomTask

    logging.disable(logging.CRITICAL)

    def build(name, seed, c=comm):
        T = type(name, (RandomTask,), {"comm": property(lambda s: c, lambda s, v: None)})
        cfg = {k: v for k, v in (("seed", seed), ("threads", inp["threads"])) if v is not None}
        return T._from_config(cfg)

    t = build(inp["name"], inp["seed"])
    seed = t.local_seed
    ok = t.rng is t.rng and t.local_seed == seed
    x = t.rng.random(1200)
    again = build(inp["name"], inp["seed"])
    other = build("Gamma", inp["seed"])
    return dict(seed=int(seed), ok=ok, x=x, again=int(again.local_seed), y=again.rng.random(1200), other=int(other.local_seed),
                z=other.rng.random(1200))


def t_final(ctx, results, inp):
    from props import mpicommon as mc

    vals = mc.all_ok(ctx, results, "the task")
    ctx.check(all(v["ok"] for v in vals), "the generator changes between uses")
    ctx.check(len({v["seed"] for v in vals}) == len(vals), "ranks share a seed", got=[v["seed"] for v in vals])
    allx = np.concatenate([v["x"] for v in vals])
    ctx.check(len(np.unique(allx)) == allx.size, "ranks repeat each other's numbers")
    for v in vals:
        if inp["seed"] is not None:
            ctx.check(v["seed"] == v["again"] and np.array_equal(v["x"], v["y"]), "the same seed gives other numbers in another run")
            ctx.check(v["seed"] >= inp["seed"], "the seed is not used")
        else:
            ctx.check(v["seed"] != v["again"], "unseeded tasks repeat their numbers")
        ctx.check(v["seed"] != v["other"] and not np.any(v["x"] == v["z"]), "another task gives the same numbers")
    ctx.reach("done")


def harnesses(tier):
    q = tier == "quick"
    out = []
    for t in range(1, 9 if q else 17):
        out.append(Harness(f"partition-{t}", partition, params={"threads": t}, reach=["parts"], weight=1,
                           bounds=f"any number of elements up to 10^6, {t} threads"))
    for m in PARAMS:
        out.append(Harness(f"calls-{m}", calls, params={"method": m}, reach=["done"], weight=2,
                           bounds="10 sizes, 4 numbers of threads, all forms of arguments"))
    out.append(Harness("outputs", outputs, reach=["done", "refused"], weight=3, bounds="5 shapes, 7 layouts, 2 types, 4 forms of call"))
    for t in (2, 3) if q else (2, 3, 4, 5):
        out.append(Harness(f"orders-{t}", orders, params={"threads": t}, reach=["done"], weight=2, bounds=f"all orders of {t} threads"))
    for n in (1, 2, 3) if q else (1, 2, 3, 4):
        out.append(Harness(f"tasks-{n}", setup=t_setup, rank=t_rank, final=t_final, nranks=n, reach=["done"], weight=2,
                           bounds=f"{n} ranks, 4 seeds, 2 classes"))
    return out
