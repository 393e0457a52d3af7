"""P02: redistribution moves every element to where the standard split puts it."""

import numpy as np

from vp.harness import Harness
from . import mpicommon as mc

ASSUMPTIONS = [
    "simulated communicator (vp/mpisim.py) for exploration; sampled paths and every "
    "counterexample re-run under real mpirun",
    "elements are opaque tokens (all distinct): the code moves elements without inspecting them",
    "non-negative axis numbers; enough memory (the memory query is stubbed to succeed)",
]

DT = {"i8": np.int64, "f4": np.float32, "c16": np.complex128,
      "rec": np.dtype([("a", np.int32), ("b", np.float64)]), "S3": "S3"}


def shape_of(ctx):
    nd = ctx.params["ndim"]
    d = ctx.params["dmax"]
    shape = []
    for k in range(nd):
        hi = d[k] if isinstance(d, (list, tuple)) else d
        shape.append(ctx.concretize(ctx.int(f"d{k}", 0, hi)))
    return tuple(shape)


def setup(ctx):
    shape = shape_of(ctx)
    nd = len(shape)
    lo = -nd if ctx.params.get("neg") else 0
    a0 = ctx.concretize(ctx.int("from", lo, nd - 1))
    a1 = ctx.concretize(ctx.int("to", lo, nd - 1))
    dt = ctx.choose("dtype", ctx.params["dtypes"])
    order = ctx.choose("order", ctx.params.get("orders", ["C"]))
    return dict(shape=shape, a0=a0, a1=a1, dt=dt, order=order)


def rank(ctx, comm, inp):
    g = mc.glob(inp["shape"], DT[inp["dt"]])
    a = mc.make(g, inp["a0"], comm, inp["order"])
    b = a.redistribute(inp["a1"])
    c = b.redistribute(inp["a0"])
    src = mc.meta(a)
    return src, mc.meta(b), mc.meta(c), bool(b.flags.c_contiguous)


def final(ctx, res, inp):
    vals = mc.all_ok(ctx, res, "redistribute")
    g = mc.glob(inp["shape"], DT[inp["dt"]])
    n = len(vals)
    inp = dict(inp, a0=inp["a0"] % g.ndim, a1=inp["a1"] % g.ndim)
    for r, (src, b, c, contig) in enumerate(vals):
        mc.check_dist(ctx, src, g, inp["a0"], n, r, "source after redistribution")
        mc.check_dist(ctx, b, g, inp["a1"], n, r, "redistributed")
        mc.check_dist(ctx, c, g, inp["a0"], n, r, "redistributed back")
        if inp["a0"] != inp["a1"] and n > 1:
            ctx.check(contig, "result is C-contiguous")
    if inp["a0"] != inp["a1"]:
        ctx.reach("moved")
        if any(0 < x < n for x in inp["shape"]):
            ctx.reach("short")


class patch:
    def __enter__(self):
        import caput.util.mpitools as mt

        self.m = mt
        self.old = mt.can_allocate
        setattr(getattr(mt, "self_module", mt), "can_allocate", lambda *a, **k: True)
        mt.can_allocate = lambda *a, **k: True

    def __exit__(self, *a):
        self.m.can_allocate = self.old
        setattr(getattr(self.m, "self_module", self.m), "can_allocate", self.old)


def harnesses(tier):
    big = tier == "thorough"
    hs = []

    def add(name, n, **p):
        hs.append(Harness(name, nranks=n, setup=setup, rank=rank, final=final, patch=patch,
                          params=p, reach=["moved", "short"], samples=4,
                          bounds=f"{n} ranks, ndim {p['ndim']}, dims 0..{p['dmax']}, "
                                 f"dtypes {p['dtypes']}", weight=n * p["ndim"]))

    for n in (2, 3, 4):
        add(f"r{n}_2d", n, ndim=2, dmax=7 if big else 5, dtypes=["i8"])
        add(f"r{n}_3d", n, ndim=3, dmax=[4, 4, 3] if big else [3, 3, 2], dtypes=["i8"])
    add("r2_async", 2, ndim=2, dmax=3, dtypes=["i8"], **{"async": True})
    add("r3_async", 3, ndim=2, dmax=4, dtypes=["i8"], **{"async": True})
    add("r3_dtypes", 3, ndim=2, dmax=4, dtypes=["f4", "c16", "rec", "S3"], orders=["C", "F"])
    add("r2_neg", 2, ndim=2, dmax=3, dtypes=["i8"], neg=True)
    if big:
        add("r5_2d", 5, ndim=2, dmax=7, dtypes=["i8"])
        add("r6_2d", 6, ndim=2, dmax=8, dtypes=["i8"])
        add("r2_4d", 2, ndim=4, dmax=[2, 3, 2, 2], dtypes=["i8"])
    return hs
