"""P03: assembling a distributed array (gather, allgather, block transpose, mapped lists)."""

import numpy as np

from vp.harness import Harness
from . import mpicommon as mc
from .p02 import DT, shape_of

ASSUMPTIONS = [
    "simulated communicator (both eager and rendezvous completion of sends, early and late "
    "buffer reads); sampled paths and counterexamples re-run under real mpirun",
    "elements are opaque distinct tokens",
    "mapping: methods 'con' and 'alt' and 'rand' excluded from the claim ('rand' draws a "
    "different permutation on every rank)",
]

LAYOUTS = ["plain", "T", "fortran", "step", "index"]


# ---- gather / allgather -----------------------------------------------------------------


def g_setup(ctx):
    shape = shape_of(ctx)
    a0 = ctx.concretize(ctx.int("axis", 0, len(shape) - 1))
    dt = ctx.choose("dtype", ctx.params["dtypes"])
    layout = ctx.choose("layout", ctx.params["layouts"])
    root = ctx.concretize(ctx.int("root", 0, ctx.params["n"] - 1))
    return dict(shape=shape, axis=a0, dt=dt, layout=layout, root=root)


def derive(a, axis, layout):
    """Apply a public operation that gives the local memory another layout."""
    if layout == "T":
        return a.transpose()
    if layout == "step":
        other = [i for i in range(a.ndim) if i != axis][0]
        sl = [slice(None)] * a.ndim
        sl[other] = slice(None, None, 2)
        return a[tuple(sl)]
    if layout == "index":
        other = [i for i in range(a.ndim) if i != axis][-1]
        if a.shape[other] == 0:
            return a
        sl = [slice(None)] * a.ndim
        sl[other] = 0
        return a[tuple(sl)]
    return a


def gderive(g, axis, layout):
    r = derive(g, axis, layout)
    ax = axis
    if layout == "T":
        ax = g.ndim - 1 - axis
    if layout == "index" and r.ndim != g.ndim:
        other = [i for i in range(g.ndim) if i != axis][-1]
        ax = axis - (other < axis)
    return r, ax


def g_rank(ctx, comm, inp):
    g = mc.glob(inp["shape"], DT[inp["dt"]])
    a = mc.make(g, inp["axis"], comm, "F" if inp["layout"] == "fortran" else "C")
    a = derive(a, inp["axis"], inp["layout"])
    x = a.gather(inp["root"])
    y = a.allgather()
    return (None if x is None else (type(x).__name__, np.array(x))), np.array(y)


def g_final(ctx, res, inp):
    vals = mc.all_ok(ctx, res, "gather")
    g = mc.glob(inp["shape"], DT[inp["dt"]])
    want, _ = gderive(g, inp["axis"], inp["layout"])
    for r, (x, y) in enumerate(vals):
        if r == inp["root"]:
            ctx.check(x is not None, "gather returns the array on the root")
            ctx.check(mc.same(x[1], want), "gather: global contents", got=x[1].tolist(),
                      want=want.tolist())
        else:
            ctx.check(x is None, "gather returns nothing elsewhere")
        ctx.check(mc.same(y, want), "allgather: global contents", rank=r, got=y.tolist(),
                  want=want.tolist())
    ctx.reach("gathered")


# ---- gather_local -------------------------------------------------------------------------


def l_setup(ctx):
    shape = shape_of(ctx)
    axis = ctx.concretize(ctx.int("axis", 0, len(shape) - 1))
    root = ctx.concretize(ctx.int("root", 0, ctx.params["n"] - 1))
    layout = ctx.choose("layout", ["C", "F"])
    return dict(shape=shape, axis=axis, root=root, layout=layout)


def l_rank(ctx, comm, inp):
    from caput.util import mpitools

    g = mc.glob(inp["shape"])
    s, e = mc.ref_split(g.shape[inp["axis"]], comm.size)[comm.rank]
    loc = np.array(mc.local_of(g, inp["axis"], comm), order=inp["layout"])
    start = [0] * g.ndim
    start[inp["axis"]] = s
    out = np.full(g.shape, -1, dtype=g.dtype) if comm.rank == inp["root"] else None
    if comm.size == 1:
        out = np.full(g.shape, -1, dtype=g.dtype)
    mpitools.gather_local(out, loc, tuple(start), root=inp["root"], comm=comm)
    return out


def l_final(ctx, res, inp):
    vals = mc.all_ok(ctx, res, "gather of local sections")
    g = mc.glob(inp["shape"])
    out = vals[inp["root"]]
    ctx.check(mc.same(out, g), "sections land at their global position", got=out.tolist(),
              want=g.tolist())
    ctx.reach("sections")


# ---- transpose_blocks ---------------------------------------------------------------------


def t_setup(ctx):
    nd = ctx.params["ndim"]
    shape = tuple(
        ctx.concretize(ctx.int(f"d{k}", ctx.params.get("dmin", 0), ctx.params["dmax"]))
        for k in range(nd)
    )
    return dict(shape=shape)


def t_rank(ctx, comm, inp):
    from caput.util import mpitools

    g = mc.glob(inp["shape"])
    loc = np.array(mc.local_of(g, 0, comm))
    return np.array(mpitools.transpose_blocks(loc, inp["shape"], comm=comm))


def t_final(ctx, res, inp):
    vals = mc.all_ok(ctx, res, "block transpose")
    g = mc.glob(inp["shape"])
    n = len(vals)
    for r, v in enumerate(vals):
        s, e = mc.ref_split(g.shape[-1], n)[r]
        ctx.check(mc.same(v, g[..., s:e]), "column block of the global matrix", rank=r,
                  got=v.tolist(), want=g[..., s:e].tolist())
    ctx.reach("transposed")


# ---- parallel_map -------------------------------------------------------------------------


def m_setup(ctx):
    N = ctx.concretize(ctx.int("N", 0, ctx.params["L"]))
    method = ctx.choose("method", ["con", "alt"])
    root = ctx.choose("root", [None, *range(ctx.params["n"])])
    return dict(N=N, method=method, root=root)


def m_rank(ctx, comm, inp):
    from caput.util import mpitools

    calls = []

    def f(x):
        calls.append(x)
        return ("res", x[0])

    items = [(k * 7 % 5, k) for k in range(inp["N"])]
    out = mpitools.parallel_map(f, items, root=inp["root"], method=inp["method"], comm=comm)
    return out, calls


def m_final(ctx, res, inp):
    vals = mc.all_ok(ctx, res, "parallel map")
    items = [(k * 7 % 5, k) for k in range(inp["N"])]
    want = [("res", x[0]) for x in items]
    allcalls = []
    for r, (out, calls) in enumerate(vals):
        allcalls += calls
        if inp["root"] is None or inp["root"] == r:
            ctx.check(out is not None and list(out) == want, "results in list order", rank=r,
                      got=out, want=want)
        else:
            ctx.check(out is None, "no result elsewhere")
    ctx.check(sorted(allcalls) == sorted(items), "function applied once per item",
              calls=allcalls)
    ctx.reach("mapped")


def harnesses(tier):
    big = tier == "thorough"
    hs = []

    def add(name, n, setup, rank, final, reach, **p):
        p["n"] = n
        hs.append(Harness(name, nranks=n, setup=setup, rank=rank, final=final, params=p,
                          reach=reach, samples=4, weight=n,
                          bounds=f"{n} ranks, {({k: v for k, v in p.items()})}"))

    for n in (1, 2, 3, 4):
        add(f"gather_r{n}_2d", n, g_setup, g_rank, g_final, ["gathered"], ndim=2,
            dmax=5 if big else 4, dtypes=["i8"], layouts=LAYOUTS)
    for n in (2, 3):
        add(f"gather_r{n}_3d", n, g_setup, g_rank, g_final, ["gathered"], ndim=3,
            dmax=3 if big else 2, dtypes=["i8"], layouts=LAYOUTS)
    add("gather_dtypes", 2, g_setup, g_rank, g_final, ["gathered"], ndim=2, dmax=3,
        dtypes=["f4", "c16", "rec", "S3"], layouts=LAYOUTS)
    add("gather_async", 3, g_setup, g_rank, g_final, ["gathered"], ndim=2, dmax=3,
        dtypes=["i8"], layouts=["plain", "T"], **{"async": True})
    for n in (1, 2, 3):
        add(f"sections_r{n}", n, l_setup, l_rank, l_final, ["sections"], ndim=2, dmax=4)
    add("sections_async", 3, l_setup, l_rank, l_final, ["sections"], ndim=3, dmax=2,
        **{"async": True})
    for n in (1, 2, 3, 4):
        add(f"tblocks_r{n}", n, t_setup, t_rank, t_final, ["transposed"], ndim=2,
            dmax=6 if big else 4)
    add("tblocks_3d", 3, t_setup, t_rank, t_final, ["transposed"], ndim=3, dmax=3,
        **{"async": True})
    for n in (1, 2, 3, 4):
        add(f"map_r{n}", n, m_setup, m_rank, m_final, ["mapped"], L=9)
    return hs
