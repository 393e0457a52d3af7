"""P05: arrays derived from a distributed array describe their own distribution correctly."""

import itertools

import numpy as np

from vp.harness import Harness
from . import mpicommon as mc

ASSUMPTIONS = [
    "2- and 3-dimensional arrays, distributed axis indexed with a full slice or ellipsis "
    "(indexing into the distributed axis itself is deprecated and outside the claim)",
    "elements are opaque distinct tokens; non-negative distributed axis number",
    "simulated communicator for exploration, real mpirun for validation and replay",
]


def _shape(ctx):
    nd = ctx.params["ndim"]
    axis = ctx.concretize(ctx.int("axis", 0, nd - 1))
    D = ctx.concretize(ctx.int("D", 0, ctx.params["dmax"]))
    shape = [2, 3, 4][:nd]
    shape[axis] = D
    return tuple(shape), axis


def compare(ctx, vals, want, waxis, what, n):
    for r, m in enumerate(vals):
        if want.ndim == 0:
            continue
        mc.check_dist(ctx, m, want, waxis, n, r, what)


# ------------------------------------------------------------------------------ indexing

ENT = ["full", "int", "neg", "npint", "part", "step", "rev", "empty", "list", "arr", "mask"]


def entry(kind, d):
    return {
        "full": slice(None), "int": min(1, d - 1), "neg": -1, "npint": np.int64(0),
        "part": slice(1, None), "step": slice(None, None, 2), "rev": slice(None, None, -1),
        "empty": slice(0, 0), "list": [d - 1, 0], "arr": np.array([0, d - 1, 0]),
        "mask": np.arange(d) % 2 == 0,
    }[kind]


def i_setup(ctx):
    shape, axis = _shape(ctx)
    nd = len(shape)
    kinds = []
    for k in range(nd):
        kinds.append("dist" if k == axis else ctx.choose(f"e{k}", ENT))
    adv = [k for k in kinds if k in ("list", "arr", "mask")]
    ctx.assume(len(adv) <= 1)
    short = ctx.concretize(ctx.int("short", 0, 2))
    newax = ctx.concretize(ctx.int("newaxis", -1, nd))
    return dict(shape=shape, axis=axis, kinds=kinds, short=short, newax=newax)


def build(inp):
    """The index tuple, or None when the requested form does not exist."""
    shape, axis = inp["shape"], inp["axis"]
    ix = [slice(None) if k == "dist" else entry(k, d) for k, d in zip(inp["kinds"], shape)]
    marks = list(inp["kinds"])
    if inp["short"] == 1:  # drop trailing full entries
        while ix and marks[-1] in ("dist", "full"):
            ix.pop()
            marks.pop()
        if not ix:
            return None
    elif inp["short"] == 2:  # replace a run of full entries by an ellipsis
        run = [k for k, m in enumerate(marks) if m in ("dist", "full")]
        k = run[0]
        e = k
        while e < len(marks) and marks[e] in ("dist", "full"):
            e += 1
        ix[k:e] = [Ellipsis]
    if inp["newax"] >= 0:
        if inp["newax"] > len(ix):
            return None
        ix.insert(inp["newax"], np.newaxis)
    return tuple(ix)


def track(shape, axis, ix):
    """Reference: result and position of the distributed axis, by indexing tokens."""
    g = mc.glob(shape)
    w = g[ix]
    # position: index the array of coordinates along `axis`; the axis along which it varies.
    big = list(shape)
    big[axis] = 2
    c = np.broadcast_to(
        np.arange(2).reshape([2 if k == axis else 1 for k in range(len(shape))]), big
    )
    r = c[ix]
    cand = [k for k in range(r.ndim) if r.shape[k] == 2
            and np.array_equal(np.take(r, 0, k), np.zeros_like(np.take(r, 0, k)))
            and np.array_equal(np.take(r, 1, k), np.ones_like(np.take(r, 1, k)))]
    return w, cand


def refpos(shape, axis, ix):
    # use a distinctive length for the distributed axis so that its position is unambiguous
    big = list(shape)
    big[axis] = 97
    r = np.zeros(big, np.int8)[ix]
    pos = [k for k in range(r.ndim) if r.shape[k] == 97]
    return pos[0]


def i_rank(ctx, comm, inp):
    ix = build(inp)
    if ix is None:
        return None
    a = mc.make(mc.glob(inp["shape"]), inp["axis"], comm)
    b = a[ix]
    m1 = mc.meta(b)
    # the result of a basic index is a view: assignment goes through to the same elements
    a[ix] = -1
    return m1, mc.meta(a)


def i_final(ctx, res, inp):
    vals = mc.all_ok(ctx, res, "indexing")
    ix = build(inp)
    if ix is None:
        return
    g = mc.glob(inp["shape"])
    want = g[ix]
    ax = refpos(inp["shape"], inp["axis"], ix)
    compare(ctx, [v[0] for v in vals], want, ax, "indexed array", len(vals))
    g2 = g.copy()
    g2[ix] = -1
    compare(ctx, [v[1] for v in vals], g2, inp["axis"], "array after assignment", len(vals))
    ctx.reach("indexed")


# ----------------------------------------------------------------------------- transpose


def t_setup(ctx):
    shape, axis = _shape(ctx)
    nd = len(shape)
    perm = ctx.choose("perm", list(itertools.permutations(range(nd))))
    neg = ctx.concretize(ctx.int("neg", 0, 2**nd - 1))
    form = ctx.choose("form", ["args", "tuple", "list", "none", "None", "T", "np", "swap",
                               "npswap", "moveaxis"])
    return dict(shape=shape, axis=axis, perm=perm, neg=neg, form=form)


def t_apply(a, inp):
    p = [x - a.ndim if inp["neg"] >> k & 1 else x for k, x in enumerate(inp["perm"])]
    f = inp["form"]
    if f == "args":
        return a.transpose(*p)
    if f == "tuple":
        return a.transpose(tuple(p))
    if f == "list":
        return a.transpose(list(p))
    if f == "none":
        return a.transpose()
    if f == "None":
        return a.transpose(None)
    if f == "T":
        return a.T
    if f == "np":
        return np.transpose(a, p)
    if f == "swap":
        return a.swapaxes(p[0], p[1])
    if f == "npswap":
        return np.swapaxes(a, p[0], p[1])
    return np.moveaxis(a, p[0], p[1])


def t_rank(ctx, comm, inp):
    a = mc.make(mc.glob(inp["shape"]), inp["axis"], comm)
    return mc.meta(t_apply(a, inp)), mc.meta(a)


def t_final(ctx, res, inp):
    vals = mc.all_ok(ctx, res, "transpose")
    g = mc.glob(inp["shape"])
    want = t_apply(g, inp)
    big = list(inp["shape"])
    big[inp["axis"]] = 97
    ax = t_apply(np.zeros(big, np.int8), inp).shape.index(97)
    compare(ctx, [v[0] for v in vals], want, ax, "transposed array", len(vals))
    compare(ctx, [v[1] for v in vals], g, inp["axis"], "source of a transpose", len(vals))
    ctx.reach("transposed")


# ------------------------------------------------------------------------------- reshape

PRE = {0: [(), (1,), (1, 1)], 1: [(4,), (2, 2), (-1,), (2, -1), (1, 4), (-1, 2), (3,)]}


def r_setup(ctx):
    D = ctx.concretize(ctx.int("D", 0, ctx.params["dmax"]))
    npre = ctx.concretize(ctx.int("npre", 0, 2))
    npost = ctx.concretize(ctx.int("npost", 0, 2))
    pre = [(), (4,), (2, 2)][npre]
    post = [(), (6,), (3, 2)][npost]
    newpre = ctx.choose("newpre", [(), (1,), (4,), (2, 2), (-1,), (2, -1), (1, 4), (3,)])
    newpost = ctx.choose("newpost", [(), (1,), (6,), (3, 2), (-1,), (-1, 3), (6, 1), (4,)])
    order = ctx.choose("order", ["C", "F"])
    form = ctx.choose("form", ["args", "tuple"])
    return dict(shape=pre + (D,) + post, axis=len(pre), new=newpre + (None,) + newpost,
                newaxis=len(newpre), order=order, form=form,
                sizes=(int(np.prod(pre)), int(np.prod(post)), newpre, newpost))


def fits(old, new):
    """Resolve the wildcard; None if it does not fit."""
    k = [x for x in new if x != -1]
    n = int(np.prod(k)) if k else 1
    if -1 not in new:
        return new if n == old else None
    if old % n:
        return None
    return tuple(old // n if x == -1 else x for x in new)


def r_rank(ctx, comm, inp):
    a = mc.make(mc.glob(inp["shape"]), inp["axis"], comm)
    try:
        if inp["form"] == "args":
            b = a.reshape(*inp["new"], order=inp["order"])
        else:
            b = a.reshape(inp["new"], order=inp["order"])
    except ValueError as e:
        return "refused", str(e)
    return "ok", mc.meta(b)


def r_final(ctx, res, inp):
    vals = mc.all_ok(ctx, res, "reshape")
    a, b, npre, npost = inp["sizes"]
    p, q = fits(a, npre), fits(b, npost)
    if p is None or q is None:
        ctx.reach("refused")
        ctx.check(all(v[0] == "refused" for v in vals),
                  "a reshape that would mix in the distributed axis is refused on every rank",
                  got=[v[0] for v in vals])
        return
    g = mc.glob(inp["shape"])
    want = g.reshape((*p, inp["shape"][inp["axis"]], *q), order=inp["order"])
    ctx.check(all(v[0] == "ok" for v in vals), "a valid reshape is accepted on every rank",
              got=[v[0:2] if v[0] != "ok" else "ok" for v in vals])
    compare(ctx, [v[1] for v in vals], want, inp["newaxis"], "reshaped array", len(vals))
    ctx.reach("reshaped")


# -------------------------------------------------------------------------- copies, wrap


def c_setup(ctx):
    shape, axis = _shape(ctx)
    op = ctx.choose("op", ["copy", "copyF", "astype", "view", "wrap", "zeros_like", "real",
                           "full", "zeros", "ones", "conj"])
    perm = ctx.choose("perm", ["C", "F"])
    return dict(shape=shape, axis=axis, op=op, order=perm)


def c_rank(ctx, comm, inp):
    from caput import mpiarray

    g = mc.glob(inp["shape"])
    a = mc.make(g, inp["axis"], comm, inp["order"])
    op = inp["op"]
    if op == "copy":
        b = a.copy()
    elif op == "copyF":
        b = a.copy(order="F")
    elif op == "astype":
        b = a.astype(np.float64)
    elif op == "view":
        b = a.view()
    elif op == "wrap":
        b = mpiarray.MPIArray.wrap(np.array(mc.local_of(g, inp["axis"], comm)), inp["axis"], comm)
    elif op == "zeros_like":
        b = np.zeros_like(a)
    elif op == "real":
        b = a.real
    elif op == "full":
        b = a[:]
    elif op == "zeros":
        b = mpiarray.zeros(inp["shape"], axis=inp["axis"], comm=comm, dtype=np.int64)
    elif op == "ones":
        b = mpiarray.ones(inp["shape"], axis=inp["axis"], comm=comm, dtype=np.int64)
    elif op == "conj":
        b = np.conj(a)
    m = mc.meta(b)
    if op in ("copy", "copyF", "astype", "wrap"):
        b.local_array[...] = 0
    return m, mc.meta(a)


def c_final(ctx, res, inp):
    vals = mc.all_ok(ctx, res, "copy")
    g = mc.glob(inp["shape"])
    want = {"astype": g.astype(np.float64), "zeros_like": np.zeros_like(g),
            "zeros": np.zeros_like(g), "ones": np.ones_like(g)}.get(inp["op"], g)
    compare(ctx, [v[0] for v in vals], want, inp["axis"], "derived array", len(vals))
    compare(ctx, [v[1] for v in vals], g, inp["axis"], "source of a copy", len(vals))
    ctx.reach(inp["op"])


# wrap refuses anything that is not the standard layout


def w_setup(ctx):
    n = ctx.params["n"]
    lens = [ctx.int(f"len{r}", 0, ctx.params["lmax"]) for r in range(n)]
    axis = ctx.concretize(ctx.int("axis", 0, 1))
    return dict(lens=[ctx.concretize(x) for x in lens], axis=axis)


def w_rank(ctx, comm, inp):
    from caput import mpiarray

    sh = [2, 2]
    sh[inp["axis"]] = inp["lens"][comm.rank]
    x = np.full(sh, comm.rank)
    try:
        b = mpiarray.MPIArray.wrap(x, inp["axis"], comm)
    except mpiarray.AxisException:
        return "refused"
    return mc.meta(b)


def w_final(ctx, res, inp):
    vals = mc.all_ok(ctx, res, "wrap")
    L = inp["lens"]
    std = [e - s for s, e in mc.ref_split(sum(L), len(L))]
    if L != std:
        ctx.check(all(v == "refused" for v in vals), "a non-standard layout is refused everywhere",
                  got=[v if v == "refused" else "ok" for v in vals])
        ctx.reach("refused")
        return
    ctx.check(all(v != "refused" for v in vals), "the standard layout is accepted everywhere")
    sh = [2, 2]
    sh[inp["axis"]] = sum(L)
    g = np.concatenate([np.full([2 if k != inp["axis"] else L[r] for k in range(2)], r)
                        for r in range(len(L))], axis=inp["axis"])
    compare(ctx, vals, g, inp["axis"], "wrapped array", len(vals))
    ctx.reach("wrapped")


def harnesses(tier):
    big = tier == "thorough"
    hs = []

    def add(name, n, s, r, f, reach, weight=1, **p):
        p["n"] = n
        hs.append(Harness(name, nranks=n, setup=s, rank=r, final=f, params=p, reach=reach,
                          samples=4, weight=weight, bounds=f"{n} ranks, {p}"))

    add("index_2d", 2, i_setup, i_rank, i_final, ["indexed"], 3, ndim=2, dmax=4)
    add("index_3d_r2", 2, i_setup, i_rank, i_final, ["indexed"], 9, ndim=3, dmax=3 if big else 2)
    if big:
        add("index_3d_r3", 3, i_setup, i_rank, i_final, ["indexed"], 9, ndim=3, dmax=4)
    add("transpose_2d", 2, t_setup, t_rank, t_final, ["transposed"], 2, ndim=2, dmax=3)
    add("transpose_3d", 2, t_setup, t_rank, t_final, ["transposed"], 5, ndim=3,
        dmax=4 if big else 1)
    add("reshape_r2", 2, r_setup, r_rank, r_final, ["reshaped", "refused"], 8,
        dmax=3 if big else 2)
    add("reshape_r3", 3, r_setup, r_rank, r_final, ["reshaped", "refused"], 9,
        dmax=4 if big else 1)
    ops = ["copy", "copyF", "astype", "view", "wrap", "zeros_like", "real", "full", "zeros",
           "ones", "conj"]
    for n in (1, 2, 3):
        add(f"copy_r{n}", n, c_setup, c_rank, c_final, ops, 1, ndim=3, dmax=4)
        add(f"wrap_r{n}", n, w_setup, w_rank, w_final,
            ["wrapped"] + (["refused"] if n > 1 else []), 1, lmax=3)
    return hs
