"""P06: arithmetic and reductions on distributed arrays equal the global computation."""

import itertools

import numpy as np

from vp.harness import Harness
from . import mpicommon as mc

ASSUMPTIONS = [
    "elementwise ufuncs with one or two operands (distributed, plain, scalar, list), with and "
    "without out=, in-place operators; reduce and accumulate over every axis set",
    "plain operands that extend along the distributed axis are outside the claim when they "
    "happen to match a rank's local length (documented as fragile)",
    "generalised ufuncs (matmul) and non-ufunc numpy functions are outside the claim",
    "simulated communicator for exploration, real mpirun for validation and replay",
]

SH = [2, 3, 4]


def gl(shape, salt=0):
    return mc.glob(shape, np.int64, salt) * 3 % 17 + 1


# ------------------------------------------------------------------------- element-wise


def e_setup(ctx):
    nd = ctx.params["ndim"]
    axis = ctx.concretize(ctx.int("axis", 0, nd - 1))
    D = ctx.concretize(ctx.int("D", 0, ctx.params["dmax"]))
    shape = SH[:nd]
    shape[axis] = D
    kind = ctx.choose("kind", ["mpi", "np", "list", "scalar", "mpi_other_axis", "mpi_other_len",
                               "np_along", "list_along"])
    nd2 = ctx.concretize(ctx.int("nd2", 0, 3))
    ones = ctx.int("ones", 0, 7)  # which axes of the operand have length one
    ctx.assume(ones < 2**nd2)
    ones = ctx.concretize(ones)
    swap = bool(ctx.bool("swap"))
    op = ctx.choose("op", ["add", "less", "divmod", "iadd", "out", "where", "outer"])
    # operand aligned on the right with the output
    full = ([5, *SH[:nd]] if nd < 3 else SH[:nd])[-3:] if nd2 > nd else list(shape)
    full = list(shape)
    if nd2 > nd:
        full = [5] * (nd2 - nd) + full
    sh2 = full[len(full) - nd2:] if nd2 <= len(full) else full
    sh2 = [1 if ones >> k & 1 else x for k, x in enumerate(sh2)]
    ax2 = axis - nd + nd2
    if kind in ("mpi", "mpi_other_axis", "mpi_other_len"):
        ctx.assume(nd2 >= 1)
        if kind == "mpi":
            ctx.assume(0 <= ax2 < nd2)
            sh2[ax2] = D
        elif kind == "mpi_other_axis":
            cand = [k for k in range(nd2) if k != ax2]
            ctx.assume(len(cand) > 0)
            ax2 = cand[0]
            sh2 = [1] * nd2
            sh2[ax2] = D
        else:
            ctx.assume(0 <= ax2 < nd2)
            sh2[ax2] = D + 1
    elif kind == "scalar":
        ctx.assume(nd2 == 0)
    elif kind.endswith("_along"):
        # a plain operand that extends along the distributed axis
        ctx.assume(0 <= ax2 < nd2)
        sh2[ax2] = ctx.concretize(ctx.int("along", 2, ctx.params["dmax"]))
        ctx.assume(op in ("add", "less", "out"))
    else:
        if 0 <= ax2 < nd2:
            sh2[ax2] = 1
    return dict(shape=tuple(shape), axis=axis, kind=kind, sh2=tuple(sh2), ax2=ax2, swap=swap,
                op=op, D=D)


def apply_op(op, x, y, a, comm, out=None):
    if op == "add":
        return x + y
    if op == "less":
        return np.less(x, y)
    if op == "divmod":
        return np.divmod(x, y)
    if op == "outer":
        return np.add.outer(x, y)
    if op == "where":
        return np.add(x, y, where=np.ones(np.shape(x), bool))
    if op == "iadd":
        a += y if a is x else x
        return a
    if op == "out":
        return np.subtract(x, y, out=out)


def e_rank(ctx, comm, inp):
    from caput import mpiarray

    g = gl(inp["shape"])
    a = mc.make(g, inp["axis"], comm)
    g2 = gl(inp["sh2"], 7)
    if inp["kind"].startswith("mpi"):
        b = mc.make(g2, inp["ax2"], comm)
    elif inp["kind"].startswith("np"):
        b = g2
    elif inp["kind"].startswith("list"):
        b = g2.tolist()
    else:
        b = 5
    x, y = (b, a) if inp["swap"] else (a, b)
    out = None
    ident = True
    if inp["op"] == "out":
        try:
            gs = np.broadcast_shapes(inp["shape"], inp["sh2"])
        except ValueError:
            gs = inp["shape"]
        oax = len(gs) + inp["axis"] - len(inp["shape"])
        out = mpiarray.MPIArray(gs, axis=oax, comm=comm, dtype=np.int64)
    try:
        r = apply_op(inp["op"], x, y, a, comm, out)
    except Exception as e:
        return "refused", type(e).__name__, mc.meta(a)
    if inp["op"] == "out":
        ident = r is out
    if inp["op"] == "iadd":
        ident = r is a
    if isinstance(r, tuple):
        return "ok", [mc.meta(v) for v in r], ident
    return "ok", [mc.meta(r)], ident


def e_final(ctx, res, inp):
    vals = mc.all_ok(ctx, res, "element-wise operation")
    n = len(vals)
    g, g2 = gl(inp["shape"]), gl(inp["sh2"], 7)
    if inp["kind"] == "scalar":
        g2 = 5
    bad = inp["kind"] in ("mpi_other_axis", "mpi_other_len") or inp["op"] in ("where", "outer")
    if inp["kind"] == "mpi_other_axis" and n == 1 and not inp["op"] in ("where", "outer"):
        bad = True
    if bad:
        ctx.check(all(v[0] == "refused" for v in vals),
                  "operands distributed differently, and unsupported forms, are refused",
                  got=[v[0] for v in vals])
        ctx.reach("refused")
        return
    if inp["kind"].endswith("_along"):
        for r, v in enumerate(vals):
            lo, hi = mc.ref_split(inp["D"], n)[r]
            if hi - lo != inp["sh2"][inp["ax2"]]:
                ctx.check(v[0] == "refused", "a plain operand that extends along the distributed "
                          "axis and does not match the local part is refused", rank=r)
                ctx.reach("along")
        return
    x, y = (g2, g) if inp["swap"] else (g, g2)
    try:
        w = apply_op(inp["op"], x, y, g, None, None) if inp["op"] != "out" else np.subtract(x, y)
    except ValueError:
        # e.g. the in-place target would have to grow
        ctx.check(all(v[0] == "refused" for v in vals), "numpy refuses it, so must we")
        return
    ctx.check(all(v[0] == "ok" for v in vals), "a valid operation is accepted",
              got=[v[:2] for v in vals])
    w = list(w) if isinstance(w, tuple) else [w]
    ax = w[0].ndim + inp["axis"] - len(inp["shape"])
    for r, v in enumerate(vals):
        ctx.check(v[2], "out= and in-place operations return their target")
        for m, ww in zip(v[1], w):
            mc.check_dist(ctx, m, ww, ax, n, r, "result")
    ctx.reach(inp["op"])
    ctx.reach(inp["kind"])


# ------------------------------------------------------------------- reduce, accumulate


def r_setup(ctx):
    nd = ctx.params["ndim"]
    axis = ctx.concretize(ctx.int("axis", 0, nd - 1))
    D = ctx.concretize(ctx.int("D", 0, ctx.params["dmax"]))
    shape = SH[:nd]
    shape[axis] = D
    sets = [None] + [s for k in range(0, nd + 1) for s in itertools.combinations(range(nd), k)]
    over = ctx.choose("over", sets)
    form = ctx.choose("form", ["tuple", "int", "neg"])
    fn = ctx.choose("fn", ctx.params["fns"])
    keep = bool(ctx.bool("keepdims"))
    ctx.assume(form == "tuple" or (over is not None and len(over) == 1) or form == "neg")
    ctx.assume(not (over is None and form != "tuple"))
    arg = over
    if over is not None and form == "int":
        arg = over[0]
    elif over is not None and form == "neg":
        arg = tuple(k - nd for k in over)
    return dict(shape=tuple(shape), axis=axis, over=over, arg=arg, fn=fn, keep=keep,
                out=bool(ctx.bool("out")) if fn == "sum" else False)


def red(fn, a, arg, keep, out=None):
    if fn == "sum":
        return np.sum(a, axis=arg, keepdims=keep, out=out) if out is not None else np.sum(
            a, axis=arg, keepdims=keep)
    if fn == "method":
        return a.sum(axis=arg, keepdims=keep)
    if fn == "max":
        return np.add.reduce(a, axis=arg, keepdims=keep)
    if fn == "any":
        return np.any(a > 9, axis=arg, keepdims=keep)
    if fn == "mean":
        return np.mean(a, axis=arg, keepdims=keep)


def r_rank(ctx, comm, inp):
    from caput import mpiarray

    a = mc.make(gl(inp["shape"]), inp["axis"], comm)
    out = None
    try:
        if inp["out"] and inp["over"] is not None and inp["axis"] not in inp["over"]:
            gs = np.sum(gl(inp["shape"]), axis=inp["arg"], keepdims=inp["keep"]).shape
            ax = inp["axis"] - (0 if inp["keep"] else sum(k < inp["axis"] for k in inp["over"]))
            out = mpiarray.MPIArray(gs, axis=ax, comm=comm, dtype=np.int64)
        r = red(inp["fn"], a, inp["arg"], inp["keep"], out)
    except Exception as e:
        return "refused", type(e).__name__
    total = None
    if inp["over"] is None and inp["fn"] == "sum" and not inp["keep"]:
        total = int(r.allreduce())
    return "ok", mc.meta(r), total, out is None or r is out


def r_final(ctx, res, inp):
    vals = mc.all_ok(ctx, res, "reduction")
    n = len(vals)
    g = gl(inp["shape"])
    over, axis = inp["over"], inp["axis"]
    if over is not None and axis in over:
        ctx.check(all(v[0] == "refused" for v in vals),
                  "a reduction over the distributed axis is refused", got=[v[0] for v in vals])
        ctx.reach("refused")
        return
    ctx.check(all(v[0] == "ok" for v in vals), "a valid reduction is accepted",
              got=[v[:2] for v in vals])
    if over is None:
        for r, v in enumerate(vals):
            s, e = mc.ref_split(g.shape[axis], n)[r]
            loc = np.take(g, range(s, e), axis=axis)
            w = red(inp["fn"], loc, None, inp["keep"])
            m = v[1]
            ctx.check(m["kind"] == "mpi" and m["axis"] == 0 and m["gshape"][0] == n
                      and m["offset"][0] == r and m["lshape"][0] == 1,
                      "total reduction: one element per rank", got=m)
            ctx.check(np.array_equal(m["data"].reshape(-1), np.asarray(w).reshape(-1),
                                     equal_nan=inp["fn"] == "mean"),
                      "total reduction: local value", got=m["data"], want=w)
            if v[2] is not None:
                ctx.check(v[2] == int(g.sum()), "sum of the per-rank values is the global sum",
                          got=v[2], want=int(g.sum()))
        ctx.reach("total")
        return
    w = red(inp["fn"], g, inp["arg"], inp["keep"])
    ax = axis - (0 if inp["keep"] else sum(k < axis for k in over))
    for r, v in enumerate(vals):
        mc.check_dist(ctx, v[1], w, ax, n, r, "reduced array")
        ctx.check(v[3], "out= is returned")
    ctx.reach("reduced")


def a_setup(ctx):
    nd = ctx.params["ndim"]
    axis = ctx.concretize(ctx.int("axis", 0, nd - 1))
    D = ctx.concretize(ctx.int("D", 0, ctx.params["dmax"]))
    shape = SH[:nd]
    shape[axis] = D
    over = ctx.concretize(ctx.int("over", -nd, nd - 1))
    fn = ctx.choose("fn", ["np", "method", "accumulate", "prod"])
    return dict(shape=tuple(shape), axis=axis, over=over, fn=fn)


def acc(fn, a, over):
    if fn == "np":
        return np.cumsum(a, axis=over)
    if fn == "method":
        return np.logical_or.accumulate(a, axis=over)
    if fn == "prod":
        return np.multiply.accumulate(a, axis=over)
    return np.add.accumulate(a, axis=over)


def a_rank(ctx, comm, inp):
    a = mc.make(gl(inp["shape"]), inp["axis"], comm)
    try:
        r = acc(inp["fn"], a, inp["over"])
    except Exception as e:
        return "refused", type(e).__name__
    return "ok", mc.meta(r)


def a_final(ctx, res, inp):
    vals = mc.all_ok(ctx, res, "accumulation")
    g = gl(inp["shape"])
    nd = g.ndim
    if inp["over"] % nd == inp["axis"]:
        ctx.check(all(v[0] == "refused" for v in vals),
                  "an accumulation along the distributed axis is refused",
                  got=[v[0] for v in vals])
        ctx.reach("refused")
        return
    ctx.check(all(v[0] == "ok" for v in vals), "a valid accumulation is accepted",
              got=[v[:2] for v in vals])
    w = acc(inp["fn"], g, inp["over"])
    for r, v in enumerate(vals):
        mc.check_dist(ctx, v[1], w, inp["axis"], len(vals), r, "accumulated array")
    ctx.reach("accumulated")


def harnesses(tier):
    big = tier == "thorough"
    hs = []

    def add(name, n, s, r, f, reach, weight=1, **p):
        p["n"] = n
        hs.append(Harness(name, nranks=n, setup=s, rank=r, final=f, params=p, reach=reach,
                          samples=4, weight=weight, bounds=f"{n} ranks, {p}"))

    er = ["refused", "add", "less", "divmod", "iadd", "out", "mpi", "np", "list", "scalar"]
    for n in (1, 2, 3):
        for nd in (1, 2) + ((3,) if big or n == 2 else ()):
            add(f"elementwise_r{n}_{nd}d", n, e_setup, e_rank, e_final, er, 3 + 2 * nd, ndim=nd,
                dmax=4 if big or nd < 3 else 3)
    for n in (1, 2, 3):
        add(f"reduce_r{n}", n, r_setup, r_rank, r_final, ["refused", "total", "reduced"], 3,
            ndim=3, dmax=4 if big else 3, fns=["sum", "method", "max", "any", "mean"])
        add(f"accumulate_r{n}", n, a_setup, a_rank, a_final, ["refused", "accumulated"], 1,
            ndim=3, dmax=3)
    return hs
