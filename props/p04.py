"""P04: global indexing of a distributed array touches exactly the rank's own part."""

import numpy as np

from vp import engine, symslice
from vp.harness import Harness
from . import mpicommon as mc

ASSUMPTIONS = [
    "kernel harness: any global length 0..10**6, any start/stop within +-3*10**6 (symbolic), "
    "steps +-1,2,3,5 and absent, 1..5 ranks (standard split); slice is replaced by an "
    "equivalent with symbolic fields, the local buffer by a recorder",
    "object harness: real arrays, lengths 0..Lmax, all starts/stops/steps within two of the "
    "array bounds",
    "basic indices only (integers, slices, Ellipsis); assigned values do not extend along the "
    "distributed axis",
]


class Comm:
    def __init__(self, size, rank):
        self.size, self.rank = size, rank

    def Get_size(self):
        return self.size

    def Get_rank(self):
        return self.rank

    def allreduce(self, x, *a, **k):
        raise engine.Failure("global indexing needs communication")

    bcast = barrier = Barrier = allgather = allreduce


def piece(L, n, r):
    """Standard split, also for symbolic L."""
    q, m = L // n, L % n
    if m > r:
        return q * r + r, q * r + r + q + 1
    return q * r + m, q * r + m + q


def opt_int(ctx, name, lo, hi):
    if ctx.bool(name + "_none"):
        return None
    return ctx.int(name, lo, hi)


# --------------------------------------------------------------- kernel, symbolic lengths


class Recorder:
    def __init__(self, kind):
        self.kind = kind
        self.got = None

    def __getitem__(self, i):
        return (self.kind, i)

    def __setitem__(self, i, v):
        self.got = (i, v)


class Stub:
    def __init__(self, L, lo, hi, comm):
        self.axis = 0
        self.ndim = 2
        self.local_offset = (lo, 0)
        self.global_shape = (L, 3)
        self.local_shape = self.shape = (hi - lo, 3)
        self.comm = comm
        self.local_array = Recorder("local")
        self.set = None

    def __getitem__(self, i):
        return ("dist", i)

    def __setitem__(self, i, v):
        self.set = i


def kernel(ctx):
    from caput import mpiarray

    n = ctx.params["n"]
    r = ctx.concretize(ctx.int("rank", 0, n - 1))
    L = ctx.int("L", 0, ctx.params["L"])
    B = ctx.params["L"] * 3
    kind = ctx.choose("kind", ["slice", "int"])
    st = ctx.choose("step", [None, 1, 2, 3, 5, -1, -2, -3])
    if kind == "slice":
        start, stop = opt_int(ctx, "start", -B, B), opt_int(ctx, "stop", -B, B)
        S = symslice.SymSlice if ctx.symbolic else slice
        idx = S(start, stop, st)
    else:
        idx = ctx.int("i", -B, B)
        if not ctx.symbolic:
            idx = int(idx)
        ctx.assume(ctx.And(idx >= -L, idx < L))
    form = ctx.choose("form", ["tuple", "bare"])
    ix = (idx, 1) if form == "tuple" else idx
    x = ctx.int("x", 0, ctx.params["L"])  # arbitrary global position
    ctx.assume(x < L)
    lo, hi = piece(L, n, r)

    if not ctx.symbolic:
        # replay on a real array
        a = mpiarray.MPIArray((L, 3), axis=0, comm=Comm(n, r), dtype=np.int32)
        g = np.arange(3 * L, dtype=np.int32).reshape(L, 3)
        a.local_array[...] = g[lo:hi]
        compare(ctx, a, g, 0, ix, lo, hi)
        return

    stub = Stub(L, lo, hi, Comm(n, r))
    try:
        v = mpiarray.MPIArray.global_slice.fget(stub)[ix]
        mpiarray.MPIArray.global_slice.fget(stub)[ix] = 7
    except (AttributeError, TypeError) as e:
        raise engine.Skip(f"{type(e).__name__}: {e}")
    full = kind == "slice" and st is None and start is None and stop is None
    if full:
        ctx.reach("full")
        ctx.check(v is not None, "a full slice gives an array on every rank")
        return
    mine = ctx.And(x >= lo, x < hi)
    if kind == "int":
        want = ctx.And(mine, ctx.Or(x == idx, x == idx + L))
    else:
        want = ctx.And(mine, symslice.contains(ctx, idx, L, x))
    for what, res in (("read", None if v is None else v[1]), ("write", stub.set)):
        if res is None:
            got = False
        else:
            if not isinstance(res, tuple) or len(res) != 2:
                raise engine.Skip("index of unexpected form")
            d, o = res
            if form == "tuple":
                ctx.check(o == 1, "other axes are indexed as given")
            if isinstance(d, symslice.SymSlice):
                dst = d.step
                if dst is not None and not isinstance(dst, int):
                    raise engine.Skip("symbolic step")
                got = ctx.And(mine, symslice.contains(ctx, d, hi - lo, x - lo))
                if st is not None:
                    ctx.check((1 if dst is None else dst) * st > 0, "direction kept")
            else:
                ctx.check(ctx.And(d >= -(hi - lo), d < hi - lo), f"{what}: local index in range")
                got = ctx.And(mine, ctx.Or(x - lo == d, x - hi == d))
        ctx.check(ctx.Implies(want, got), f"{what}: every selected element of the rank is touched")
        ctx.check(ctx.Implies(got, want), f"{what}: no other element is touched")
    ctx.reach(kind)


class patch:
    def __enter__(self):
        from caput import mpiarray

        self.c = symslice.patched(mpiarray)
        self.c.__enter__()

    def __exit__(self, *a):
        return self.c.__exit__(*a)


# --------------------------------------------------------------------- real arrays


def full_index(ix, ndim):
    if not isinstance(ix, tuple):
        ix = (ix,)
    if not any(i is Ellipsis for i in ix):
        ix = (*ix, Ellipsis)
    out = []
    for i in ix:
        if i is Ellipsis:
            out += [slice(None)] * (ndim - len(ix) + 1)
        else:
            out.append(i)
    return out


def owned(g, axis, ix, lo, hi):
    """(the part of g[ix] whose distributed position is in [lo, hi), mask of elements)."""
    full = full_index(ix, g.ndim)
    d = full[axis]
    if isinstance(d, slice):
        pos = [p for p in range(*d.indices(g.shape[axis])) if lo <= p < hi]
    else:
        p = int(d)
        p = p + g.shape[axis] if p < 0 else p
        pos = p if lo <= p < hi else None
    if pos is None or pos == []:
        return None, np.zeros(g.shape, bool)
    first = [slice(None)] * g.ndim
    if isinstance(pos, int):
        first[axis] = pos
        rest = full[:axis] + full[axis + 1:]
        m = np.zeros(g.shape, bool)
        m[tuple(first)][tuple(rest)] = True
        return g[tuple(first)][tuple(rest)], m
    # keep the axis: select positions first, then index the other axes
    sel = np.take(g, pos, axis=axis)
    rest = list(full)
    rest[axis] = slice(None)
    m = np.zeros(g.shape, bool)
    mm = np.zeros(sel.shape, bool)
    mm[tuple(rest)] = True
    for k, p in enumerate(pos):
        first[axis] = p
        other = [slice(None)] * g.ndim
        other[axis] = k
        m[tuple(first)] = mm[tuple(other)]
    return sel[tuple(rest)], m


def compare(ctx, a, g, axis, ix, lo, hi):
    from caput import mpiarray

    full = full_index(ix, g.ndim)
    d = full[axis]
    isfull = isinstance(d, slice) and d == slice(None)
    v = a.global_slice[ix]
    want, mask = owned(g, axis, ix, lo, hi)
    if isfull:
        ctx.check(isinstance(v, mpiarray.MPIArray), "a full slice gives a distributed array")
        rest = list(full)
        rest[axis] = slice(lo, hi)
        w = g[tuple(rest)]
        ctx.check(mc.same(v.local_array, w), "full slice: contents")
        ax = axis - sum(1 for f in full[:axis] if not isinstance(f, slice))
        gs = list(w.shape)
        gs[ax] = g.shape[axis]
        ctx.check(v.axis == ax and tuple(v.global_shape) == tuple(gs), "full slice: axis, shape",
                  got=(v.axis, v.global_shape))
    elif want is None:
        ctx.check(v is None or np.asarray(v).size == 0, "nothing is returned on other ranks",
                  got=repr(v))
    else:
        ctx.check(v is not None and np.array_equal(np.asarray(v), want)
                  and np.asarray(v).shape == want.shape,
                  "the rank's part of the global selection", got=repr(v), want=repr(want))
    # assignment
    a.global_slice[ix] = -5
    loc = np.take(g, range(lo, hi), axis=axis).copy()
    mm = np.take(mask, range(lo, hi), axis=axis)
    if isfull:
        mm = np.zeros(loc.shape, bool)
        rest = list(full)
        rest[axis] = slice(None)
        mm[tuple(rest)] = True
    loc[mm] = -5
    ctx.check(np.array_equal(np.asarray(a.local_array), loc), "assignment changes exactly those",
              got=a.local_array.tolist(), want=loc.tolist())


def objects(ctx):
    from caput import mpiarray

    n = ctx.params["n"]
    r = ctx.concretize(ctx.int("rank", 0, n - 1))
    L = ctx.concretize(ctx.int("L", 0, ctx.params["L"]))
    axis = ctx.concretize(ctx.int("axis", 0, 1))
    shape = (L, 3) if axis == 0 else (3, L)
    kind = ctx.choose("kind", ctx.params["kinds"])
    if kind == "slice":
        S = ctx.params["smax"]
        st = opt_int(ctx, "step", -S, S)
        if st is not None:
            ctx.assume(st != 0)
        d = slice(opt_int(ctx, "start", -L - 2, L + 2), opt_int(ctx, "stop", -L - 2, L + 2), st)
    else:
        i = ctx.int("i", -L - 1, L)
        ctx.assume(ctx.And(i >= -L, i < L))
        d = ctx.concretize(i)
        if kind == "npint":
            d = np.int64(d)
    other = ctx.choose("other", ctx.params["others"])
    if other is Ellipsis:
        ix = (Ellipsis, d) if axis == 1 else (d, Ellipsis)
    elif other is None:
        ctx.assume(axis == 0)
        ix = d
    else:
        ix = (d, other) if axis == 0 else (other, d)
    if isinstance(ix, tuple) and ctx.params.get("ell") and other is not Ellipsis:
        # an ellipsis that stands for no axis
        e = ctx.concretize(ctx.int("ell", -1, 2))
        if e >= 0:
            ix = (*ix[:e], Ellipsis, *ix[e:])
    lo, hi = mc.ref_split(L, n)[r]
    g = mc.glob(shape)
    a = mpiarray.MPIArray(shape, axis=axis, comm=Comm(n, r), dtype=np.int64)
    a.local_array[...] = np.take(g, range(lo, hi), axis=axis)
    if kind == "slice":
        a.global_slice[ix]  # first use decides the paths
        d2 = slice(*[None if v is None else ctx.concretize(v) for v in (d.start, d.stop, d.step)])
        ix = tuple(d2 if k is d else k for k in ix) if isinstance(ix, tuple) else d2
    compare(ctx, a, g, axis, ix, lo, hi)
    ctx.reach(kind)


def harnesses(tier):
    big = tier == "thorough"
    hs = []
    for n in (1, 2, 3) + ((4, 5) if big else ()):
        hs.append(Harness(f"kernel_r{n}", kernel, params=dict(n=n, L=10**6), patch=patch,
                          reach=["full", "slice", "int"], weight=10 + n,
                          bounds=f"L<=1e6 symbolic, {n} ranks"))
    L = 5 if big else 3
    allo = [None, 0, -1, slice(1, None), slice(None, None, -1), Ellipsis]
    for n in (1, 2, 3) + ((4,) if big else ()):
        hs.append(Harness(f"slice_r{n}", objects,
                          params=dict(n=n, L=L, kinds=["slice"], smax=3 if big else 2,
                                      ell=big, others=allo if big else [Ellipsis, -1]),
                          reach=["slice"], weight=8 + n, bounds=f"lengths 0..{L}, {n} ranks"))
        hs.append(Harness(f"int_r{n}", objects, params=dict(n=n, L=6 if big else 5, kinds=["int", "npint"], others=allo, ell=1),
                          reach=["int", "npint"], bounds=f"lengths 0..6, {n} ranks"))
    return hs
