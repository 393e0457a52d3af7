"""Shared helpers for harnesses over distributed arrays."""

import numpy as np


def ref_split(n, m):
    """Reference split of range(n) over m processes: list of (start, stop)."""
    out = []
    s = 0
    for i in range(m):
        k = n // m + (1 if i < n % m else 0)
        out.append((s, s + k))
        s += k
    return out


def glob(shape, dtype=np.int64, salt=0):
    """A global array whose elements are all distinct (opaque tokens)."""
    n = int(np.prod(shape)) if len(shape) else 1
    a = np.arange(1 + salt, n + 1 + salt)
    dt = np.dtype(dtype)
    if dt.fields is not None:
        out = np.zeros(n, dtype=dt)
        for i, f in enumerate(dt.names):
            out[f] = a + 1000 * i
    elif dt.kind == "c":
        out = (a - 1j * a).astype(dt)
    elif dt.kind in "SU":
        out = np.array([f"t{x}" for x in a], dtype=dt)
    else:
        out = a.astype(dt)
    return out.reshape(shape)


def local_of(g, axis, comm):
    s, e = ref_split(g.shape[axis], comm.size)[comm.rank]
    sl = [slice(None)] * g.ndim
    sl[axis] = slice(s, e)
    return g[tuple(sl)]


def make(g, axis, comm, order="C"):
    """A distributed array holding g, made with the public constructor."""
    from caput import mpiarray

    a = mpiarray.MPIArray(g.shape, axis=axis, comm=comm, dtype=g.dtype)
    a.local_array[...] = local_of(g, axis, comm)
    if order == "F":
        a = mpiarray.MPIArray.wrap(np.asfortranarray(a.local_array), axis, comm)
    return a


def meta(a):
    """Observable description of a distributed array, or of a plain one."""
    from caput import mpiarray

    if isinstance(a, mpiarray.MPIArray):
        return dict(
            kind="mpi", axis=int(a.axis), gshape=tuple(int(x) for x in a.global_shape),
            lshape=tuple(int(x) for x in a.local_shape),
            offset=tuple(int(x) for x in a.local_offset),
            data=np.array(a.local_array), shape=tuple(int(x) for x in a.shape),
            bounds=(int(a.local_bounds.start), int(a.local_bounds.stop)),
            enum=[tuple(int(v) for v in p) for p in a.enumerate(a.axis)],
            csize=a.comm.size,
        )
    if a is None:
        return dict(kind="none")
    return dict(kind="np", data=np.array(a))


def same(a, b):
    a, b = np.asarray(a), np.asarray(b)
    if a.shape != b.shape or a.dtype != b.dtype:
        return False
    return bool(np.array_equal(a, b))


def check_dist(ctx, m, g, axis, size, rank, what, dtype=True):
    """m (meta of one rank's array) is rank's standard piece of global array g on axis."""
    ctx.check(m["kind"] == "mpi", f"{what}: result is a distributed array", rank=rank)
    ctx.check(m["axis"] == axis, f"{what}: distributed axis", got=m["axis"], want=axis)
    ctx.check(m["gshape"] == tuple(g.shape), f"{what}: global shape", got=m["gshape"], want=g.shape)
    s, e = ref_split(g.shape[axis], size)[rank]
    want_l = list(g.shape)
    want_l[axis] = e - s
    ctx.check(m["lshape"] == tuple(want_l) and m["shape"] == tuple(want_l),
              f"{what}: local shape", got=(m["lshape"], m["shape"]), want=want_l)
    off = [0] * g.ndim
    off[axis] = s
    ctx.check(m["offset"] == tuple(off), f"{what}: local offset", got=m["offset"], want=off)
    ctx.check(m["bounds"] == (s, e), f"{what}: local bounds", got=m["bounds"])
    ctx.check(m["enum"] == [(i, s + i) for i in range(e - s)], f"{what}: enumeration of the axis",
              got=m["enum"])
    sl = [slice(None)] * g.ndim
    sl[axis] = slice(s, e)
    w = g[tuple(sl)]
    ok = same(m["data"], w) if dtype else bool(np.array_equal(m["data"], w))
    ctx.check(ok, f"{what}: local contents", rank=rank, got=m["data"].tolist(), want=w.tolist())


def all_ok(ctx, res, what):
    for r, x in enumerate(res):
        if x[0] != "ok":
            ctx.fail(f"{what}: rank {r} failed with {type(x[1]).__name__}: {x[1]}"[:300])
    return [x[1] for x in res]
