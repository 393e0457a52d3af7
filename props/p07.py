"""P07: distributed file IO moves exactly the selected elements, whatever the partitioning."""

import os
import shutil
import tempfile
import threading

import numpy as np

from vp import engine, symslice
from vp.harness import Harness
from . import mpicommon as mc

ASSUMPTIONS = [
    "h5py here has no MPI support: the serial write fallback and independent reads are driven "
    "directly; the MPI-IO code path is driven with a stand-in for an MPI-IO file (one shared "
    "in-memory HDF5 file offering the collective context), with the 2 GB IO limit lowered so "
    "that small arrays get partitioned",
    "selections: slices with positive step, and increasing lists of positions",
    "kernel harness: axis length up to 10**6 symbolic, positive steps 1,2,3,5,7",
    "elements are opaque distinct tokens",
]


def scratch(ctx):
    base = os.environ.get("VP_SCRATCH") or None
    return tempfile.mkdtemp(prefix="p07-", dir=base)


# ------------------------------------------------------- kernel: slice of a slice, lengths


def kernel(ctx):
    from caput import mpiarray

    n = ctx.int("n", 0, 10**6)
    B = 3 * 10**6
    st = ctx.choose("step", [None, 1, 2, 3, 5, 7])
    start = None if ctx.bool("start_none") else ctx.int("start", -B, B)
    stop = None if ctx.bool("stop_none") else ctx.int("stop", -B, B)
    a = ctx.int("a", 0, 10**6)
    b = ctx.int("b", 0, 10**6)
    x = ctx.int("x", 0, 10**6)
    ctx.assume(x < n)
    S = symslice.SymSlice if ctx.symbolic else slice
    s = S(start, stop, st)
    i0, i1, k = symslice.indices(s, n)
    length = ctx.If(i1 > i0, (i1 - i0 + k - 1) // k, 0)
    ctx.assume(ctx.And(a <= b, b <= length))
    if not ctx.symbolic:
        # replay through a real file read: rank piece [a, b) is realised by a partition
        got_n = mpiarray._len_slice(s, n)
        ctx.check(got_n == length, "length of a selection", got=got_n, want=length)
        r = mpiarray._reslice(s, n, slice(a, b))
        want = list(range(n))[s][a:b]
        ctx.check(list(range(n))[r] == want, "slice of a slice selects the same elements")
        return
    try:
        got_n = mpiarray._len_slice(s, n)
        r = mpiarray._reslice(s, n, S(a, b))
    except (AttributeError, TypeError) as e:
        raise engine.Skip(f"{type(e).__name__}: {e}")
    ctx.check(got_n == length, "length of a selection")
    # element x is selected by the composed slice iff it is among elements a..b of the first
    pos = (x - i0) // k
    want = ctx.And(symslice.contains(ctx, s, n, x), pos >= a, pos < b)
    got = symslice.contains(ctx, r, n, x)
    ctx.check(ctx.Implies(want, got), "slice of a slice loses no element")
    ctx.check(ctx.Implies(got, want), "slice of a slice adds no element")
    ctx.reach("kernel")


class kpatch:
    def __enter__(self):
        from caput import mpiarray

        self.m = mpiarray
        self.c = symslice.patched(mpiarray)
        self.c.__enter__()
        # range(*s.indices(n)) would realise the bounds
        mpiarray.__dict__["range"] = SymRange
        mpiarray.__dict__["len"] = sym_len

    def __exit__(self, *a):
        del self.m.__dict__["range"]
        del self.m.__dict__["len"]
        return self.c.__exit__(*a)


class SymRange:
    def __init__(self, *a):
        if len(a) == 1:
            a = (0, a[0], 1)
        elif len(a) == 2:
            a = (*a, 1)
        self.start, self.stop, self.step = a

    def vlen(self):
        d = self.stop - self.start
        if self.step > 0:
            return 0 if d <= 0 else (d + self.step - 1) // self.step
        return 0 if d >= 0 else (-d - self.step - 1) // (-self.step)

    def __iter__(self):
        return iter(range(self.start, self.stop, self.step))


def sym_len(x):
    return x.vlen() if type(x) is SymRange else len(x)


# ----------------------------------------------------------------- kernel: IO partitions


class PStub:
    class comm:
        size = 1
        rank = 0

        @staticmethod
        def allreduce(x, op=None):
            return x

    def __init__(self, shape, axis, nbytes):
        self.ndim = len(shape)
        self.axis = axis
        self.global_shape = self.local_shape = self.shape = shape
        self.nbytes = nbytes


class FakeNP:
    """numpy as seen by the partition code, with a symbolic ceil."""

    def __getattr__(self, k):
        return getattr(np, k)

    @staticmethod
    def ceil(x):
        return x.ceil() if hasattr(x, "ceil") else np.ceil(x)


def partition(ctx):
    from caput import mpiarray

    nd = ctx.concretize(ctx.int("ndim", 2, 3))
    axis = ctx.concretize(ctx.int("axis", 0, nd - 1))
    L = ctx.params["L"]
    shape = tuple(ctx.concretize(ctx.int(f"d{k}", 1, L)) for k in range(nd))
    nbytes = ctx.int("mib", 0, ctx.params["mib"])  # size of the local part in MiB
    x = ctx.int("x", 0, L - 1)
    st = PStub(shape, axis, nbytes * 2**20)
    try:
        ax, parts = mpiarray.MPIArray._partition_io(st)
    except RuntimeError:
        # nothing to split along: only allowed if no other axis is long enough
        ctx.reach("none")
        return
    except (AttributeError, TypeError) as e:
        raise engine.Skip(str(e))
    n = shape[ax]
    ctx.assume(x < n)
    cnt = 0
    for p in parts:
        cnt = cnt + ctx.If(ctx.And(x >= p.start, x < p.stop), 1, 0)
        ctx.check(ctx.And(p.start >= 0, p.stop <= n, p.start < p.stop), "partition in range")
        if len(parts) > 1:
            # the piece stays under 2 GiB
            ctx.check(nbytes * (p.stop - p.start) < 2048 * n, "each piece is below the IO limit")
    if len(parts) == 1:
        ctx.check(nbytes <= 2048, "an array over the IO limit is split")
    ctx.check(cnt == 1, "every index lies in exactly one partition")
    ctx.reach("split" if len(parts) > 1 else "whole")


# ------------------------------------------------------------------- reading a selection


def sel_of(ctx, k, n):
    kind = ctx.choose(f"k{k}", ctx.params["kinds"])
    if kind == "none":
        return slice(None)
    if kind == "slice":
        return slice(ctx.concretize(ctx.int(f"a{k}", -1, n)), ctx.concretize(ctx.int(f"b{k}", -1, n + 1)),
                     ctx.choose(f"s{k}", [None, 2]))
    m = ctx.concretize(ctx.int(f"m{k}", 1, 2**n - 1 if n else 1))
    return [i for i in range(n) if m >> i & 1]


def rd_setup(ctx):
    D = ctx.concretize(ctx.int("D", 0, ctx.params["dmax"]))
    axis = ctx.concretize(ctx.int("axis", -2, 1))
    shape = (D, 4) if axis % 2 == 0 else (3, D)
    which = ctx.choose("which", ["dist", "other", "both", "nosel"])
    sel = None
    if which != "nosel":
        sel = [slice(None), slice(None)]
        if which in ("dist", "both"):
            sel[axis % 2] = sel_of(ctx, 0, D)
        if which in ("other", "both"):
            sel[1 - axis % 2] = slice(1, None, 2)
        ctx.assume(sum(isinstance(s, list) for s in sel) <= 1)
        sel = tuple(sel)
    fmt = ctx.choose("fmt", ctx.params["fmts"])
    if fmt == "zarr" and sel is not None:
        ctx.assume(not any(isinstance(s, list) for s in sel))
    return dict(shape=shape, axis=axis, sel=sel, fmt=fmt, D=D,
                dt=ctx.choose("dtype", ctx.params["dtypes"]))


_DT = {"i8": np.int64, "be": np.dtype(">f4"), "c16": np.complex128}


def rd_rank(ctx, comm, inp):
    from caput import mpiarray
    from caput.memdata import fileformats

    d = scratch(ctx) if comm.rank == 0 else None
    d = comm.bcast(d, root=0)
    g = mc.glob(inp["shape"], _DT[inp["dt"]])
    try:
        if inp["fmt"] == "hdf5":
            p = os.path.join(d, "x.h5")
            if comm.rank == 0:
                import h5py

                with h5py.File(p, "w") as f:
                    f.create_dataset("d", data=g)
            ff = fileformats.HDF5
        else:
            p = os.path.join(d, "x.zarr")
            if comm.rank == 0:
                import zarr

                z = zarr.open_group(p, mode="w")
                z.create_dataset("d", data=g, chunks=tuple(max(1, s // 2) for s in g.shape))
            ff = fileformats.Zarr
        comm.barrier()
        a = mpiarray.MPIArray.from_file(p, "d", comm=comm, axis=inp["axis"], sel=inp["sel"],
                                        file_format=ff)
        m = mc.meta(a)
        comm.barrier()
        return m
    finally:
        if comm.rank == 0:
            shutil.rmtree(d, ignore_errors=True)


def selected(g, sel):
    w = g
    if sel is not None:
        for k, s in enumerate(sel):
            w = np.take(w, s, axis=k) if isinstance(s, list) else w[(slice(None),) * k + (s,)]
    return w


def rd_final(ctx, res, inp):
    vals = mc.all_ok(ctx, res, "distributed read")
    g = mc.glob(inp["shape"], _DT[inp["dt"]])
    w = selected(g, inp["sel"])
    for r, m in enumerate(vals):
        mc.check_dist(ctx, m, w, inp["axis"] % 2, len(vals), r, "array read from file")
    ctx.reach(inp["fmt"])
    if inp["sel"] is not None:
        ctx.reach("list" if any(isinstance(s, list) for s in inp["sel"]) else "slice")


# ------------------------------------------------------------------------- write and read


def wr_setup(ctx):
    D = ctx.concretize(ctx.int("D", 0, ctx.params["dmax"]))
    axis = ctx.concretize(ctx.int("axis", 0, 1))
    shape = (D, 3) if axis == 0 else (3, D)
    return dict(shape=shape, axis=axis, raxis=ctx.concretize(ctx.int("raxis", 0, 1)),
                fmt=ctx.choose("fmt", ctx.params["fmts"]),
                dt=ctx.choose("dtype", ["i8", "c16"]),
                layout=ctx.choose("layout", ["C", "F"]))


def wr_rank(ctx, comm, inp):
    from caput import mpiarray
    from caput.memdata import fileformats

    d = scratch(ctx) if comm.rank == 0 else None
    d = comm.bcast(d, root=0)
    g = mc.glob(inp["shape"], _DT[inp["dt"]])
    try:
        a = mc.make(g, inp["axis"], comm, inp["layout"])
        if inp["fmt"] == "hdf5":
            p, ff = os.path.join(d, "x.h5"), fileformats.HDF5
        else:
            os.chdir(d)
            p, ff = "x.zarr", fileformats.Zarr
        kw = {} if inp["fmt"] == "hdf5" else dict(chunks=(2, 2))
        a.to_file(p, "grp/d" if inp["fmt"] == "hdf5" else "d", create=True, file_format=ff, **kw)
        if inp["fmt"] == "hdf5":
            import h5py

            with h5py.File(p, "r") as f:
                disk = f["grp/d"][...]
        else:
            import zarr

            disk = zarr.open_group(os.path.join(d, p), mode="r")["d"][...]
        b = mpiarray.MPIArray.from_file(p if inp["fmt"] == "hdf5" else os.path.join(d, p),
                                        "grp/d" if inp["fmt"] == "hdf5" else "d", comm=comm,
                                        axis=inp["raxis"], file_format=ff)
        m = mc.meta(b)
        left = sorted(os.listdir(d)) if comm.rank == 0 else None
        comm.barrier()
        return m, disk, mc.meta(a), left
    finally:
        os.chdir(os.path.dirname(os.path.abspath(__file__)))
        if comm.rank == 0:
            shutil.rmtree(d, ignore_errors=True)


def wr_final(ctx, res, inp):
    vals = mc.all_ok(ctx, res, "distributed write")
    g = mc.glob(inp["shape"], _DT[inp["dt"]])
    for r, (m, disk, src, left) in enumerate(vals):
        ctx.check(mc.same(disk, g), "file holds the global array", got=disk, want=g)
        mc.check_dist(ctx, m, g, inp["raxis"], len(vals), r, "array read back")
        mc.check_dist(ctx, src, g, inp["axis"], len(vals), r, "array after writing")
    ctx.check(vals[0][3] == ["x.h5" if inp["fmt"] == "hdf5" else "x.zarr"],
              "no other file is left", got=vals[0][3])
    ctx.reach(inp["fmt"])


# --------------------------------------------- the MPI-IO code path, on a stand-in MPI file


class _Coll:
    def __init__(self, d):
        self.d = d

    def __enter__(self):
        self.d.coll = True

    def __exit__(self, *a):
        self.d.coll = False


class FakeDset:
    """A dataset of a file opened with MPI-IO (shared by the ranks)."""

    def __init__(self, ds, log, rank):
        self._ds, self._log, self._rank = ds, log, rank
        self.coll = False

    def __getattr__(self, k):
        return getattr(self._ds, k)

    @property
    def collective(self):
        return _Coll(self)

    def _rec(self, kind, n):
        self._log.append((self._rank, kind, self.coll, n))

    def read_direct(self, dest, ssel, dsel):
        self._rec("r", np.asarray(dest)[dsel].nbytes)
        np.asarray(dest)[dsel] = self._ds[ssel]

    def write_direct(self, src, ssel, dsel):
        self._rec("w", np.asarray(src)[ssel].nbytes)
        self._ds[dsel] = np.asarray(src)[ssel]

    def __getitem__(self, i):
        v = self._ds[i]
        self._rec("r", v.nbytes)
        return v

    def __setitem__(self, i, v):
        self._rec("w", np.asarray(v).nbytes)
        self._ds[i] = np.asarray(v)


class FakeFile:
    def __init__(self, f, log, rank):
        self.f, self._log, self._rank = f, log, rank
        self.is_mpi, self.opened = True, True
        self.driver = "mpio"

    def __contains__(self, k):
        return k in self.f

    def __getitem__(self, k):
        return FakeDset(self.f[k], self._log, self._rank)

    def create_dataset(self, name, **k):
        k.pop("compression", None), k.pop("compression_opts", None)
        return FakeDset(self.f.require_dataset(name, k["shape"], k["dtype"]), self._log, self._rank)

    def close(self):
        pass


def mpiio(ctx):
    """Write on one axis and read back a selection on another, through MPI-IO."""
    import functools

    import h5py

    from caput import mpiarray
    from caput.memdata import _io
    from vp import mpisim

    n = ctx.params["n"]
    D = ctx.concretize(ctx.int("D", 0, ctx.params["dmax"]))
    axis = ctx.concretize(ctx.int("axis", 0, 1))
    raxis = ctx.concretize(ctx.int("raxis", 0, 1))
    shape = (D, 5) if axis == 0 else (5, D)
    sel = None
    if ctx.bool("sel"):
        sel = (slice(None, None, 2), slice(1, None)) if raxis == 0 else (slice(1, None), slice(None, None, 2))
    limit = ctx.concretize(ctx.int("limit", 1, ctx.params["limit"]))  # elements per IO call
    dt = ctx.choose("dtype", [np.dtype(np.int64), np.dtype(">i8")])
    layout = ctx.choose("layout", ["C", "F"])
    g = mc.glob(shape).astype(dt)
    lim = limit * 8
    mpisim.install()
    log = []
    orig = mpiarray.MPIArray._partition_io if hasattr(mpiarray.MPIArray, "_partition_io") else None
    if orig is None:
        raise engine.Skip("no IO partition function")
    old_open, old_cfg = _io.open_h5py_mpi, h5py.get_config
    file = h5py.File(f"mem{os.getpid()}", "w", driver="core", backing_store=False)

    class Cfg:
        mpi = True

    calls = {}
    tl = threading.local()

    def fake_open(f, mode, *a, **k):
        return FakeFile(file, log, tl.rank)

    def part(self, skip=False, threshold=None):
        return orig(self, skip=skip, threshold=lim / 2**30)

    def fn(comm):
        tl.rank = comm.rank
        a = mc.make(g, axis, comm, layout)
        try:
            a.to_hdf5("x.h5", "d", create=True)
            calls[comm.rank] = "written"
            comm.Barrier()
            b = mpiarray.MPIArray.from_hdf5("x.h5", "d", comm=comm, axis=raxis, sel=sel)
        except RuntimeError as e:
            return "refused", str(e)
        return "ok", mc.meta(b)

    _io.open_h5py_mpi = fake_open
    mpiarray.MPIArray._partition_io = part
    h5py.get_config = lambda: Cfg
    try:
        res = mpisim.run(n, fn)
        disk = file["d"][...] if "d" in file else None
    finally:
        _io.open_h5py_mpi, h5py.get_config = old_open, old_cfg
        mpiarray.MPIArray._partition_io = orig
        file.close()
    vals = mc.all_ok(ctx, res, "MPI-IO")
    kinds = {v[0] for v in vals}
    ctx.check(len(kinds) == 1, "all ranks agree on whether the IO can be partitioned")
    if len(calls) == n:
        ctx.check(disk is not None and np.array_equal(disk, g) and disk.dtype == g.dtype,
                  "file holds the global array", got=None if disk is None else disk.tolist(),
                  want=g.tolist())
    # collective calls are made by all ranks alike
    seqs = [[(k, c) for (r, k, c, _) in log if r == q and c] for q in range(n)]
    if kinds == {"ok"}:
        ctx.check(all(s == seqs[0] for s in seqs), "collective IO calls match across ranks",
                  got=seqs)
        big = [x for (_, _, c, x) in log if x > lim]
        ctx.check(not big, "no single IO call exceeds the limit", got=big, limit=lim)
        for r, v in enumerate(vals):
            mc.check_dist(ctx, v[1], selected(g, sel), raxis, n, r, "array read back")
        ctx.reach("ok")
        if len(log) > 2 * n:
            ctx.reach("partitioned")
    else:
        ctx.reach("refused")


def harnesses(tier):
    big = tier == "thorough"
    hs = [
        Harness("kernel", kernel, patch=kpatch, reach=["kernel"], weight=5,
                bounds="axis length <=1e6 symbolic, steps 1,2,3,5,7; bounds +-3e6 symbolic"),
        Harness("partition", partition, params=dict(L=6 if big else 4, mib=20000),
                reach=["split", "whole", "none"], weight=4,
                patch=npatch, bounds="2-3 dims of 1..L, local size 0..20000 MiB symbolic"),
    ]

    def add(name, n, s, r, f, reach, weight=1, **p):
        p["n"] = n
        hs.append(Harness(name, nranks=n, setup=s, rank=r, final=f, params=p, reach=reach,
                          samples=4, weight=weight, bounds=f"{n} ranks, {p}"))

    for n in (1, 2, 3):
        add(f"read_hdf5_r{n}", n, rd_setup, rd_rank, rd_final, ["hdf5", "slice", "list"], 5 + n,
            dmax=4 if big else 3, fmts=["hdf5"], dtypes=["i8", "be"],
            kinds=["none", "slice", "list"])
    add("read_zarr_r2", 2, rd_setup, rd_rank, rd_final, ["zarr", "slice"], 5, dmax=4 if big else 3,
        fmts=["zarr"], dtypes=["i8"], kinds=["slice"])
    for n in (1, 2, 3):
        add(f"write_r{n}", n, wr_setup, wr_rank, wr_final, ["hdf5", "zarr"], 6, dmax=4,
            fmts=["hdf5", "zarr"])
    for n in (1, 2, 3):
        hs.append(Harness(f"mpiio_r{n}", mpiio, params=dict(n=n, dmax=5 if big else 4,
                                                           limit=16 if big else 11),
                          reach=["ok", "partitioned", "refused"], weight=4,
                          bounds=f"{n} ranks, dims 0..4 x 5, IO limit 1..11 elements"))
    return hs


class npatch:
    def __enter__(self):
        from caput import mpiarray

        self.m = mpiarray
        mpiarray.np = FakeNP()

    def __exit__(self, *a):
        self.m.np = np
