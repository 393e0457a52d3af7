"""P31: rows written by several processes make up exactly the array, and change nothing else.

The real functions for writing one file from several processes run on all ranks of a simulated
communicator, in a symbolically chosen order, for arrays of symbolic shapes, types and memory
layouts, into files which already hold other datasets. The file is read back by h5py and compared
with the array and with what it held before. Writing into a region is compared, byte by byte, with
the file it replaces, for symbolic offsets and sizes.
"""

import os
import shutil
import tempfile
import warnings

import numpy as np

from vp.harness import Harness

ASSUMPTIONS = [
    "up to 3 ranks, arrays of at most 4 rows and 2 further axes; the ranks share a file system with atomic pwrite",
    "all ranks are finished writing before the file is read",
]

TYPES = ["u1", "i4", "f8", "c16", ">f4"]


class Scratch:
    def __enter__(self):
        warnings.simplefilter("ignore")
        self.d = tempfile.mkdtemp(prefix="p31-", dir=os.environ.get("VP_SCRATCH") or None)
        return self.d

    def __exit__(self, *a):
        shutil.rmtree(self.d, ignore_errors=True)


def rows(ctx):
    """Every rank writes its rows; together they are the array."""
    import h5py

    from caput.util import mpitools
    from props import mpicommon as mc
    from vp import mpisim

    mpisim.install()
    n = ctx.params["n"]
    nr = ctx.concretize(ctx.int("rows", 0, 4))
    shape = (nr, *ctx.choose("rest", [(), (1,), (3,), (2, 2), (0,)]))
    dtype = np.dtype(ctx.choose("type", TYPES))
    layout = ctx.choose("layout", ["C", "F", "strided"])
    other = bool(ctx.bool("other"))
    size = int(np.prod(shape))
    full = (np.arange(1, size + 1) * (1 + 2j if dtype.kind == "c" else 1)).astype(dtype).reshape(shape)
    old = np.arange(5, dtype=np.int32) + 7
    with Scratch() as d:
        f = f"{d}/x.h5"
        if other:
            with h5py.File(f, "w") as fh:
                fh["old"] = old

        def rank(comm):
            _, s, e = mpitools.split_local(nr, comm=comm)
            x = full[s:e]
            if layout == "F":
                x = np.asfortranarray(x)
            elif layout == "strided":
                b = np.zeros((x.shape[0] * 2, *x.shape[1:]), dtype)
                b[::2] = x
                x = b[::2]
            mpitools.parallel_rows_write_hdf5(f, "new", x, shape, comm=comm)

        if n == 0:
            rank(None)
        else:
            mc.all_ok(ctx, mpisim.run(n, rank), "writing")
        try:
            with h5py.File(f, "r") as fh:
                got = fh["new"][()]
                names = sorted(fh)
                kept = fh["old"][()] if other else None
        except OSError as e:
            ctx.check(False, "the file cannot be read any more", error=str(e))
        ctx.check(got.shape == shape and got.dtype == dtype, "another shape or type", got=(got.shape, got.dtype), want=(shape, dtype))
        ctx.check(np.array_equal(got, full), "the array differs", got=got.tolist(), want=full.tolist(), layout=layout)
        ctx.check(names == (["new", "old"] if other else ["new"]) and (not other or np.array_equal(kept, old)), "other data was changed")
    ctx.reach("empty" if size == 0 else "rows")


def region(ctx):
    """Writing a buffer changes exactly its bytes, and refuses what does not fit."""
    from caput.util import mpitools

    dtype = np.dtype(ctx.choose("type", TYPES))
    n = ctx.concretize(ctx.int("elements", 1, 3))
    two = bool(ctx.bool("two"))
    offset = ctx.concretize(ctx.int("offset", 0, 12))
    spare = ctx.concretize(ctx.int("spare", -1, 1))
    length = ctx.choose("length", [None, 0, 10, 200])
    data = np.arange(1, n * (1 + two) + 1).astype(dtype).reshape((1 + two, n) if two else (n,))
    with Scratch() as d:
        f = f"{d}/x"
        before = b""
        if length is not None:
            before = bytes(range(100, 100 + length)) if length < 100 else bytes([i % 251 for i in range(length)])
            with open(f, "wb") as fh:
                fh.write(before)
        nbytes = data.nbytes
        try:
            mpitools.lock_and_write_buffer(data, f, offset, nbytes + spare)
            ok = True
        except Exception:  # noqa: BLE001
            ok = False
        ctx.check(ok == (spare >= 0), "data too large for its region was accepted" if ok else "data of the right size was refused",
                  size=nbytes + spare, nbytes=nbytes)
        got = b""
        if os.path.exists(f):
            with open(f, "rb") as fh:
                got = fh.read()
        want = before
        if ok:
            want = before[:offset].ljust(offset, b"\0") + data.tobytes() + before[offset + nbytes:]
        ctx.check(got == want, "other bytes than those of the region were changed", got=got.hex(), want=want.hex(), offset=offset)
        # the region is not locked any more
        if ok:
            mpitools.lock_and_write_buffer(data, f, offset, nbytes)
    ctx.reach("fits" if spare >= 0 else "too large")


def allocate(ctx):
    """The offset and size are those of the dataset in the file."""
    import h5py

    from caput.util import mpitools

    k = ctx.concretize(ctx.int("datasets", 1, ctx.params["k"]))
    specs = [((ctx.concretize(ctx.int(f"rows{i}", 1, 3)), *ctx.choose(f"rest{i}", [(), (2,)])), np.dtype(ctx.choose(f"type{i}", TYPES[1:4])))
             for i in range(k)]
    with Scratch() as d:
        f = f"{d}/x.h5"
        regions = []
        for i, (shape, dt) in enumerate(specs):
            off, size = mpitools.allocate_hdf5_dataset(f, f"d{i}", shape, dt, comm=None)
            ctx.check(size == int(np.prod(shape)) * dt.itemsize, "another size", got=size)
            regions.append((off, size))
        regs = sorted(regions)
        ctx.check(all(a + s <= b for (a, s), (b, _) in zip(regs, regs[1:])), "datasets overlap", got=regions)
        for i, (off, size) in enumerate(regions):
            with open(f, "r+b") as fh:
                fh.seek(off)
                fh.write(bytes([i + 1]) * size)
        with h5py.File(f, "r") as fh:
            for i, (shape, dt) in enumerate(specs):
                x = fh[f"d{i}"][()]
                ctx.check(x.shape == shape and x.dtype == dt and x.tobytes() == bytes([i + 1]) * x.nbytes, "the data is elsewhere", i=i)
    ctx.reach("done")


def harnesses(tier):
    q = tier == "quick"
    out = []
    for n in (0, 1, 2, 3) if q else (0, 1, 2, 3, 4, 5):
        out.append(Harness(f"rows-{n}", rows, params={"n": n}, reach=["rows", "empty"], weight=3,
                           bounds=f"{n or 'no'} ranks, 0-4 rows, 5 kinds of rows, 5 types, 3 layouts"))
    out.append(Harness("region", region, reach=["fits", "too large"], weight=2, bounds="offsets 0-12, 1-6 elements of 5 types, 4 files"))
    out.append(Harness("allocate", allocate, params={"k": 2 if q else 3}, reach=["done"], weight=2, bounds=f"1-{2 if q else 3} datasets"))
    return out
