"""P21: concatenated time-ordered data is the wanted range of all pieces, in order.

The real `concatenate` is executed on stand-ins for containers whose time axes have symbolic lengths
(`len` and the array constructors are replaced in its module), with a symbolic range: every write to
the output is recorded as (where, from which piece, from where), and for a symbolic position of the
output the solver decides that exactly one write covers it, with the right sample. The same inputs
run on real containers: in memory, from HDF5 files, into files, and distributed over ranks, where
everything else (other axes, attributes, history, filters, selections of datasets) is compared with
plain numpy concatenation. The time range selection of the reader runs on symbolic times.
"""

import os
import shutil
import tempfile

import numpy as np

from vp.harness import Harness

ASSUMPTIONS = [
    "pieces have the same datasets, with a time axis which is not the distributed one",
    "symbolic: up to 3 (thorough 4) pieces of up to 1000 samples, range within +-4000",
    "real containers: up to 3 pieces of up to 2 (thorough 3) samples",
    "an empty range may leave the time-ordered datasets out",
]


def scratch():
    return tempfile.mkdtemp(prefix="p21-", dir=os.environ.get("VP_SCRATCH") or None)


# ------------------------------------------------------------------ symbolic lengths


class Piece:
    """Samples [lo, lo + n) of one input along time (other axes are whole)."""

    dtype = np.dtype(float)

    def __init__(self, src, lo, n, axis):
        self.src, self.lo, self.n, self.axis = src, lo, n, axis
        self.attrs = {"axis": np.array(axis)}
        self.name = None

    @property
    def shape(self):
        return tuple(self.n if a == "time" else 2 for a in self.axis)

    def _time(self, key):
        key = key if isinstance(key, tuple) else (key,)
        t = slice(None)
        for a, k in zip(self.axis, key):
            if a == "time":
                t = k
            elif k != slice(None):
                raise NotImplementedError("other axis sliced")
        return t

    def __getitem__(self, key):
        from vp import symslice

        t = self._time(key)
        if not isinstance(t, slice) or t.step is not None:
            raise NotImplementedError("index of unexpected form")
        a, b, _ = symslice.indices(symslice.SymSlice(t.start, t.stop), self.n)
        return Piece(self.src, self.lo + a, b - a if b > a else 0, self.axis)


class Store:
    dtype = np.dtype(float)

    def __init__(self, shape, axis=("time",)):
        self.shape, self.axis, self.writes, self.attrs = tuple(shape), axis, [], {}

    @property
    def n(self):
        return self.shape[list(self.axis).index("time")]

    def __setitem__(self, key, value):
        from vp import symslice

        t = Piece._time(self, key)
        a, b, _ = symslice.indices(symslice.SymSlice(t.start, t.stop), self.n)
        self.writes.append((a, b if b > a else a, value))

    def __getitem__(self, key):
        return self


class Fake:
    """What `concatenate` may use of a container."""

    time_axes = ("time",)
    distributed = False
    comm = None
    name = "/"

    def __init__(self, group=None, distributed=False, comm=None):
        self.attrs, self.index_map, self.dsets = {}, {}, {}
        self.reverse_map, self.index_attrs = {}, {"time": {}, "freq": {}}
        self._data = {"history": self, "index_map": self.index_map, "reverse_map": self.reverse_map}

    def create_index_map(self, axis, v):
        self.index_map[axis] = v

    def create_dataset(self, name, shape=None, dtype=None, **k):
        axis = ("time",) if len(shape) == 1 else ("freq", "time") if shape[0] == 2 else ("time", "freq")
        self.dsets[name] = Store(shape, axis)
        return self.dsets[name]

    def __iter__(self):
        return iter(self.dsets)

    def __contains__(self, k):
        return k in self.dsets

    def __getitem__(self, k):
        return self.dsets[k.strip("/")]

    def keys(self):
        return self.dsets.keys()


class Proxy:
    def __init__(self, mod, **over):
        self._mod, self._over = mod, over

    def __getattr__(self, k):
        return self._over[k] if k in self._over else getattr(self._mod, k)


def ranges(ctx, lo, hi):
    return [None if ctx.choose(k + "-given", [True, False]) is False else ctx.int(k, lo, hi)
            for k in ("start", "stop")]


def resolve(start, stop, n):
    """Python's meaning of [start:stop] on n samples."""
    def norm(v, d):
        if v is None:
            return d
        if v < 0:
            v = v + n
            return 0 if v < 0 else v
        return n if v > n else v

    a, b = norm(start, 0), norm(stop, n)
    return a, (b if b > a else a)


def symbolic(ctx):
    from vp import engine

    from caput import memdata
    from caput.containers import tod

    k, top = ctx.params["pieces"], ctx.params["nmax"]
    ns = [ctx.int(f"n{i}", 0, top) for i in range(k)]
    start, stop = ranges(ctx, -4 * top, 4 * top)
    form = ctx.choose("form", ["scalar", "dict"])
    data = []
    for i, n in enumerate(ns):
        f = Fake()
        f.index_map["time"] = Piece(i, 0, n, ("time",))
        for name, ax in (("a", ("time",)), ("b", ("freq", "time"))):
            f.dsets[name] = Piece(i, 0, n, ax)
            f.dsets[name].name = "/" + name
        data.append(f)
    import builtins

    saved = {x: tod.__dict__.get(x) for x in ("np", "memdata")}
    tod.np = Proxy(np, empty=lambda shape, dtype=None: Store(shape))
    tod.memdata = Proxy(memdata, is_group=lambda x: isinstance(x, Fake), copyattrs=lambda *a, **k: None,
                        MemDataset=(memdata.MemDataset, Piece))
    tod.len = lambda x: x.n if isinstance(x, (Piece, Store)) else builtins.len(x)
    try:
        a = {"time": start} if form == "dict" else start
        b = {"time": stop} if form == "dict" else stop
        out = tod.concatenate(data, start=a, stop=b)
        stores = [out.index_map["time"], *out.dsets.values()]
        names = set(out.dsets)
    except Exception as e:  # the stand-ins do not fit: the real containers decide
        raise engine.Skip(f"{type(e).__name__}: {e}")
    finally:
        tod.__dict__.update(saved)
        del tod.len
    total = sum(ns[1:], ns[0])
    s, e = resolve(start, stop, total)
    offs = [sum(ns[1:i], ns[0]) if i else 0 for i in range(k)]
    if not all(isinstance(x, Store) for x in stores):
        raise engine.Skip("output of unexpected form")
    ctx.check(ctx.Or(e == s, names == {"a", "b"}), "a dataset is missing")
    g = ctx.int("g", 0, 4 * top)
    for st in stores:
        ctx.check(st.n == e - s, "the output has a wrong length")
        cover = []
        for a, b, p in st.writes:
            ctx.check(b - a == p.n, "a piece does not fit where it is put")
            cover.append(ctx.And(a <= g, g < b, offs[p.src] + p.lo + (g - a) == s + g))
        wrong = [ctx.And(a <= g, g < b, offs[p.src] + p.lo + (g - a) != s + g) for a, b, p in st.writes]
        inside = g < e - s
        ctx.check(ctx.Or(ctx.Not(inside), ctx.And(ctx.Or(*cover), ctx.Not(ctx.Or(*wrong)))),
                  "a sample of the output is not the one of the range")
    if e - s > ns[0]:
        ctx.reach("several")
    ctx.reach("done")


def r_symbolic(ctx):
    k, top = ctx.params["pieces"], ctx.params["nmax"]
    ns = [ctx.int(f"n{i}", 0, top) for i in range(k)]
    start, stop = ranges(ctx, -4 * top, 4 * top)
    form = ctx.choose("form", ["scalar", "dict"])
    data = [piece(i, n, sum(ns[:i])) for i, n in enumerate(ns)]
    check_concat(ctx, data, ns, start, stop, form)


# ------------------------------------------------------------------ real containers


def value(name, i0, n):
    t = np.arange(i0, i0 + n)
    if name == "vis":
        return t[None] + 1000 * np.arange(2)[:, None]
    if name == "cube":
        return (t[None, :, None] + 1000 * np.arange(2)[:, None, None] + 10000 * np.arange(3)) * (1 + 1j)
    if name == "rows":
        return (t[:, None] * 1.5 + 1000 * np.arange(2)).astype(np.float32)
    if name == "label":
        return np.array([b"s%d" % x for x in t], dtype="S5")
    return t * 2.0


AXES = {"vis": ["freq", "time"], "cube": ["freq", "time", "pol"], "rows": ["time", "freq"], "flag": ["time"],
        "label": ["time"]}


def piece(i, n, i0, cls=None, names=("vis", "cube", "rows", "flag", "label"), **kw):
    from caput.containers import tod

    d = (cls or tod.TOData)(**kw)
    dt = [("ctime", float), ("fpga", np.int64)]
    tm = np.zeros(n, dtype=dt)
    tm["ctime"], tm["fpga"] = 100.0 + np.arange(i0, i0 + n), 7 * np.arange(i0, i0 + n)
    d.create_index_map("time", tm)
    d.create_index_map("freq", np.array([400.0, 500.0]))
    for name in names:
        x = d.create_dataset(name, data=value(name, i0, n))
        x.attrs["axis"] = np.array(AXES[name])
        x.attrs["unit"] = f"u-{name}"
    x = d.create_dataset("gain", data=np.arange(2) + 10 * i)
    x.attrs["axis"] = np.array(["freq"])
    d.create_dataset("plain", data=np.arange(3) + 10 * i).attrs["by"] = b"te"
    d.attrs["which"] = i
    d.add_history("made", {"by": [i, "x"]})
    d.create_reverse_map("stack", np.arange(3) + i)
    d.index_attrs["time"]["alignment"] = i
    d.index_attrs["freq"]["q"] = i
    return d


def arr(x):
    x = x[:]
    return np.asarray(x.local_array if hasattr(x, "local_array") else x)


def check_concat(ctx, data, ns, start, stop, form="scalar", names=None, filt=None, pieces=None, out=None):
    from caput.containers import tod

    a = {"time": start} if form == "dict" else start
    b = {"time": stop} if form == "dict" else stop
    kw = {} if names is None else {"datasets": names}
    f = None
    if filt == "one":
        def f(d):
            return d
    elif filt == "slice":
        def f(d, sl):
            ax = list(d.attrs["axis"]).index("time")
            return d[(slice(None),) * ax + (sl,)]
    o = tod.concatenate(data, start=a, stop=b, dataset_filter=f, out_group=out, **kw)
    if form == "dict":
        ctx.check(a == {"time": start} and b == {"time": stop}, "the ranges given were modified")
    compare(ctx, o, ns, start, stop, names)


def compare(ctx, o, ns, start, stop, names=None, part=slice(None)):
    total = sum(ns)
    s, e = resolve(start, stop, total)
    time = o.index_map["time"]
    ctx.check(np.array_equal(time["ctime"], 100.0 + np.arange(s, e))
              and np.array_equal(time["fpga"], 7 * np.arange(s, e)), "wrong time samples",
              got=time.tolist(), want=[s, e])
    want = set(AXES if names is None else names)
    for name in AXES:
        if name in want and (e > s or name in o):
            ctx.check(name in o, "a dataset is missing", name=name)
            v = value(name, s, e - s)
            if AXES[name][0] == "freq":
                v = v[part]
            g = arr(o[name])
            ctx.check(g.shape == v.shape and g.dtype == v.dtype and np.array_equal(g, v),
                      "a dataset is not the range of the pieces", name=name, got=g.tolist(),
                      want=v.tolist())
            ctx.check(list(o[name].attrs["axis"]) == AXES[name] and o[name].attrs["unit"] == f"u-{name}",
                      "the attributes of a dataset are not those of the first piece", name=name)
        elif name not in want:
            ctx.check(name not in o, "a dataset which was not asked for is there", name=name)
    ctx.check(np.array_equal(arr(o["gain"]), [0, 1]) and np.array_equal(arr(o["plain"]), [0, 1, 2])
              and o["plain"].attrs["by"] in (b"te", "te"), "other data is not that of the first piece")
    ctx.check(np.array_equal(o.index_map["freq"], [400.0, 500.0])
              and np.array_equal(o.reverse_map["stack"], [0, 1, 2]), "the other maps are not kept")
    ctx.check(o.attrs["which"] == 0 and o.index_attrs["freq"]["q"] == 0
              and o.index_attrs["time"]["alignment"] == 0, "the attributes are not those of the first piece")
    ctx.check(o.history["order"] == ["made"] and o.history["made"] == {"by": [0, "x"]},
              "the history is not that of the first piece")


def small(ctx):
    """All small lengths and ranges, in memory."""
    k = ctx.concretize(ctx.int("pieces", 1, 3))
    ns = [ctx.concretize(ctx.int(f"n{i}", 0, ctx.params["n"])) for i in range(k)]
    start, stop = [None if v is None else ctx.concretize(v) for v in ranges(ctx, -4, 5)]
    data = [piece(i, n, sum(ns[:i]), names=("vis", "rows")) for i, n in enumerate(ns)]
    from caput.containers import tod

    o = tod.concatenate(data, start=start, stop=stop)
    s, e = resolve(start, stop, sum(ns))
    ctx.check(np.array_equal(o.index_map["time"]["fpga"], 7 * np.arange(s, e)), "wrong time samples")
    for name in ("vis", "rows"):
        if e > s or name in o:
            ctx.check(name in o and np.array_equal(arr(o[name]), value(name, s, e - s)),
                      "a dataset is not the range of the pieces", name=name, want=[s, e])
    for d, n, i in zip(data, ns, range(k)):
        ctx.check(np.array_equal(arr(d["vis"]), value("vis", sum(ns[:i]), n)), "an input was modified")
    ctx.reach("done")


def options(ctx):
    """Everything else than the range."""
    ns = ctx.choose("ns", [(2,), (1, 2), (2, 1, 2), (0, 2), (2, 0)])
    start, stop = ctx.choose("range", [(None, None), (1, None), (None, -1), (1, 3), (-2, None), (0, 2)])
    form = ctx.choose("form", ["scalar", "dict"])
    names = ctx.choose("names", [None, ["vis"], ("cube", "flag"), ["rows", "label"], []])
    filt = ctx.choose("filter", [None, "one", "slice"])
    seq = ctx.choose("seq", [list, tuple])
    data = seq([piece(i, n, sum(ns[:i])) for i, n in enumerate(ns)])
    check_concat(ctx, data, ns, start, stop, form, names, filt)
    ctx.reach("done")


def files(ctx):
    """From HDF5 files, through the class, the reader, and into a file."""
    import h5py

    from caput.containers import tod

    ns = ctx.choose("ns", [(2,), (1, 2), (2, 1, 2)])
    start, stop = ctx.choose("range", [(None, None), (1, None), (None, -1), (1, 3), (-2, None), (0, 2)])
    names = ctx.choose("names", [None, ["vis", "flag"]])
    how = ctx.choose("how", ["glob", "list", "tuple", "handles", "reader", "out"])
    d = scratch()
    try:
        paths = []
        for i, n in enumerate(ns):
            p = f"{d}/f{i}.h5"
            piece(i, n, sum(ns[:i])).save(p)
            paths.append(p)
        if how == "reader":
            r = tod.TODReader(f"{d}/f*.h5" if names else paths)
            ctx.check(sorted(r.datasets) == sorted(AXES), "the reader lists other datasets", got=r.datasets)
            ctx.check(np.array_equal(r.time, 100.0 + np.arange(sum(ns))), "the reader has other times")
            s, e = resolve(start, stop, sum(ns))
            r.time_sel = (s, e)
            if names:
                r.dataset_sel = names
            o = r.read()
        else:
            f = {"glob": f"{d}/f*.h5", "list": paths, "tuple": tuple(paths), "out": paths}.get(how)
            if f is None:
                f = [h5py.File(p, "r") for p in paths]
            g = h5py.File(f"{d}/out.h5", "w") if how == "out" else None
            o = tod.TOData.from_mult_files(f, data_group=g, start=start, stop=stop, datasets=names)
        if how == "out":
            g.flush()
            o = tod.TOData.from_file(g)
        compare(ctx, o, ns, start, stop, names)
        ctx.reach("done")
    finally:
        shutil.rmtree(d, ignore_errors=True)


def reader(ctx):
    """The samples selected by time are those whose times are in the range."""
    from caput.containers import tod

    ns = [ctx.concretize(ctx.int(f"n{i}", 1, 2)) for i in range(2)]
    step = ctx.choose("step", [0.5, 1.0])
    data = [piece(i, n, sum(ns[:i])) for i, n in enumerate(ns)]
    r = tod.TODReader(data)
    t = 100.0 + np.arange(sum(ns))
    a, b = [None if ctx.choose(k + "-given", [True, False]) is False
            else 99.0 + step * ctx.concretize(ctx.int(k, 0, 12)) for k in ("t0", "t1")]
    if bool(ctx.bool("twice")):
        r.select_time_range(start_time=a)
        r.select_time_range(stop_time=b)
    else:
        r.select_time_range(a, b)
    o = r.read()
    ok = np.ones(len(t), bool)
    if a is not None:
        ok &= t >= a
    if b is not None:
        ok &= t < b
    ctx.check(np.array_equal(o.index_map["time"]["ctime"], t[ok]), "other samples than those in the time range",
              got=o.index_map["time"]["ctime"].tolist(), want=t[ok].tolist())
    if ok.any() or "vis" in o:
        ctx.check(np.array_equal(arr(o["vis"]), value("vis", 0, sum(ns))[:, ok]), "other data than in the range")
    try:
        r.dataset_sel = ["nothing"]
    except ValueError:
        ctx.reach("refused")
    else:
        ctx.fail("an unknown dataset can be selected")


def di_setup(ctx):
    return dict(ns=ctx.choose("ns", [(2,), (1, 2), (2, 0, 1)]),
                range=ctx.choose("range", [(None, None), (1, None), (None, -1), (1, 3), (-2, None)]),
                slice=bool(ctx.bool("slice")))


def di_rank(ctx, comm, inp):
    from caput.containers import tod

    ns = inp["ns"]
    start, stop = inp["range"]
    data = []
    for i, n in enumerate(ns):
        d = piece(i, n, sum(ns[:i]), distributed=True, comm=comm)
        for x in ("vis", "cube"):
            d.dataset_common_to_distributed(x, distributed_axis=0)
        data.append(d)
    f = None
    if inp["slice"]:
        def f(d, sl):
            ax = list(d.attrs["axis"]).index("time")
            return d[(slice(None),) * ax + (sl,)]
    o = tod.concatenate(data, start=start, stop=stop, dataset_filter=f)
    return (bool(o.distributed), {k: bool(o[k].distributed) for k in o},
            {k: np.array(o[k].local_data if o[k].distributed else o[k][:]) for k in o},
            np.array(o.index_map["time"]))


def di_final(ctx, results, inp):
    from props import mpicommon as mc

    vals = mc.all_ok(ctx, results, "concatenation")
    s, e = resolve(*inp["range"], sum(inp["ns"]))
    for r, (dist, kinds, got, time) in enumerate(vals):
        ctx.check(dist and kinds["vis"] and kinds["cube"] and not kinds["flag"], "the distribution is not kept",
                  got=kinds)
        a, b = mc.ref_split(2, len(vals))[r]
        for name in AXES:
            v = value(name, s, e - s)
            if name in ("vis", "cube"):
                v = v[a:b]
            ctx.check(got[name].shape == v.shape and np.array_equal(got[name], v),
                      "a distributed dataset is not the range of the pieces", name=name)
        ctx.check(np.array_equal(time["fpga"], 7 * np.arange(s, e)), "wrong time samples")
    ctx.reach("done")


def harnesses(tier):
    q = tier == "quick"
    out = []
    for k in range(1, 4 if q else 5):
        out.append(Harness(f"lengths-{k}", symbolic, params={"pieces": k, "nmax": 1000}, replay_body=r_symbolic,
                           reach=["done"] + ["several"] * (k > 1), weight=2 * k,
                           bounds=f"{k} pieces of 0..1000 samples, range within +-4000"))
    out.append(Harness("small", small, params={"n": 2 if q else 3}, reach=["done"], weight=8,
                       bounds="1-3 pieces of 0..2 (thorough 3) samples, all ranges within -4..5"))
    out.append(Harness("options", options, reach=["done"], weight=6,
                       bounds="5 lists of lengths, 6 ranges, dataset selections, filters, lists and tuples"))
    out.append(Harness("files", files, reach=["done"], weight=6,
                       bounds="1-3 HDF5 files, 6 ranges, 6 ways of opening"))
    out.append(Harness("reader", reader, reach=["refused"], weight=3,
                       bounds="2 pieces, times on and between the samples, before and after them"))
    for n in (1, 2) if q else (1, 2, 3):
        out.append(Harness(f"distributed-{n}", setup=di_setup, rank=di_rank, final=di_final, nranks=n,
                           reach=["done"], weight=3, bounds=f"{n} ranks, data distributed over frequency"))
    return out
