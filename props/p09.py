"""P09: copies and files reproduce the whole tree: structure, data, types and attributes."""

import os
import shutil
import tempfile
import warnings

import numpy as np

from vp import engine
from vp.harness import Harness
from . import mpicommon as mc

ASSUMPTIONS = [
    "trees with datasets at the root and up to two groups deep; elements are distinct tokens",
    "selections are slices, position lists and tuples of them; datasets have at least one "
    "dimension",
    "h5py here has no MPI support, so distributed trees are written through the serial fallback",
    "zarr stores lists and arrays in attributes as lists",
]

DT = {
    "i4": np.int32, "f8": np.float64, "c8": np.complex64, "b1": np.bool_,
    "S3": np.dtype("S3"), "be": np.dtype(">i2"), "U3": np.dtype("U3"),
    "rec": np.dtype([("a", np.int32), ("s", "S4"), ("v", np.float64, (2,))]),
    "recU": np.dtype([("a", np.int32), ("s", "U4")]),
    "O": np.dtype(object),
}


def scratch():
    return tempfile.mkdtemp(prefix="p09-", dir=os.environ.get("VP_SCRATCH") or None)


def array(shape, name, salt=0):
    dt = DT[name]
    n = int(np.prod(shape))
    t = np.arange(1 + salt, 1 + salt + n)
    if name == "O":
        a = np.empty(n, dtype=object)
        for i in range(n):
            a[i] = [int(t[i])]
    elif name in ("rec", "recU"):
        a = np.zeros(n, dtype=dt)
        a["a"] = t
        a["s"] = [f"s{x}" for x in t]
        if name == "rec":
            a["v"] = np.stack([t, -t], -1) if n else a["v"]
    elif dt in (DT["S3"], DT["U3"]):
        a = np.array([f"t{x}" for x in t], dtype=dt)
    elif name == "b1":
        a = t % 2 == 0
    elif name == "c8":
        a = (t - 2j * t).astype(dt)
    else:
        a = t.astype(dt)
    return a.reshape(shape)


def same(a, b):
    """Equal shape and elements (byte order and string width do not matter)."""
    a, b = np.asarray(a), np.asarray(b)
    if a.shape != b.shape:
        return False
    if a.dtype.names != b.dtype.names:
        return False

    def norm(v):
        if isinstance(v, np.ndarray):
            v = v.tolist()
        if isinstance(v, (list, tuple)):
            return [norm(x) for x in v]
        return v.decode() if isinstance(v, bytes) else v

    return norm(a) == norm(b)


def kind_of(dt):
    if dt.names:
        return tuple(kind_of(dt[n]) for n in dt.names)
    if dt.subdtype:
        return (kind_of(dt.subdtype[0]), dt.subdtype[1])
    return (dt.kind, dt.itemsize)


def sel_of(ctx, name, kinds):
    k = ctx.choose(name, kinds)
    return {
        "none": None, "slice": slice(1, 3), "step": slice(None, None, 2), "empty": slice(2, 2),
        "list": [0, 2], "tuple": (slice(0, 2), slice(1, None)), "neg": slice(-2, None),
    }[k]


def attrs_eq(a, b):
    """Compare attribute dictionaries; arrays and lists with the same elements are equal."""
    def plain(v):
        if isinstance(v, np.ndarray):
            return [plain(x) for x in v.tolist()] if v.ndim else plain(v.item())
        if isinstance(v, np.generic):
            return v.item()
        if isinstance(v, (list, tuple)):
            return [plain(x) for x in v]
        if isinstance(v, dict):
            return {k: plain(x) for k, x in v.items()}
        return v

    return plain(dict(a)) == plain(dict(b))


ATTRS = {
    "": {"top": 1, "cfg": {"k": [1, 2], "s": "x"}},
    "g": {"axes": ["p", "q"], "n": 3.5},
    "g/h": {"empty": ""},
    "x": {"unit": "K", "vals": [1, 2, 3]},
    "g/y": {"d": {"deep": {"er": True}}},
    "g/h/z": {"flag": True},
}
SHAPES = {"x": (4,), "g/y": (3, 4), "g/h/z": (3, 2)}


def build(root, dts, shapes, **opts):
    src = {}
    for i, n in enumerate(("x", "g/y", "g/h/z")):
        a = array(shapes[n], dts[n], salt=100 * i)
        d = root.create_dataset(n, data=a.copy(), **opts.get(n, {}))
        src[n] = a
        d.attrs.update({k: v for k, v in ATTRS[n].items()})
    for n in ("", "g", "g/h"):
        (root[n] if n else root).attrs.update(ATTRS[n])
    return src


def entries(g):
    """All entries below a group: path -> 'g' or 'd'."""
    from caput import memdata

    out = {}

    def walk(h, pre):
        for k in h:
            e = h[k]
            if memdata.is_group(e):
                out[pre + k] = "g"
                walk(e, pre + k + "/")
            else:
                out[pre + k] = "d"

    walk(g, "")
    return out


TREE = {"x": "d", "g": "g", "g/y": "d", "g/h": "g", "g/h/z": "d"}


def want_sel(a, s):
    return a if s is None else a[s]


# ------------------------------------------------------------------------- memory to memory


def memcopy(ctx):
    from caput import memdata
    from caput.memdata import _memh5

    import copy as cp

    dt = ctx.choose("dtype", ctx.params["dtypes"])
    dts = {"x": "i4", "g/y": dt, "g/h/z": "f8"}
    api = ctx.choose("api", ctx.params["apis"])
    root = memdata.MemGroup() if api in ("from_group", "deep") else memdata.MemDiskGroup()
    src = build(root, dts, SHAPES, **{"g/y": dict(chunks=(2, 2), compression="gzip",
                                                 compression_opts=3)})
    shallow, shared, sels = False, [], {}
    if api in ("copy", "deep"):
        shallow = bool(ctx.bool("shallow"))
        if not shallow:
            for i, n in enumerate(src):
                how = ctx.choose(f"share{i}", ["no", "rel", "abs"])
                if how != "no":
                    shared.append(n if how == "rel" else "/" + n)
    if api == "deep":
        for i, n in enumerate(src):
            s = sel_of(ctx, f"sel{i}", [["none", "slice", "list", "empty"],
                                        ["none", "tuple", "list", "slice"],
                                        ["none", "step", "tuple"]][i])
            if s is not None:
                sels[n if i % 2 else "/" + n] = s
        bad = any(shallow or n.strip("/") in [k.strip("/") for k in shared] for n in sels)
    conv = bool(ctx.bool("conv")) if api == "deep" else False
    if api == "from_group":
        out = memdata.MemGroup.from_group(root)
    elif api == "deepcopy":
        out = cp.deepcopy(root)
    elif api == "copy":
        out = root.copy(shared=shared, shallow=shallow)
    else:
        out = memdata.MemGroup()
        try:
            r = _memh5.deep_group_copy(root, out, selections=sels or None, shallow=shallow,
                                       shared=shared, convert_dataset_strings=conv)
        except ValueError:
            ctx.check(bad, "only a selection of a shared dataset is refused")
            ctx.reach("refused")
            return
        ctx.check(not bad, "a selection of a shared dataset is refused")
        ctx.check(r is None, "return value")
    ctx.check(type(out) is type(root), "the copy has the type of the original")
    ctx.check(entries(out) == TREE, "the copy has the same entries", got=entries(out))
    for n in ("", "g", "g/h"):
        a, b = (root[n], out[n]) if n else (root, out)
        ctx.check(attrs_eq(a.attrs, ATTRS[n]) and attrs_eq(b.attrs, ATTRS[n]),
                  "group attributes are copied", at=n, got=dict(b.attrs))
        b.attrs["new"] = 1
        ctx.check("new" not in a.attrs, "attributes of a copied group are independent", at=n)
        for v in b.attrs.values():
            if isinstance(v, dict):
                v["mut"] = 1
            elif isinstance(v, list):
                v.append("mut")
        ctx.check(attrs_eq(a.attrs, ATTRS[n]), "nested attributes are independent", at=n,
                  got=dict(a.attrs))
    sh = {k.strip("/") for k in shared}
    for n, a in src.items():
        s, d = root[n], out[n]
        sel = sels.get(n, sels.get("/" + n))
        want = want_sel(a, sel)
        ctx.check(same(d[:], want), "the copy holds the selected data", at=n, got=d[:], want=want)
        if not conv:
            ctx.check(d.dtype == s.dtype, "the copy keeps the type", at=n)
        ctx.check(attrs_eq(d.attrs, ATTRS[n]), "dataset attributes are copied", at=n,
                  got=dict(d.attrs))
        ctx.check(d.compression == s.compression and d.compression_opts == s.compression_opts
                  and d.chunks == s.chunks, "storage options are copied", at=n)
        isshared = shallow or n in sh
        if d[:].size:
            ctx.check(np.shares_memory(d.data, s.data) == isshared,
                      "data is shared exactly where asked", at=n, shared=isshared)
            if dts[n] == "O" and not isshared:
                d.data.flat[0].append("mut")
                ctx.check(same(s[:], a), "objects in the copy are independent", at=n)
        if not isshared:
            d.attrs["new"] = 2
            ctx.check("new" not in s.attrs, "attributes of a copied dataset are independent", at=n)
            for v in d.attrs.values():
                if isinstance(v, dict):
                    v["mut"] = 1
                elif isinstance(v, list):
                    v.append("mut")
            ctx.check(attrs_eq(s.attrs, ATTRS[n]), "nested attributes are independent", at=n)
        ctx.reach("shared" if isshared else "deep")


# ------------------------------------------------------------------------------- via a file


def tofile(ctx):
    from caput import memdata
    from caput.memdata import fileformats

    fmt = ctx.params["fmt"]
    ff = {"hdf5": fileformats.HDF5, "zarr": fileformats.Zarr}[fmt]
    ext = {"hdf5": ".h5", "zarr": ".zarr"}[fmt]
    dt = ctx.choose("dtype", ctx.params["dtypes"])
    shape = ctx.choose("shape", [(3, 4), (0, 4), (1, 1)])
    dts = {"x": "i4", "g/y": dt, "g/h/z": "f8"}
    shapes = dict(SHAPES, **{"g/y": shape})
    opts = {}
    if ctx.bool("chunked") and shape == (3, 4):
        o = dict(chunks=(2, 2))
        if fmt == "hdf5":
            o.update(compression="gzip", compression_opts=3)
        opts["g/y"] = o
    conv = bool(ctx.bool("conv"))
    api = ctx.choose("api", ctx.params["apis"])
    sel = None
    if api == "group_sel":
        sel = sel_of(ctx, "sel", ["slice", "step", "empty", "neg", "tuple"]
                     + (["list"] if fmt == "hdf5" else []))
        ctx.assume(shape == (3, 4))
    d = scratch()
    try:
        p = os.path.join(d, "f" + ext)
        cls = memdata.MemGroup if api.startswith("group") else memdata.MemDiskGroup
        root = cls()
        src = build(root, dts, shapes, **opts)
        isu = dt in ("U3", "recU")
        try:
            if cls is memdata.MemGroup:
                root.to_file(p, convert_dataset_strings=conv, file_format=ff)
            else:
                root.save(p, convert_dataset_strings=conv, file_format=ff)
        except TypeError:
            ctx.check(isu and not conv, "only unicode data without conversion is refused")
            ctx.reach("unicode refused")
            return
        ctx.check(not isu or conv, "unicode data is refused without conversion")
        kw = dict(file_format=ff, convert_dataset_strings=conv)
        closers = []
        if api == "group":
            out = cls.from_file(p, **kw)
        elif api == "group_guess":
            out = cls.from_group(p) if not conv else cls.from_file(p, convert_dataset_strings=True)
        elif api == "group_sel":
            out = cls.from_file(p, selections={"g/y": sel}, **kw)
        elif api == "cont":
            out = cls.from_file(p, **kw)
        elif api == "ondisk":
            out = cls.from_file(p, ondisk=True, file_format=ff)
            closers.append(out)
        elif api == "tomem":
            o1 = cls.from_file(p, ondisk=True, file_format=ff)
            out = o1.to_memory()
            closers.append(o1)
            ctx.check(out.ondisk is False, "to_memory loads the data")
        elif api == "resave":
            # an on-disk container saved again, in either format
            o1 = cls.from_file(p, ondisk=True, file_format=ff)
            closers.append(o1)
            f2 = ctx.choose("fmt2", ["hdf5", "zarr"])
            ff2 = {"hdf5": fileformats.HDF5, "zarr": fileformats.Zarr}[f2]
            p2 = os.path.join(d, "g" + {"hdf5": ".h5", "zarr": ".zarr"}[f2])
            # zarr compressors have no HDF5 counterpart, and filters need an optional package
            ctx.assume(fmt == f2 == "hdf5" or (f2 == "zarr" and not opts))
            # zarr cannot store the type annotations h5py puts on compound string types
            ctx.assume(fmt == f2 or dt not in ("rec", "recU"))
            if fmt == "hdf5":
                o1.close()
                o1 = cls.from_file(p, ondisk=True, file_format=ff, mode="r+")
                closers.append(o1)
            else:
                o1 = cls.from_file(p, ondisk=True, file_format=ff, mode="r+")
            o1.save(p2, file_format=ff2)
            out = cls.from_file(p2, file_format=ff2, convert_dataset_strings=conv)
        elif api == "todisk":
            p2 = os.path.join(d, "g" + ext)
            ctx.assume(not isu)
            out = root.to_disk(p2, file_format=ff)
            closers.append(out)
            ctx.check(out.ondisk, "to_disk leaves the data on disk")
        try:
            ctx.check(entries(out) == TREE, "the file has the same entries", got=entries(out))
            ignore = ("__memh5_subclass",)
            for n in ("", "g", "g/h"):
                a = {k: v for k, v in dict((out[n] if n else out).attrs).items()
                     if k not in ignore}
                if api in ("ondisk", "todisk"):
                    a = {k: v for k, v in a.items() if not isinstance(ATTRS[n].get(k), dict)}
                    w = {k: v for k, v in ATTRS[n].items() if not isinstance(v, dict)}
                else:
                    w = ATTRS[n]
                ctx.check(attrs_eq(a, w), "group attributes survive", at=n, got=a, want=w)
            for n, a in src.items():
                g = out[n][:]
                want = want_sel(a, sel) if n == "g/y" else a
                if api in ("ondisk", "todisk", "tomem", "resave") and dts[n] in ("U3", "recU"):
                    ctx.check(np.asarray(g).shape == want.shape, "shape survives")
                else:
                    ctx.check(same(g, want), "the data survives", at=n, got=g, want=want)
                strings = dts[n] in ("S3", "U3", "rec", "recU")
                if not strings:
                    ctx.check(kind_of(np.asarray(g).dtype) == kind_of(a.dtype),
                              "the type survives", at=n, got=np.asarray(g).dtype, want=a.dtype)
                elif not conv:
                    ctx.check(kind_of(np.asarray(g).dtype) == kind_of(a.dtype),
                              "string types are left alone without conversion", at=n)
                if api not in ("ondisk", "todisk"):
                    ctx.check(attrs_eq(out[n].attrs, ATTRS[n]), "dataset attributes survive",
                              at=n, got=dict(out[n].attrs))
            if opts and api in ("group", "cont"):
                y = out["g/y"]
                ctx.check(tuple(y.chunks) == (2, 2), "chunks survive", got=y.chunks)
                if fmt == "hdf5":
                    ctx.check(y.compression == "gzip" and y.compression_opts == 3,
                              "compression survives")
            ctx.check(same(root["g/y"][:], src["g/y"]), "writing leaves the source alone")
            ctx.reach("roundtrip")
        finally:
            for c in closers:
                try:
                    c.close()
                except Exception:
                    pass
    finally:
        shutil.rmtree(d, ignore_errors=True)


# --------------------------------------------------------------------------- distributed trees


def ds_setup(ctx):
    return dict(
        fmt=ctx.choose("fmt", ctx.params["fmts"]),
        axis=ctx.concretize(ctx.int("axis", 0, 1)),
        shape=(ctx.concretize(ctx.int("n0", 0, ctx.params["nmax"])),
               ctx.concretize(ctx.int("n1", 1, 2))),
        hints=ctx.choose("hints", [True, False, "common", "axis", "nowrite"]),
        sel=ctx.choose("sel", [None, slice(1, 4), (slice(None, None, 2),), (slice(None), slice(1, None))]),
        cont=bool(ctx.bool("cont")),
    )


def ds_rank(ctx, comm, inp):
    from caput import memdata
    from caput.memdata import fileformats

    ff = {"hdf5": fileformats.HDF5, "zarr": fileformats.Zarr}[inp["fmt"]]
    d = scratch() if comm.rank == 0 else None
    d = comm.bcast(d, root=0)
    p = os.path.join(d, "f.h5" if inp["fmt"] == "hdf5" else "f.zarr")
    ga = mc.glob(inp["shape"], np.int64)
    gc = mc.glob((3,), np.float64, salt=50)
    try:
        cls = memdata.MemDiskGroup if inp["cont"] else memdata.MemGroup
        root = cls(distributed=True, comm=comm)
        root.create_dataset("g/dist", data=mc.make(ga, inp["axis"], comm), distributed=True)
        root.create_dataset("c", data=gc.copy())
        root["c"].attrs["cfg"] = {"a": [1, 2]}
        root["g/dist"].attrs["unit"] = "K"
        root["g"].attrs["n"] = 7
        root.attrs["top"] = "x"
        # a copy keeps the distribution
        cpy = root.copy() if inp["cont"] else cls.from_group(root)
        cd = cpy["g/dist"]
        cinfo = (bool(cpy.distributed), bool(cd.distributed), int(cd.distributed_axis),
                 np.array(cd.local_data), dict(cd.attrs))
        kw = {"hints": False} if inp["hints"] == "nowrite" else {}
        if inp["cont"]:
            root.save(p, file_format=ff, **kw)
        else:
            root.to_file(p, file_format=ff, **kw)
        comm.Barrier()
        # what the file holds, read without any MPI
        f = None
        if comm.rank == 0:
            m = memdata.MemGroup.from_file(p, file_format=ff, comm=comm)
            f = (entries(m), np.array(m["g/dist"][:]), np.array(m["c"][:]),
                 dict(m.attrs), dict(m["g"].attrs), dict(m["c"].attrs))
        comm.Barrier()
        h = inp["hints"]
        hints = {"common": {"/g/dist": {"distributed": False}},
                 "axis": {"/g/dist": {"distributed": True, "axis": 1 - inp["axis"]}},
                 "nowrite": True}.get(h, h)
        sel = {} if inp["sel"] is None else {"g/dist": inp["sel"]}
        m = memdata.MemGroup.from_file(p, distributed=True, hints=hints, comm=comm,
                                       selections=sel, file_format=ff)
        y = m["g/dist"]
        res = dict(
            copy=cinfo, file=f, ents=entries(m), dist=bool(y.distributed),
            axis=int(y.distributed_axis) if y.distributed else None,
            gshape=tuple(int(x) for x in y.shape), local=np.array(y.local_data),
            c=np.array(m["c"][:]), cd=bool(m["c"].distributed), cattrs=dict(m["c"].attrs),
            yattrs=dict(y.attrs), gattrs=dict(m["g"].attrs), tattrs=dict(m.attrs),
            rank=comm.rank, size=comm.size)
        comm.Barrier()
        return res
    finally:
        if comm.rank == 0 and d:
            shutil.rmtree(d, ignore_errors=True)


class _R:
    def __init__(self, rank, size):
        self.rank, self.size = rank, size


def ds_final(ctx, results, inp):
    ga = mc.glob(inp["shape"], np.int64)
    gc = mc.glob((3,), np.float64, salt=50)
    want = ga if inp["sel"] is None else ga[inp["sel"]]
    h = inp["hints"]
    dist = h in (True, "axis")
    axis = 1 - inp["axis"] if h == "axis" else inp["axis"]
    ents = {"g": "g", "g/dist": "d", "c": "d"}
    for r, (st, v) in enumerate(results):
        ctx.check(st == "ok", "saving and loading a distributed tree", rank=r, got=v)
        me = _R(v["rank"], v["size"])
        cdist, cdd, cax, cl, cat = v["copy"]
        ctx.check(cdist and cdd and cax == inp["axis"]
                  and same(cl, mc.local_of(ga, inp["axis"], me)) and cat == {"unit": "K"},
                  "a copy keeps the distribution, data and attributes", got=v["copy"])
        if v["file"] is not None:
            fe, fd, fc, ft, fg, fca = v["file"]
            ctx.check(fe == ents, "the file has all entries", got=fe)
            ctx.check(same(fd, ga) and same(fc, gc), "the file holds the global data", got=fd)
            hint = "__memh5_distributed_file" in ft
            ctx.check(hint == (h != "nowrite"), "hints are written exactly when asked for")
            ctx.check(ft.get("top") == "x" and fg.get("n") == 7
                      and fca.get("cfg") == {"a": [1, 2]}, "attributes are written")
        ctx.check(v["ents"] == ents, "all entries are loaded", got=v["ents"])
        ctx.check(v["dist"] == dist, "a dataset is distributed as recorded or hinted",
                  got=v["dist"], want=dist)
        ctx.check(v["gshape"] == want.shape, "global shape", got=v["gshape"], want=want.shape)
        if dist:
            ctx.check(v["axis"] == axis, "distributed axis", got=v["axis"], want=axis)
            ctx.check(same(v["local"], mc.local_of(want, axis, me)), "each process has its share",
                      got=v["local"])
        else:
            ctx.check(same(v["local"], want), "a common dataset is complete everywhere")
        ctx.check(same(v["c"], gc) and not v["cd"], "common data is complete on every process")
        ctx.check(v["cattrs"].get("cfg") == {"a": [1, 2]} and v["yattrs"].get("unit") == "K"
                  and v["gattrs"].get("n") == 7 and v["tattrs"].get("top") == "x",
                  "attributes are loaded on every process", got=v["cattrs"])
        ctx.reach("dist" if dist else "common")


def harnesses(tier):
    warnings.simplefilter("ignore")
    big = tier == "thorough"
    hs = []
    hs.append(Harness("memcopy", memcopy, reach=["shared", "deep"], weight=2,
                      params=dict(dtypes=["i4", "O", "rec", "U3"],
                                  apis=["from_group", "deepcopy", "copy"]),
                      bounds="4 types, 3 interfaces, all sharing requests"))
    for dt in (["f8", "O", "rec"] if big else ["O"]):
        hs.append(Harness(f"deepcopy_{dt}", memcopy, reach=["shared", "deep", "refused"], weight=6,
                          params=dict(dtypes=[dt], apis=["deep"]),
                          bounds="deep_group_copy, all sharing requests and selections"))
    dts = list(DT)
    dts.remove("O")
    for fmt in ("hdf5", "zarr"):
        for apis in (["group", "group_guess"], ["group_sel"], ["cont", "ondisk"],
                     ["tomem", "todisk"], ["resave"]):
            hs.append(Harness(f"{fmt}_{apis[0]}", tofile, reach=["roundtrip"], weight=3,
                              params=dict(fmt=fmt, dtypes=dts, apis=apis),
                              bounds=f"{fmt}, types {dts}, shapes (3,4),(0,4),(1,1), {apis}"))
    for n in (1, 2, 3) if not big else (1, 2, 3, 4):
        for fmt in ("hdf5", "zarr"):
            hs.append(Harness(f"dist{n}_{fmt}", nranks=n, setup=ds_setup, rank=ds_rank,
                              final=ds_final, reach=["dist", "common"], weight=5 + n,
                              params=dict(fmts=[fmt], nmax=4 if big else 3), samples=2,
                              bounds=f"{n} ranks, shapes up to ({4 if big else 3},2), both axes, "
                                     "hints and selections"))
    return hs
