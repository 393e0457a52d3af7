"""P22: a new container has the axes and datasets specified, from the sources named.

Container classes are built at run time from symbolic specifications (inheritance, axes, shapes,
distribution, chunking, creation flags, tables) and the real constructors run on them with symbolic
axis definitions: given as lengths or values, copied from other containers, overridden or missing.
The result is compared with a reference made directly from the specification: axes and their
attributes, which datasets exist, their shape, type, chunks, distribution and contents, and the
attributes. Copies between containers distributed differently run over several ranks.
"""

import os
import shutil
import tempfile
import warnings

import numpy as np

from vp.harness import Harness

ASSUMPTIONS = [
    "axis lengths 0..4, up to 3 axes and 4 datasets per class, one level of inheritance (two for tables)",
    "containers copied from have the lengths of the axes of the new container, unless the axis is given",
    "the contents of datasets which are created but not copied are not specified",
]


def mkclass(base, name="C", **ns):
    """A container class of this module, so that files can name it."""
    import sys

    cls = type(name, (base,), {"__module__": __name__, "__qualname__": name, **ns})
    setattr(sys.modules[__name__], name, cls)
    return cls


def glob(x):
    """The global contents of a dataset of one rank."""
    d = x[:]
    return np.asarray(d.local_array if hasattr(d, "local_array") else d)


REC = np.dtype([("centre", float), ("width", np.int32)])


def axis_value(kind, n, salt=0):
    if kind == "int":
        return n, np.arange(n)
    if kind == "npint":
        return np.int32(n), np.arange(n)
    if kind == "rec":
        v = np.zeros(n, REC)
        v["centre"], v["width"] = 400.5 + np.arange(n) + salt, np.arange(n)
        return v, v
    if kind == "list":
        v = [10 * i + salt for i in range(n)]
        return v, np.array(v, dtype=int if n else float)
    v = 100.0 - np.arange(n) + salt
    return v, v


# ------------------------------------------------------------------ axes


def axes(ctx):
    """Every axis of the class and its bases is defined by its argument, else copied, else refused."""
    from caput.containers import Container, ContainerPrototype, empty_like

    warnings.simplefilter("ignore")
    n = {a: ctx.concretize(ctx.int("n" + a, 0, 3)) for a in "xy"}
    base_axes, own_axes = ctx.choose("inherit", [(("x",), ("y",)), (("y", "x"), ()), ((), ("x", "y")), (("x",), ("y", "x"))])
    B = mkclass(ContainerPrototype, "B", _axes=base_axes)
    C = mkclass(B, "C", _axes=own_axes) if own_axes else B
    how = {a: ctx.choose("how-" + a, ["int", "npint", "array", "rec", "list", "from", "missing"]) for a in "xy"}
    srckind = ctx.choose("source", ["none", "axes_from", "copy_from", "like"])
    other = mkclass(ContainerPrototype, "O", _axes=("x", "y", "w"))
    osrc = None
    if srckind != "none":
        kw = {"w": 2}
        for a in "xy":
            if how[a] != "missing":
                kw[a] = axis_value("array", n[a] if how[a] == "from" else n[a] + 1, 7)[0]
        if "x" in kw and "y" in kw:
            osrc = (C if srckind == "like" else other)(**{k: v for k, v in kw.items() if k != "w" or srckind != "like"})
        else:
            if srckind == "like":
                return
            osrc = Container()
            for k, v in kw.items():
                osrc.create_index_map(k, np.arange(v) if isinstance(v, int) else v)
        for a in "xy":
            if a in osrc.index_attrs:
                osrc.index_attrs[a]["unit"] = "unit-" + a
    args, want = {}, {}
    for a in "xy":
        if how[a] == "from":
            want[a] = axis_value("array", n[a], 7)[1] if osrc is not None else None
        elif how[a] == "missing":
            want[a] = None
        else:
            args[a], want[a] = axis_value(how[a], n[a])
    try:
        if srckind == "like":
            c = empty_like(osrc, **args)
        else:
            c = C(**({} if osrc is None else {srckind: osrc}), **args)
    except RuntimeError:
        ctx.check(any(w is None for w in want.values()), "a container with all axes defined was refused", how=how)
        ctx.reach("refused")
        return
    ctx.check(all(w is not None for w in want.values()), "an axis without a definition was accepted", how=how)
    ctx.check(tuple(sorted(c.axes)) == ("x", "y") and set(c.index_map) == {"x", "y"}, "other axes than specified",
              got=sorted(c.index_map))
    for a in "xy":
        g = c.index_map[a]
        ctx.check(isinstance(g, np.ndarray) and g.shape == want[a].shape and g.dtype == want[a].dtype
                  and np.array_equal(g, want[a]),
                  "an axis is not as defined", axis=a, got=repr(g), want=repr(want[a]))
        at = dict(c.index_attrs[a])
        ctx.check(at == ({"unit": "unit-" + a} if how[a] == "from" else {}), "wrong attributes of an axis", got=at)
    ctx.check(c.__class__ is C and c.distributed, "a container of the wrong kind was made")
    ctx.reach("done")


# ------------------------------------------------------------------ datasets


def datasets(ctx):
    """Which datasets are created, and how."""
    from caput.containers import ContainerPrototype

    warnings.simplefilter("ignore")
    chunky = ctx.params["chunks"]
    n = {"x": ctx.concretize(ctx.int("nx", 1, 3)), "y": ctx.concretize(ctx.int("ny", 1, 3)) if chunky else 2}
    spec = {}
    spec["one"] = {"axes": ["x"], "dtype": np.float32, "initialise": not chunky and bool(ctx.bool("init"))}
    two = {"axes": ctx.choose("axes", [["x", "y"], ["y", "x"], ("x", 2, "y")]), "dtype": complex, "initialise": True}
    d = ctx.choose("dist", [None, True, False]) if not chunky else True
    if d is not None:
        two["distributed"] = d
    dax = ctx.choose("dist_axis", [None, "x", "y"]) if not chunky else None
    if dax is not None:
        two["distributed_axis"] = dax
    if chunky:
        two["chunks"] = tuple(ctx.concretize(ctx.int(f"c{i}", 1, 4)) if a != 2 else 1
                              for i, a in enumerate(two["axes"]))
        two["compression"], two["compression_opts"] = "gzip", 3
    spec["two"] = two
    inherit = ctx.choose("inherit", ["none", "below", "override"]) if not chunky else "none"
    hidden = {"axes": ["y"], "dtype": np.int8, "initialise": True}
    if inherit == "none":
        C = mkclass(ContainerPrototype, "C", _axes=("x", "y"), _dataset_spec=spec)
    elif inherit == "below":
        B = mkclass(ContainerPrototype, "B", _axes=("x", "y"), _dataset_spec={"one": spec["one"]})
        C = mkclass(B, "C", _dataset_spec={"two": two})
    else:
        B = mkclass(ContainerPrototype, "B", _axes=("x", "y"), _dataset_spec={"two": hidden, "base": hidden})
        C = mkclass(B, "C", _dataset_spec=spec)
        spec = {**spec, "base": hidden}
    skip, dist = bool(ctx.bool("skip")), chunky or bool(ctx.bool("distributed"))
    allow = ctx.choose("allow_chunked", [None, True, False])
    before = repr(spec)
    c = C(x=n["x"], y=n["y"], skip_datasets=skip, distributed=dist, **({} if allow is None else {"allow_chunked": allow}))
    ctx.check(repr(spec) == before, "the specification was modified")
    want = {k for k, s in spec.items() if s["initialise"] and not skip}
    ctx.check(set(c) == want == set(c.datasets), "other datasets were created than specified", got=sorted(c),
              want=sorted(want))
    ctx.check(list(c.dataset_spec) == sorted(spec), "the specification has other datasets")
    for k in sorted(spec):
        s = spec[k]
        if k not in want:
            ret = c.add_dataset(("/" + k) if k == "two" else k)
            ctx.check(ret[:].shape == c[k][:].shape, "another dataset is returned than added")
        x = c[k]
        shape = tuple(a if isinstance(a, int) else n[a] for a in s["axes"])
        isd = dist and s.get("distributed", True)
        ctx.check(tuple(x.shape) == shape and x.dtype == np.dtype(s["dtype"]), "wrong shape or type",
                  name=k, got=tuple(x.shape), want=shape)
        ctx.check(bool(x.distributed) == bool(isd), "wrong distribution", name=k)
        if isd:
            ctx.check(x.distributed_axis == list(s["axes"]).index(s.get("distributed_axis", s["axes"][0])),
                      "distributed over the wrong axis", name=k)
        ctx.check([str(a) for a in x.attrs["axis"]] == [str(a) for a in s["axes"]], "wrong axis labels", name=k)
        wc = None
        if "chunks" in s and allow is not False:
            wc = tuple(min(a, b) for a, b in zip(s["chunks"], shape))
        ctx.check(x.chunks == wc and (x.compression == "gzip") == (wc is not None)
                  and x.compression_opts == (3 if wc else None), "wrong chunks or compression", name=k, got=x.chunks)
    try:
        c.add_dataset("nope")
    except RuntimeError:
        ctx.reach("refused")
    else:
        ctx.fail("a dataset which is not specified was added")
    ctx.reach("done")


# ------------------------------------------------------------------ copies


SPEC = {
    "vis": {"axes": ["freq", "time"], "dtype": np.complex64, "initialise": True, "distributed": True,
            "distributed_axis": "freq"},
    "weight": {"axes": ["time", "freq"], "dtype": np.float64, "initialise": False, "distributed": True},
    "gain": {"axes": ["time"], "dtype": np.int32, "initialise": True, "distributed": False},
    "extra": {"axes": ["freq"], "dtype": float, "initialise": False, "distributed": False},
}


def content(k, nf, nt, salt=0):
    n = {"freq": nf, "time": nt}
    shape = [n[a] for a in SPEC[k]["axes"]]
    return (np.arange(int(np.prod(shape))).reshape(shape) + 100 * (1 + sorted(SPEC).index(k)) + salt).astype(SPEC[k]["dtype"])


def source_cls(kind):
    from caput.containers import Container, ContainerPrototype

    C = mkclass(ContainerPrototype, "C", _axes=("freq", "time"), _dataset_spec=SPEC)
    if kind == "same":
        return C, C
    if kind == "other":  # another class with some of the datasets
        O = mkclass(ContainerPrototype, "O", _axes=("freq", "time", "pol"), _dataset_spec={
            k: SPEC[k] for k in ("vis", "gain")} | {"own": {"axes": ["pol"], "dtype": int, "initialise": True}})
        return C, O
    return C, Container


def make_source(kind, O, nf, nt, have, salt=0, **kw):
    fr, ti = 400.0 + np.arange(nf) + salt, 1e9 + 10.0 * np.arange(nt) + salt
    if kind == "plain":
        s = O(**kw)
        s.create_index_map("freq", fr)
        s.create_index_map("time", ti)
        for k in have:
            x = s.create_dataset(k, data=content(k, nf, nt, salt))
            x.attrs["axis"] = np.array(SPEC[k]["axes"])
    else:
        s = O(freq=fr, time=ti, **({"pol": 3} if kind == "other" else {}), **kw)
        have = [k for k in have if k in O._dataset_spec] + [k for k in O._dataset_spec
                                                            if O._dataset_spec[k]["initialise"] and k in SPEC]
        for k in have:
            if k not in s:
                s.add_dataset(k)
            s[k][:] = content(k, nf, nt, salt)
    for k in set(have):
        s[k].attrs["unit"] = f"u{k}{salt}"
    s.attrs["tag"] = f"t{salt}"
    s.attrs["nest"] = {"a": [1, 2]}
    s.index_attrs["time"]["alignment"] = 1
    s.add_history("h", {"x": 1})
    return s, set(have)


def copies(ctx):
    from caput.containers import empty_like

    warnings.simplefilter("ignore")
    nf, nt = ctx.concretize(ctx.int("nf", 1, 2)), ctx.concretize(ctx.int("nt", 0, 2))
    kind = ctx.choose("source", ["same", "other", "plain"])
    C, O = source_cls(kind)
    have = ctx.choose("have", [("vis", "weight"), ("gain", "extra", "vis"), ()])
    s1, have1 = make_source(kind, O, nf, nt, have)
    s2, have2 = make_source(kind, O, nf, nt, have, 50)
    how = ctx.choose("how", ["copy", "copy-noattrs", "copy-nodsets", "copy-other", "axes", "dsets", "attrs", "like"])
    over = ctx.choose("override", [(), ("freq",), ("time",), ("freq", "time")])
    skip = bool(ctx.bool("skip")) if how in ("copy", "axes") else False
    given = {"freq": nf, "time": np.arange(nt) * 1.0}
    if how == "dsets":
        over = ("freq", "time") if over else ("freq",)
    args = {a: given[a] for a in over}
    kw, ax, at, ds = {
        "copy": (dict(copy_from=s1), s1, s1, s1),
        "copy-noattrs": (dict(copy_from=s1, attrs_from=None), s1, None, s1),
        "copy-nodsets": (dict(copy_from=s1, dsets_from=None), s1, s1, None),
        "copy-other": (dict(copy_from=s1, axes_from=s2), s2, s1, s1),
        "axes": (dict(axes_from=s1), s1, None, None),
        "dsets": (dict(axes_from=s1, dsets_from=s2), s1, None, s2),
        "attrs": (dict(axes_from=s1, attrs_from=s2), s1, s2, None),
        "like": (None, s1, s1, None),
    }[how]
    if how == "like":
        if kind == "plain":
            try:
                empty_like(s1)
            except RuntimeError:
                ctx.reach("refused")
                return
            ctx.fail("a container without a specification was accepted")
        if kind == "other":
            C = O
            args["pol"] = 2
        c = empty_like(s1, **args)
    else:
        c = C(skip_datasets=skip, **kw, **args)
    spec = C._dataset_spec
    ctx.check(c.__class__ is C, "wrong class")
    for a in ("freq", "time"):
        w = ax.index_map[a] if a not in over else np.arange(nf) if a == "freq" else given[a]
        ctx.check(np.array_equal(c.index_map[a], w) and c.index_map[a].dtype == w.dtype, "wrong axis", axis=a)
        ctx.check(dict(c.index_attrs[a]) == (dict(ax.index_attrs[a]) if a not in over else {}),
                  "wrong attributes of an axis", axis=a)
    salt = 0 if ds is s1 else 50
    have = {id(s1): have1, id(s2): have2}.get(id(ds), set())
    copied = {k for k in spec if k in have and not set(spec[k]["axes"]) & set(over)}
    want = copied | {k for k in spec if spec[k]["initialise"] and not skip}
    ctx.check(set(c) == want, "other datasets than specified", got=sorted(c), want=sorted(want))
    for k in sorted(want):
        dims = {**{"freq": nf, "time": nt}, "pol": args.get("pol")}
        ctx.check(tuple(c[k].shape) == tuple(dims[a] for a in spec[k]["axes"]), "wrong shape", name=k)
        ctx.check(list(c[k].attrs["axis"]) == list(spec[k]["axes"]), "wrong axis labels", name=k)
        if k in copied:
            v = content(k, nf, nt, salt)
            ctx.check(np.array_equal(glob(c[k]), v) and c[k].dtype == v.dtype, "a dataset was not copied", name=k,
                      got=glob(c[k]).tolist(), want=v.tolist())
            ctx.reach("copied")
        u = c[k].attrs.get("unit")
        hav = {id(s1): have1, id(s2): have2}.get(id(at), set())
        w = None if at is None or k not in hav else f"u{k}{0 if at is s1 else 50}"
        ctx.check(u == w, "wrong attributes of a dataset", name=k, got=u, want=w)
    got = {k: v for k, v in c.attrs.items() if k != "__memh5_subclass"}
    w = {} if at is None else {"tag": f"t{0 if at is s1 else 50}", "nest": {"a": [1, 2]}}
    ctx.check(got == w, "wrong attributes", got=got, want=w)
    # the new container is independent, and the sources are unchanged
    for k in c:
        c[k][:] = 0
        c[k].attrs["unit"] = "changed"
    c.attrs["tag"] = "changed"
    for s, h, z in ((s1, have1, 0), (s2, have2, 50)):
        for k in h:
            ctx.check(np.array_equal(glob(s[k]), content(k, nf, nt, z)) and s[k].attrs["unit"] == f"u{k}{z}",
                      "a source was modified", name=k)
        ctx.check(s.attrs["tag"] == f"t{z}" and dict(s.index_attrs["time"]) == {"alignment": 1}, "a source was modified")
    ctx.reach("done")


def co_setup(ctx):
    return dict(nf=ctx.concretize(ctx.int("nf", 1, 3)), nt=ctx.concretize(ctx.int("nt", 1, 3)),
                src=ctx.choose("src", ["freq", "time", "common"]), dst=ctx.choose("dst", ["freq", "time", "common"]),
                over=bool(ctx.bool("override")))


def co_rank(ctx, comm, inp):
    from caput.containers import ContainerPrototype
    from props import mpicommon as mc

    warnings.simplefilter("ignore")
    nf, nt = inp["nf"], inp["nt"]

    def cls(name, how):
        return type(name, (ContainerPrototype,), {"_axes": ("freq", "time"), "_dataset_spec": {
            k: {**SPEC[k], **({} if how == "common" or not SPEC[k]["distributed"] else {"distributed_axis": how})}
            for k in SPEC}})

    S, D = cls("S", inp["src"]), cls("D", inp["dst"])
    s = S(freq=nf, time=nt, distributed=inp["src"] != "common", comm=comm)
    for k in ("weight", "extra"):
        s.add_dataset(k)
    for k in SPEC:
        v = content(k, nf, nt)
        if s[k].distributed:
            a, b = mc.ref_split(v.shape[s[k].distributed_axis], comm.size)[comm.rank]
            s[k].local_data[:] = v[(slice(None),) * s[k].distributed_axis + (slice(a, b),)]
        else:
            s[k][:] = v
    c = D(copy_from=s, distributed=inp["dst"] != "common", comm=comm, **({"freq": nf + 1} if inp["over"] else {}))
    out = {}
    for k in c:
        x = c[k]
        out[k] = (tuple(x.shape), x.distributed_axis if x.distributed else None,
                  np.array(x.local_data if x.distributed else x[:]))
    return out, {k: (s[k].distributed_axis if s[k].distributed else None,
                     np.array(s[k].local_data if s[k].distributed else s[k][:])) for k in s}


def co_final(ctx, results, inp):
    from props import mpicommon as mc

    vals = mc.all_ok(ctx, results, "copying a container")
    nf, nt = inp["nf"], inp["nt"]
    for r, (out, src) in enumerate(vals):
        keep = {k for k in SPEC if not inp["over"] or "freq" not in SPEC[k]["axes"]}
        ctx.check(set(out) == keep | {"vis", "gain"}, "other datasets than specified", got=sorted(out))
        for k in keep:
            shape, dax, loc = out[k]
            v = content(k, nf, nt)
            wax = None if inp["dst"] == "common" or not SPEC[k]["distributed"] else SPEC[k]["axes"].index(inp["dst"])
            ctx.check(shape == v.shape and dax == wax, "wrong shape or distribution", name=k, got=[shape, dax], want=wax)
            if wax is not None:
                a, b = mc.ref_split(v.shape[wax], len(vals))[r]
                v = v[(slice(None),) * wax + (slice(a, b),)]
            ctx.check(loc.shape == v.shape and np.array_equal(loc, v), "a dataset was not copied", name=k, rank=r,
                      got=loc.tolist(), want=v.tolist())
        for k in SPEC:
            wax = None if inp["src"] == "common" or not SPEC[k]["distributed"] else SPEC[k]["axes"].index(inp["src"])
            dax, loc = src[k]
            v = content(k, nf, nt)
            if wax is not None:
                a, b = mc.ref_split(v.shape[wax], len(vals))[r]
                v = v[(slice(None),) * wax + (slice(a, b),)]
            ctx.check(dax == wax and np.array_equal(loc, v), "the source was modified", name=k)
    ctx.reach("done")


# ------------------------------------------------------------------ tables


def tables(ctx):
    """Tables: columns, axes, sharing of axes, inheritance; new, loaded from files, and copied."""
    from caput.containers import TableSpec, empty_like

    warnings.simplefilter("ignore")
    n = ctx.concretize(ctx.int("n", 0, 3))
    shared = bool(ctx.bool("shared"))
    init = ctx.choose("init", [None, True, False])
    inherit = bool(ctx.bool("inherit"))
    generic = bool(ctx.bool("generic"))
    cols = [("ra", np.float64), ("id", np.int32)]
    t1 = {"columns": cols, **({"axis": "obj"} if shared else {}), **({} if init is None else {"initialise": init})}
    t2 = {"columns": [["mask", bool]], "axis": "obj"}
    ns = {"_axes": ("freq",), "_dataset_spec": {"gen": {"axes": ["freq"], "dtype": float, "initialise": True}}} if generic else {}
    if inherit:
        B = mkclass(TableSpec, "B", _table_spec={"cat": {"columns": [("old", int)]}, "flag": t2}, **ns)
        C = mkclass(B, "C", _table_spec={"cat": t1})
    else:
        C = mkclass(TableSpec, "C", _table_spec={"cat": t1, "flag": t2}, **ns)
    classes = [C, B] if inherit else [C]
    before = [repr((k.__dict__.get("_dataset_spec"), k.__dict__.get("_axes"), k._table_spec)) for k in classes]
    first = ctx.choose("first", ["new", "loaded"])
    axes = {"obj": n, **({} if shared else {"cat_index": n + 1}), **({"freq": 2} if generic else {})}
    ncat = n if shared else n + 1
    dt = np.dtype(cols)
    data = np.zeros(ncat, dt)
    data["ra"], data["id"] = np.arange(ncat) * 1.5, np.arange(ncat)
    d = tempfile.mkdtemp(prefix="p22-", dir=os.environ.get("VP_SCRATCH") or None)
    try:
        if first == "loaded":  # the first object of the class comes from a file
            import h5py

            with h5py.File(f"{d}/t.h5", "w") as f:
                f.attrs["__memh5_subclass"] = f"{__name__}.C"
                f.create_group("history").attrs["order"] = "[]"
                f.create_group("reverse_map")
                m = f.create_group("index_map")
                for a, v in axes.items():
                    m.create_dataset(a, data=np.arange(v))
                ax = "obj" if shared else "cat_index"
                f.create_dataset("cat", data=data).attrs["axis"] = [ax]
                f.create_dataset("flag", data=np.zeros(n, [("mask", "?")])).attrs["axis"] = ["obj"]
                if generic:
                    f.create_dataset("gen", data=np.zeros(2)).attrs["axis"] = ["freq"]
            c = C.from_file(f"{d}/t.h5")
            have = {"cat", "flag"} | ({"gen"} if generic else set())
        else:
            c = C(**axes)
            have = {"flag"} | ({"cat"} if init is not False else set()) | ({"gen"} if generic else set())
        ctx.check([repr((k.__dict__.get("_dataset_spec"), k.__dict__.get("_axes"), k._table_spec))
                   for k in classes] == before, "the class was modified")
        ctx.check(set(c) == have, "other datasets than specified", got=sorted(c), want=sorted(have))
        ctx.check(set(c.axes) == set(axes) == set(c.index_map), "other axes than specified", got=c.axes, want=sorted(axes))
        ctx.check(set(c.dataset_spec) == {"cat", "flag"} | ({"gen"} if generic else set()),
                  "the specification has other datasets", got=sorted(c.dataset_spec))
        if "cat" not in c:
            c.add_dataset("cat")
        ctx.check(tuple(c["cat"].shape) == (ncat,) and c["cat"].dtype == dt and not c["cat"].distributed
                  and list(c["cat"].attrs["axis"]) == ["obj" if shared else "cat_index"], "a table is not as specified",
                  got=[c["cat"].shape, c["cat"].dtype])
        ctx.check(tuple(c["flag"].shape) == (n,) and c["flag"].dtype == np.dtype([("mask", bool)]),
                  "a table is not as specified")
        if first == "new":
            c["cat"][:] = data
        e = empty_like(c)
        ctx.check(set(e.index_map) == set(axes) and tuple(e["flag"].shape) == (n,), "the empty copy has other axes")
        e = C(copy_from=c)
        ctx.check(np.array_equal(e["cat"][:], data), "a table was not copied")
        # rows are selected in every table with that axis, when loading
        c.save(f"{d}/u.h5")
        a = "obj" if shared else "cat_index"
        o = C.from_file(f"{d}/u.h5", **{a + "_sel": slice(0, 1)})
        ctx.check(np.array_equal(o["cat"][:], data[:1]) and len(o.index_map[a]) == len(data[:1]),
                  "a selection was not applied to a table", got=o["cat"][:].shape)
        ctx.check(tuple(o["flag"].shape) == (len(data[:1]) if shared else n,), "a selection was not applied to a table")
        ctx.reach("done")
    finally:
        shutil.rmtree(d, ignore_errors=True)


def harnesses(tier):
    q = tier == "quick"
    out = [
        Harness("axes", axes, reach=["done", "refused"], weight=6,
                bounds="2 axes of 0..3 entries, 5 kinds of definition, copied or missing, 4 kinds of sources, inheritance"),
        Harness("datasets", datasets, params={"chunks": False}, reach=["done", "refused"], weight=8,
                bounds="an axis of 1..3, all flags, inheritance with override"),
        Harness("chunks", datasets, params={"chunks": True}, reach=["done", "refused"], weight=8,
                bounds="axes of 1..3, chunks of 1..4"),
        Harness("copies", copies, reach=["done", "refused", "copied"], weight=8,
                bounds="axes of 1..2 and 0..2, 3 kinds of source, 8 combinations of sources, axes overridden"),
        Harness("tables", tables, reach=["done"], weight=4,
                bounds="0..3 rows, shared and own axes, inheritance, generic datasets; new, loaded and copied"),
    ]
    for n in (2,) if q else (2, 3):
        out.append(Harness(f"ranks-{n}", setup=co_setup, rank=co_rank, final=co_final, nranks=n, reach=["done"],
                           weight=6, bounds=f"{n} ranks, axes of 1..3, source and copy distributed over either axis or common"))
    return out
