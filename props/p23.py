"""P23: selecting along named axes picks exactly those elements in every dataset.

The parser of configured selections runs on symbolic ranges and indices (the slices and lists it
returns are compared term by term). The real `copy_datasets_filter` and the real loading with
`<axis>_sel` run on containers with symbolic selections of every form accepted (slices with steps,
index lists, arrays and masks) on one or two axes, with datasets which have all, some or none of
them, common or distributed over ranks; the result is compared with numpy indexing of the whole
dataset along each of its axes.
"""

import os
import shutil
import tempfile
import warnings

import numpy as np

from vp.harness import Harness

ASSUMPTIONS = [
    "axis lengths up to 4, up to two axes selected, slice bounds within -5..5, steps -2..2 (files: 1..2)",
    "the destination of a filtered copy has the axes of the result; files are read by the class which specifies the axes",
    "files: indices in increasing order without repeats; zarr files: slices only",
    "distributed: up to 2 (thorough 3) ranks; at least one axis of each distributed dataset is not selected",
]

SPEC = {
    "cube": {"axes": ["freq", "pol", "time"], "dtype": np.float64, "initialise": True, "distributed": True,
             "distributed_axis": "freq"},
    "swap": {"axes": ["time", "freq"], "dtype": np.complex64, "initialise": True, "distributed": True,
             "distributed_axis": "freq"},
    "gain": {"axes": ["freq"], "dtype": np.int32, "initialise": True, "distributed": False},
    "tflag": {"axes": ["time", "pol"], "dtype": np.int16, "initialise": True, "distributed": False},
    "plain": {"axes": ["pol"], "dtype": float, "initialise": True, "distributed": False},
}


def make_cls(spec=None, name="C"):
    import sys

    from caput.containers import ContainerPrototype

    cls = type(name, (ContainerPrototype,), {
        "__module__": __name__, "__qualname__": name, "_axes": ("freq", "pol", "time"),
        "_dataset_spec": SPEC if spec is None else spec})
    setattr(sys.modules[__name__], name, cls)
    return cls


def content(k, n, spec=SPEC):
    shape = [n[a] for a in spec[k]["axes"]]
    return (np.arange(int(np.prod(shape))).reshape(shape) + 1000 * (1 + sorted(spec).index(k))).astype(spec[k]["dtype"])


def indices(sel, n):
    """The elements a selection stands for, in order."""
    if isinstance(sel, slice):
        return list(range(n))[sel]
    v = np.asarray(sel)
    if v.dtype == bool:
        return list(np.flatnonzero(v))
    return [int(i) for i in v]


def pick(k, n, sel, spec=SPEC):
    v = content(k, n, spec)
    for i, a in enumerate(spec[k]["axes"]):
        if a in sel:
            v = np.take(v, np.array(indices(sel[a], n[a]), dtype=int), axis=i)
    return v


def draw(ctx, name, n, forms, neg=True):
    form = ctx.choose(name + "-form", forms)
    if form == "all":
        return slice(None)
    if form == "pick":
        return ctx.choose(name + "-pick", [[0], [n - 1, 0], slice(1, None), np.arange(n) > 0])
    if form == "slice":
        b = [None if ctx.choose(f"{name}-{x}-given", [True, False]) is False
             else ctx.concretize(ctx.int(f"{name}-{x}", -n - 1 if neg else 0, n + 1)) for x in ("lo", "hi")]
        st = ctx.choose(name + "-step", [None, 2, -1] if neg else [None, 1, 2])
        return slice(*b, st)
    if form in ("mask", "boollist"):
        m = [bool(ctx.bool(f"{name}-m{i}")) for i in range(n)]
        return np.array(m) if form == "mask" else m
    k = ctx.concretize(ctx.int(name + "-k", 0, 3))
    v = [ctx.concretize(ctx.int(f"{name}-i{i}", -n if neg else 0, n - 1)) for i in range(k)]
    if not neg and v != sorted(set(v)):
        ctx.assume(False)
    return {"list": list, "tuple": tuple, "array": lambda x: np.array(x, dtype=int)}[form](v)


# ------------------------------------------------------------------ configured selections


def parse(ctx):
    """Ranges and indices of the configuration, with symbolic numbers."""
    from caput.pipeline.tasklib.io import SelectionsMixin

    class S(SelectionsMixin):
        selections = None
        allow_index_map = False

    axis = ctx.choose("axis", ["freq", "long_name", "range"])
    other = bool(ctx.bool("other"))
    kinds = {k: bool(ctx.bool("has-" + k)) for k in ("range", "index", "map")}
    allow = bool(ctx.bool("allow_map"))
    cfg, want = {}, {}
    keys = [k for k in ("map", "index", "range") if kinds[k]]
    if bool(ctx.bool("reverse")):
        keys = keys[::-1]
    vals = {}
    for k in keys:
        if k == "range":
            n = ctx.concretize(ctx.int("nr", 1, 4))
            v = [ctx.int(f"r{i}", -1000, 1000) for i in range(n)]
            ok = n in (2, 3)
        elif k == "index":
            n = ctx.concretize(ctx.int("ni", 0, 2))
            v = [ctx.int(f"i{i}", -1000, 1000) for i in range(n)]
            if n and bool(ctx.bool("bad")):
                v[-1] = ctx.choose("badval", [1.5, "3", None])
                ok = False
            else:
                ok = n > 0
        else:
            v, ok = ["XX", 4.5], allow
        seq = ctx.choose("seq-" + k, [list, tuple])
        cfg[f"{axis}_{k}"] = seq(v)
        vals[k] = (v, ok)
    if other:
        cfg["pol_index"] = [0, 1]
        want["pol_sel"] = [0, 1]
    s = S()
    s.selections, s.allow_index_map = cfg if cfg or bool(ctx.bool("empty")) else None, allow
    legal = all(ok for _, ok in vals.values())
    try:
        s.setup()
    except ValueError:
        ctx.check(not legal, "a selection which is allowed was refused")
        ctx.reach("refused")
        return
    ctx.check(legal, "a selection which is not allowed was accepted", keys=keys)
    got = s._sel
    best = next((k for k in ("range", "index", "map") if kinds[k]), None)
    if best is not None:
        want[axis + "_sel"] = None
    ctx.check(set(got) == set(want), "other axes are selected", got=sorted(got), want=sorted(want))
    if other:
        ctx.check(got["pol_sel"] == [0, 1], "the selection of another axis is wrong")
    if best is not None:
        g, v = got[axis + "_sel"], vals[best][0]
        if best == "range":
            ctx.check(isinstance(g, slice), "a range is not a slice", got=repr(g), best=best)
            e = [v[0], v[1], v[2] if len(v) > 2 else None]
            for a, b in zip((g.start, g.stop, g.step), e):
                ctx.check((a is None) == (b is None), "a range is not the slice given")
                if b is not None:
                    ctx.check(a == b, "a range is not the slice given")
        else:
            ctx.check(isinstance(g, list) and len(g) == len(v), "not the list given", got=repr(g), best=best)
            for a, b in zip(g, v):
                ctx.check(a == b, "not the list given")
        ctx.reach(best)


# ------------------------------------------------------------------ filtered copies


def fill(c, n, comm=None, spec=SPEC):
    from props import mpicommon as mc

    for k in spec:
        if k not in c:
            c.add_dataset(k)
        v = content(k, n, spec)
        x = c[k]
        if x.distributed:
            ax = x.distributed_axis
            size, rank = (comm.size, comm.rank) if comm is not None else (1, 0)
            a, b = mc.ref_split(v.shape[ax], size)[rank]
            x.local_data[:] = v[(slice(None),) * ax + (slice(a, b),)]
        else:
            x[:] = v
        x.attrs["unit"] = "u-" + k


def dest_axes(n, sel):
    return {a: len(indices(sel[a], n[a])) if a in sel else n[a] for a in n}


def local(x):
    return np.array(x.local_data if x.distributed else x[:])


def filtered(ctx):
    """One or two axes, every form of selection, on one process."""
    from caput.containers import copy_datasets_filter

    warnings.simplefilter("ignore")
    C = make_cls()
    n = {"freq": ctx.params["n"], "pol": 2, "time": 3}
    names = ctx.choose("axes", ctx.params["axes"])
    sel = {}
    for a in names:
        sel[a] = draw(ctx, a, n[a], ctx.params["forms"])
    spelled = ctx.choose("spelled", ["dict", "both", "single"] if len(names) == 1 else ["dict", "both"])
    excl = ctx.choose("exclude", [None, ("pol",), ["time"]]) if ctx.params["opts"] else None
    full = bool(ctx.bool("copy_without_selection")) if ctx.params["opts"] else True
    dist = bool(ctx.bool("distributed"))
    src = C(**n, distributed=dist)
    fill(src, n)
    skip = bool(ctx.bool("skip")) if ctx.params["opts"] else False
    dst = C(**dest_axes(n, sel), distributed=dist, skip_datasets=skip)
    given = dict(sel)
    run = lambda d: copy_datasets_filter(  # noqa: E731
        src, d, *{"dict": (), "both": (tuple(names),), "single": (names[0], sel[names[0]])}[spelled],
        **({} if spelled == "single" else {"selection": given}), exclude_axes=excl, copy_without_selection=full)
    for _ in range(2):  # the same call again gives the same result
        for k in dst:
            dst[k][:] = -1
        run(dst)
        copied = {k for k, s in SPEC.items() if not set(excl or ()) & set(s["axes"])
                  and (full or set(names) & set(s["axes"]))}
        for k in SPEC:
            if k in copied:
                v = pick(k, n, sel)
                ctx.check(k in dst, "a dataset was not copied", name=k)
                g = local(dst[k])
                ctx.check(g.shape == v.shape and np.array_equal(g, v), "not the elements selected", name=k,
                          got=g.tolist(), want=v.tolist())
                ctx.check(dst[k].attrs.get("unit") == "u-" + k and list(dst[k].attrs["axis"]) == SPEC[k]["axes"],
                          "the attributes were not copied", name=k)
            else:
                ctx.check(k not in dst if skip else "unit" not in dst[k].attrs and np.all(local(dst[k]) == -1),
                          "a dataset which should be left out was copied", name=k)
    ctx.check(set(given) == set(sel) and all(given[a] is sel[a] for a in sel), "the selection given was modified")
    for k in SPEC:
        ctx.check(np.array_equal(local(src[k]), content(k, n)), "the source was modified", name=k)
    ctx.reach("done")


def draw2(ctx, name, n):
    form = ctx.choose(name + "-form2", ["slice", "list"])
    if form == "slice":
        return ctx.choose(name + "-sl", [slice(0, 1), slice(1, None), slice(None), slice(0, 0), slice(None, None, -1)])
    return ctx.choose(name + "-li", [[0], [n - 1, 0], [], [0, 1]])


def two(ctx):
    """Two axes at once."""
    from caput.containers import copy_datasets_filter

    warnings.simplefilter("ignore")
    C = make_cls()
    n = {"freq": 2, "pol": 2, "time": 3}
    names = ctx.choose("axes", [("freq", "time"), ("pol", "time"), ("freq", "pol")])
    sel = {a: draw2(ctx, a, n[a]) for a in names}
    src = C(**n, distributed=False)
    fill(src, n)
    dst = C(**dest_axes(n, sel), distributed=False)
    copy_datasets_filter(src, dst, selection=dict(sel), copy_without_selection=True)
    for k in SPEC:
        v, g = pick(k, n, sel), local(dst[k])
        ctx.check(g.shape == v.shape and np.array_equal(g, v), "not the elements selected", name=k,
                  got=g.tolist(), want=v.tolist())
    try:
        copy_datasets_filter(src, dst, axis=("freq", "pol", "time"), selection=dict(sel))
    except ValueError:
        ctx.reach("refused")
    else:
        ctx.fail("axes without a selection were accepted")
    ctx.reach("done")


def fi_setup(ctx):
    n = {"freq": ctx.concretize(ctx.int("nf", 2, 3)), "pol": 2, "time": 2}
    names = ctx.choose("axes", [("freq",), ("time",), ("freq", "pol"), ("pol", "time")])
    sel = {a: draw2(ctx, a, n[a]) for a in names}
    return dict(n=n, sel=sel, dist=ctx.choose("dist", ["freq", "time", "mixed"]),
                dst=ctx.choose("dst", ["same", "other"]))


def fi_rank(ctx, comm, inp):
    from caput.containers import copy_datasets_filter

    warnings.simplefilter("ignore")
    n, sel = inp["n"], inp["sel"]
    over = {"freq": {}, "time": {"cube": "time", "swap": "time"}, "mixed": {"cube": "pol", "swap": None}}[inp["dist"]]
    spec = {k: {**s, **({} if k not in over else {"distributed_axis": over[k]} if over[k] else {"distributed": False})}
            for k, s in SPEC.items() if k != "swap" or set(sel) != {"freq", "time"}}
    C = make_cls(spec, "C%d" % comm.rank)
    src = C(**n, comm=comm)
    fill(src, n, comm, spec)
    dspec = spec
    if inp["dst"] == "other":  # the destination distributes other datasets, over other axes
        dspec = {k: {**s, "distributed": True, "distributed_axis": s["axes"][-1]} for k, s in spec.items()}
    dst = make_cls(dspec, "D%d" % comm.rank)(**dest_axes(n, sel), comm=comm)
    copy_datasets_filter(src, dst, selection=sel, copy_without_selection=True)
    # what is asked for afterwards is the global contents
    out = {}
    for k in spec:
        x = dst[k]
        out[k] = (tuple(x.shape), np.array(x[:].allgather() if x.distributed else x[:]))
        y = src[k]
        out["src-" + k] = (tuple(y.shape), np.array(y[:].allgather() if y.distributed else y[:]))
    return out


def fi_final(ctx, results, inp):
    from props import mpicommon as mc

    vals = mc.all_ok(ctx, results, "filtering")
    for r, out in enumerate(vals):
        for k, (shape, g) in out.items():
            v = content(k[4:], inp["n"]) if k.startswith("src-") else pick(k, inp["n"], inp["sel"])
            ctx.check(shape == v.shape == g.shape and np.array_equal(g, v), "not the elements selected", name=k, rank=r,
                      got=g.tolist(), want=v.tolist())
    ctx.reach("done")


# ------------------------------------------------------------------ files


def saved(d, C, n, fmt):
    c = C(**n, distributed=False)
    fill(c, n, spec=C._dataset_spec)
    for a in n:
        c.index_attrs[a]["q"] = a
    p = f"{d}/f.{fmt}"
    c.save(p, file_format=None)
    return p


def check_loaded(ctx, n, sel, got, maps):
    for k in SPEC:
        v, g = pick(k, n, sel), got[k]
        ctx.check(g.shape == v.shape and np.array_equal(g, v), "not the elements selected", name=k,
                  got=g.tolist(), want=v.tolist())
    for a in n:
        w = indices(sel[a], n[a]) if a in sel else list(range(n[a]))
        ctx.check(list(maps[a]) == w, "the axis does not match the selection", axis=a, got=list(maps[a]), want=w)


def files(ctx):
    """Loading a file with selections."""
    warnings.simplefilter("ignore")
    C = make_cls()
    n = {"freq": 3, "pol": 2, "time": 3}
    fmt = ctx.params["fmt"]
    names = ctx.choose("axes", [("freq",), ("time",), ("freq", "time"), ("pol",)])
    sel = {}
    for i, a in enumerate(names):
        if i == 0:
            sel[a] = draw(ctx, a, n[a], ["slice", "list"] if fmt == "h5" else ["slice"], neg=False)
        else:
            sel[a] = ctx.choose("second", [slice(0, 1), slice(1, 3), slice(None), slice(0, 3, 2)])
    d = tempfile.mkdtemp(prefix="p23-", dir=os.environ.get("VP_SCRATCH") or None)
    try:
        p = saved(d, C, n, fmt)
        c = C.from_file(p, distributed=False, **{a + "_sel": s for a, s in sel.items()})
        check_loaded(ctx, n, sel, {k: local(c[k]) for k in SPEC}, c.index_map)
        ctx.check(dict(c.index_attrs["freq"]) == {"q": "freq"} and c["cube"].attrs["unit"] == "u-cube", "attributes lost")
        try:
            C.from_file(p, nope_sel=slice(0, 1))
        except RuntimeError:
            ctx.reach("refused")
        else:
            ctx.fail("a selection along an unknown axis was accepted")
        ctx.reach("done")
    finally:
        shutil.rmtree(d, ignore_errors=True)


def ld_setup(ctx):
    d = tempfile.mkdtemp(prefix="p23-", dir=os.environ.get("VP_SCRATCH") or None)
    n = {"freq": 4, "pol": 2, "time": 3}
    names = ctx.choose("axes", [("freq",), ("time",), ("freq", "time")])
    sel = {a: ctx.choose("sel-" + a, [slice(None), slice(1, 3), slice(0, 4, 2), slice(2, 2), slice(-2, None)] + [[0, 2]] * (a == "time"))
           for a in names}
    return dict(n=n, sel=sel, dir=d, path=saved(d, make_cls(), n, "h5"))


def ld_rank(ctx, comm, inp):
    warnings.simplefilter("ignore")
    C = make_cls()
    c = C.from_file(inp["path"], distributed=True, comm=comm, **{a + "_sel": s for a, s in inp["sel"].items()})
    c.redistribute("freq")
    return ({k: np.array(c[k][:].allgather() if c[k].distributed else c[k][:]) for k in SPEC}, dict(c.index_map))


def ld_final(ctx, results, inp):
    from props import mpicommon as mc

    shutil.rmtree(inp["dir"], ignore_errors=True)
    for got, maps in mc.all_ok(ctx, results, "loading"):
        check_loaded(ctx, inp["n"], inp["sel"], got, maps)
    ctx.reach("done")


def harnesses(tier):
    q = tier == "quick"
    out = [Harness("parse", parse, reach=["refused", "range", "index", "map"], weight=3,
                   bounds="symbolic ranges and indices within +-1000, all combinations of keys")]
    nn = 3 if q else 4
    for f in (["all", "slice"], ["list"], ["tuple", "array"], ["mask", "boollist"]):
        out.append(Harness("filter-" + f[-1], filtered, params={
            "n": nn, "axes": [("freq",)], "forms": f, "opts": False}, reach=["done"], weight=6,
            bounds=f"axis of {nn}, selections: {', '.join(f)}; up to 3 indices; common and distributed"))
    out.append(Harness("options", filtered, params={"n": 2, "axes": [("freq",), ("time",), ("pol",)], "forms": ["all", "pick"],
                                                    "opts": True}, reach=["done"], weight=6,
                       bounds="axes of 2 and 3, exclusions, datasets without the axis, missing destination datasets"))
    out.append(Harness("two", two, reach=["done", "refused"], weight=3, bounds="two axes, 9 selections each"))
    for n in (2,) if q else (2, 3):
        out.append(Harness(f"ranks-{n}", setup=fi_setup, rank=fi_rank, final=fi_final, nranks=n, reach=["done"], weight=6,
                           bounds=f"{n} ranks, sources and destinations distributed over any axis or common"))
        out.append(Harness(f"load-{n}", setup=ld_setup, rank=ld_rank, final=ld_final, nranks=n, reach=["done"], weight=4,
                           bounds=f"HDF5 file read by {n} ranks, selections on the distributed and other axes"))
    out.append(Harness("hdf5", files, params={"fmt": "h5"}, reach=["done", "refused"], weight=4,
                       bounds="axes of 2 and 3, slices within -..4, index lists"))
    out.append(Harness("zarr", files, params={"fmt": "zarr"}, reach=["done", "refused"], weight=4,
                       bounds="axes of 2 and 3, slices"))
    return out
