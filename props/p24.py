"""P24: the outputs of container tasks are labelled, checked and saved as configured.

Real tasks are made from symbolic configurations (tag and attribute formats, file names, formats,
saving and NaN options) and the real `next` and `finish` run on symbolic inputs and outputs: tagged,
untagged and foreign inputs, one or several outputs, and data with a symbolic pattern of finite and
other numbers, on one or several ranks. A reference written from the documentation says which
attributes every output has, which outputs are passed on, and which files exist with which contents.
"""

import os
import shutil
import tempfile
import warnings

import numpy as np

from vp.harness import Harness

ASSUMPTIONS = [
    "up to 3 iterations, 2 inputs and 2 outputs",
    "the tags of outputs do not need escaping in file names",
    "non-finite numbers in datasets of compound type are not looked for",
    "an iteration without output does not count",
]


class Scratch:
    """A scratch directory as the working directory."""

    def __enter__(self):
        self.old = os.getcwd()
        self.d = tempfile.mkdtemp(prefix="p24-", dir=os.environ.get("VP_SCRATCH") or None)
        os.chdir(self.d)
        return self.d

    def __exit__(self, *a):
        os.chdir(self.old)
        shutil.rmtree(self.d, ignore_errors=True)


def listing(d):
    out = set()
    for r, ds, fs in os.walk(d):
        for x in list(ds):
            if x.endswith(".zarr"):
                ds.remove(x)
                out.add(os.path.relpath(os.path.join(r, x), d))
        out |= {os.path.relpath(os.path.join(r, f), d) for f in fs}
    return out


def box(tag=None, v=0.0):
    from caput.containers import Container

    c = Container()
    c.create_dataset("x", data=np.array([1.0, 2.0, v]))
    if tag is not None:
        c.attrs["tag"] = tag
    return c


def quiet():
    import logging

    warnings.simplefilter("ignore")
    logging.disable(logging.CRITICAL)


def mktask(nin, fn, finish=None):
    from caput.pipeline.tasklib import base

    if nin == 0:
        def process(self):
            return fn()
    elif nin == 1:
        def process(self, a):
            return fn(a)
    else:
        def process(self, a, b):
            return fn(a, b)
    ns = {"process": process}
    if finish is not None:
        ns["process_finish"] = lambda self: finish()
    return type("Thing", (base.ContainerTask,), ns)


# ------------------------------------------------------------------ labels


def labels(ctx):
    """Tags and attributes of the outputs."""
    quiet()
    nin = ctx.choose("inputs", [0, 1, 2])
    nout = ctx.choose("outputs", [1, 2])
    infin = bool(ctx.bool("finish"))
    kinds = [ctx.choose(f"in{i}", ["tagged", "bare", "foreign"]) for i in range(nin)]
    otag = ctx.choose("out-tag", [None, "own"])
    tag = ctx.choose("tag", [None, "cat{count}", "{task}-{key}", "x{tag}", "{colour}"])
    attrs = ctx.choose("attrs", [None, {"a": "{count}/{tag}", "n": 3, "d": {"k": "{count}"}}, {"tag": "lost", "who": "{key}{colour}"}])
    cfg = {"nan_check": bool(ctx.bool("nan_check"))}
    if tag is not None:
        cfg["tag"] = tag
    if attrs is not None:
        cfg["attrs"] = attrs
    made = []

    def outs(*a):
        made.append([])
        for i in range(nout):
            c = box(otag)
            c.attrs["colour"] = f"red{i}"
            made[-1].append(c)
        return made[-1][0] if nout == 1 else tuple(made[-1])

    skip = ctx.choose("none-at", [None, 0, 1])
    step = [0]

    def work(*a):
        step[0] += 1
        return None if skip == step[0] - 1 else outs()

    T = mktask(nin, work, outs if infin else None)
    t = T._from_config(cfg)
    t._out_keys = ["ka", "kb"][:nout]
    count = 0
    nit = 2
    for it in range(nit + 1):
        ins = [box(f"t{it}{i}") if k == "tagged" else box() if k == "bare" else 17 for i, k in enumerate(kinds)]
        last = it == nit
        got = t.finish() if last else t.next(*ins)
        if last and not infin:
            ctx.check(got is None, "a task without outputs at the end made one")
            break
        if not last and skip == it:
            ctx.check(got is None, "an output was made up")
            continue
        res = got if nout > 1 else (got,)
        ctx.check(isinstance(res, tuple) and len(res) == nout and all(a is b for a, b in zip(res, made[-1])),
                  "the outputs are not those of the task, in order")
        tags = [f"t{it}{i}" if k == "tagged" else "" for i, k in enumerate(kinds)]
        for i, c in enumerate(res):
            t0 = otag if otag else tags[0] if not last and tags and tags[0] else count
            env = {"count": count, "tag": t0, "key": ["ka", "kb"][i], "task": "Thing", "colour": f"red{i}"}
            want = {"colour": f"red{i}"}
            if not last:
                want["input_tags"] = tags
            for k, v in {**(attrs or {}), "tag": tag or "{tag}"}.items():
                want[k] = v.format(**env) if isinstance(v, str) else v
            have = {k: v for k, v in c.attrs.items() if k != "__memh5_subclass"}
            have = {k: list(v) if k == "input_tags" else v for k, v in have.items()}
            ctx.check(have == want, "wrong attributes of an output", got=have, want=want, it=it)
            ctx.check(np.array_equal(c["x"][:], [1.0, 2.0, 0.0]), "an output was modified")
        if not last:
            count += 1
    ctx.reach("done")


# ------------------------------------------------------------------ numbers


def numbers(ctx):
    """Outputs with NaN or infinite numbers, in any dataset."""
    from caput.containers import Container
    from caput.memdata import MemDiskGroup

    quiet()
    flags = {k: bool(ctx.bool(k)) for k in ("nan_check", "nan_skip", "nan_dump")}
    dt = ctx.choose("dtype", [np.float32, np.float64, np.complex64, int, "S3", [("a", float)]])
    vals = {0: 1.0, 1: np.nan, 2: np.inf, 3: -np.inf}
    ok = dt in (np.float32, np.float64, np.complex64)
    el = [ctx.concretize(ctx.int(f"v{i}", 0, 3)) if ok else 0 for i in range(2)]
    where = ctx.choose("where", ["root", "index_map"])
    nout = ctx.choose("outputs", [1, 2])
    save = bool(ctx.bool("save"))

    def make():
        c = Container()
        c.create_dataset("a", data=np.zeros(2))
        x = np.zeros(2, dtype=dt)
        if ok:
            x[:] = [vals[v] for v in el]
            if dt is np.complex64 and bool(el[1]):
                x[1] = complex(0, vals[el[1]])
        if where == "root":
            c.create_dataset("b", data=x)
        else:
            c.create_index_map("b", x)
        c.create_dataset("z", data=np.ones(2, np.int8))
        return c

    outs = [box("fine"), make()][-nout:]
    T = mktask(1, lambda a: outs[0] if nout == 1 else tuple(outs))
    with Scratch() as d:
        t = T._from_config({**flags, "save": save, "output_name": "out_{tag}.h5", "tag": "g{count}" if nout == 1 else "{tag}"})
        outs[-1].attrs["tag"] = "bad"
        t._out_keys = ["k", "l"]
        got = t.next(box("in"))
        res = got if nout == 2 else (got,)
        bad = any(el) and flags["nan_check"]
        gone = bad and flags["nan_skip"]
        ctx.check((res[-1] is None) == gone, "an output was wrongly passed on or held back", el=el, got=repr(res[-1]))
        ctx.check(gone or res[-1] is outs[-1], "another output is passed on")
        ctx.check(nout == 1 or res[0] is outs[0], "the other output is not passed on")
        tag = "g0" if nout == 1 else "bad"
        want = set()
        if bad and flags["nan_dump"]:
            want.add(f"nandump_Thing_{tag}.h5")
        if save and not gone:
            want.add(f"out_{tag}.h5")
        if save and nout == 2:
            want.add("out_fine.h5")
        ctx.check(listing(d) == want, "other files than expected", got=sorted(listing(d)), want=sorted(want))
        for f in want:
            c = MemDiskGroup.from_file(f)
            if f != "out_fine.h5" and where == "root":
                g = c["b"][:]
                ctx.check(g.dtype == outs[-1]["b"].dtype and np.array_equal(g, outs[-1]["b"][:], equal_nan=ok),
                          "the file does not hold the data", file=f)
    if bad:
        ctx.reach("bad")
    ctx.reach("done")


def sequence(ctx):
    """Numbers of the outputs over several iterations, some without and some with a bad output."""
    from caput.memdata import MemDiskGroup

    quiet()
    n = 5 if ctx.params["deep"] else 4
    kinds = [ctx.choose(f"it{i}", ["good", "nan", "none"]) for i in range(n)]
    nskip, pair = bool(ctx.bool("nan_skip")), bool(ctx.bool("pair"))
    it = iter(range(n))

    def process(a):
        i = next(it)
        if kinds[i] == "none":
            return None
        b = box(None, np.nan if kinds[i] == "nan" else 1.0 + i)
        return (b, box("side", 0.5)) if pair else b

    T = mktask(1, process)
    with Scratch() as d:
        t = T._from_config({"nan_skip": nskip, "nan_dump": False, "save": [True, False], "output_name": "o_{tag}_{count}.h5",
                            "tag": "{tag}"})
        t._out_keys = ["k", "l"]
        count, want = 0, {}
        for i in range(n):
            got = t.next(box())
            if kinds[i] == "none":
                ctx.check(got is None, "an output was made up")
                continue
            if pair:
                ctx.check(got[1] is not None, "the other output was lost")
                got = got[0]
            gone = kinds[i] == "nan" and nskip
            ctx.check((got is None) == gone, "an output was wrongly passed on or held back", i=i)
            if not gone:
                ctx.check(str(got.attrs["tag"]) == str(count), "an output has the number of another one", i=i,
                          got=str(got.attrs["tag"]), want=count)
                want[f"o_{count}_{count}.h5"] = i
            count += 1
        ctx.check(listing(d) == set(want), "other files than expected", got=sorted(listing(d)), want=sorted(want))
        for f, i in want.items():
            c = MemDiskGroup.from_file(f)
            w = np.nan if kinds[i] == "nan" else 1.0 + i
            ctx.check(np.array_equal(c["x"][:], [1.0, 2.0, w], equal_nan=True), "a file has another output", file=f)
    ctx.reach("done")


def nr_setup(ctx):
    el = [ctx.concretize(ctx.int(f"v{i}", 0, 2)) for i in range(3)]
    common = ctx.concretize(ctx.int("c", 0, 1))
    return dict(el=el, common=common, skip=bool(ctx.bool("skip")))


def nr_rank(ctx, comm, inp):
    from caput.containers import Container
    from props import mpicommon as mc

    quiet()

    def make(a=None):
        c = Container(distributed=True, comm=comm)
        for n, e in (("a", [0, 0, 0]), ("b", inp["el"])):
            x = c.create_dataset(n, shape=(3, 2), dtype=float, distributed=True, distributed_axis=0)
            lo, hi = mc.ref_split(3, comm.size)[comm.rank]
            x.local_data[:] = 1.0
            x.local_data[:, 1] = np.array([0.0, np.nan, np.inf])[e[lo:hi]]
        c.create_dataset("c", data=np.array([1.0, np.nan if inp["common"] else 2.0]))
        return c

    t = mktask(1, make)._from_config({"nan_skip": inp["skip"], "nan_dump": False})
    t.comm = comm
    out = t.next(box("t"))
    return None if out is None else dict(out.attrs)["tag"]


def nr_final(ctx, results, inp):
    from props import mpicommon as mc

    vals = mc.all_ok(ctx, results, "the task")
    bad = (any(inp["el"]) or inp["common"]) and inp["skip"]
    ctx.check(all(v == (None if bad else "t") for v in vals), "the ranks pass on different outputs", got=vals, want=bad)
    ctx.reach("done")


# ------------------------------------------------------------------ files


def saving(ctx):
    """Which files are written, where, in which format, with which contents."""
    import h5py

    from caput.containers import ContainerPrototype
    from caput.memdata import MemDiskGroup

    quiet()
    nout = ctx.choose("outputs", [1, 2])
    save = ctx.choose("save", [True, False] + ([[True, False], [False, True], [True, True]] if nout == 2 else []))
    zarr = ctx.choose("format", ["h5", "zarr", "h5-given", "zarr-given"])
    ext = {"h5": ".h5", "zarr": ".zarr", "h5-given": ".h5", "zarr-given": ".zarr"}[zarr]
    name = ctx.choose("name", ["o_{tag}_{key}", "{count}{task}{key}", "sub/dir/{colour}{key}", "$VPDIR/{tag}{key}", None])
    root = ctx.choose("root", [None, "pre_"]) if name is None else None
    names = None if name is None else name + ext
    if nout == 2 and name is not None and bool(ctx.bool("list")):
        names = [name + ext, "second_{count}" + ext]
    if name is None and ext != ".h5":
        return
    cfg = {"save": save, "versions": {"m": "1.2"}, "pipeline_config": {"a": [1, {"b": 2}]}, "nan_check": True}
    if names is not None:
        cfg["output_name"] = names
    if root is not None:
        cfg["output_root"] = root
    if zarr in ("h5-given", "zarr-given"):
        cfg["output_format"] = {"h5-given": "hdf5", "zarr-given": "Zarr"}[zarr]
    comp = ctx.choose("compression", [None, False, {"vis": {"chunks": (1, 2), "compression": "gzip", "compression_opts": 2}}, {}]) \
        if zarr == "h5" and nout == 1 and name == "o_{tag}_{key}" else None
    if comp is not None:
        cfg["compression"] = comp
    C = type("C", (ContainerPrototype,), {"_axes": ("x", "y"), "_dataset_spec": {
        "vis": {"axes": ["x", "y"], "dtype": float, "initialise": True, "chunks": (2, 1), "compression": "gzip", "compression_opts": 4}}})
    made = []

    def work(a):
        out = []
        for i in range(nout):
            c = C(x=2, y=3, distributed=False)
            c["vis"][:] = np.arange(6).reshape(2, 3) + 10 * i + 100 * len(made)
            c.attrs["colour"] = f"blue{i}"
            c.attrs["tag"] = f"t{len(made)}{i}"
            out.append(c)
        made.append(out)
        return out[0] if nout == 1 else tuple(out)

    T = mktask(1, work)
    os.environ["VPDIR"] = "fromenv"
    with Scratch() as d:
        t = T._from_config(cfg)
        t._out_keys = ["k", "l"][:nout]
        want = {}
        for it in range(2):
            res = t.next(box("in"))
            for i, c in enumerate(res if nout == 2 else (res,)):
                if not (save[i] if isinstance(save, list) else save):
                    continue
                env = dict(tag=f"t{it}{i}", count=it, task="Thing", key="kl"[i], colour=f"blue{i}", output_root=root or "")
                f = ((names[i] if isinstance(names, list) else names) or "{output_root}{tag}.h5").format(**env)
                want[f.replace("$VPDIR", "fromenv")] = (it, i)
        del os.environ["VPDIR"]
        got = listing(d)
        ctx.check(got == set(want), "other files than configured", got=sorted(got), want=sorted(want))
        for f, (it, i) in want.items():
            c = MemDiskGroup.from_file(f, detect_subclass=False)
            ctx.check(np.array_equal(c["vis"][:], made[it][i]["vis"][:]), "the file does not hold the output", file=f)
            ctx.check(c.attrs["tag"] == f"t{it}{i}" and c.attrs["colour"] == f"blue{i}"
                      and list(c.attrs["input_tags"]) == ["in"], "the file does not hold the attributes", file=f)
            h = c._data["history"].attrs
            ctx.check(h["versions"] == {"m": "1.2"} and h["config"] == {"a": [1, {"b": 2}]}
                      and h["order"] == str(["versions", "config"]), "the file does not hold the metadata", got=dict(h))
            if ext == ".h5":
                with h5py.File(f, "r") as fh:
                    x = fh["vis"]
                    ch, co = (None, None) if comp is False else ((1, 2), 2) if comp else ((2, 1), 4)
                    ctx.check(x.chunks == ch and x.compression_opts == co and x.compression == (ch and "gzip"),
                              "not the compression configured", got=[x.chunks, x.compression, x.compression_opts])
    ctx.reach("done")


# ------------------------------------------------------------------ composition, refusals, simple saving


def others(ctx):
    from caput import config
    from caput.memdata import MemDiskGroup, fileformats
    from caput.pipeline import exceptions, extensions
    from caput.pipeline.tasklib import base, io

    quiet()
    what = ctx.choose("what", ["group", "badsig", "notcont", "save", "level", "format"])
    if what == "group":
        na, nb = ctx.choose("args", [(0, 0), (1, 0), (0, 2), (1, 2)])
        log = []

        def sub(name, n):
            def s0(self):
                log.append((name, ()))

            def s1(self, a):
                log.append((name, (a,)))

            def s2(self, a, b):
                log.append((name, (a, b)))

            def process(self, x):
                x.attrs["path"] = x.attrs.get("path", "") + name
                return x
            return type(name, (base.ContainerTask,), {"setup": [s0, s1, s2][n], "process": process})

        A, B = sub("A", na), sub("B", nb)
        G = base.group_tasks(A, B)
        t = G._from_config({})
        t.setup(*range(na + nb))
        ctx.check(log == [("A", tuple(range(na))), ("B", tuple(range(na, na + nb)))], "wrong setup of the subtasks", got=log)
        out = t.next(box("q"))
        ctx.check(out.attrs["path"] == "AB" and out.attrs["tag"] == "q", "the subtasks did not run in order")
    elif what == "badsig":
        kind = ctx.choose("kind", ["varargs", "varkw", "default"])
        fn = {"varargs": lambda self, *a: None, "varkw": lambda self, **k: None, "default": lambda self, a=1: None}[kind]
        try:
            type("X", (base.ContainerTask,), {"process": fn})._from_config({})
        except exceptions.PipelineRuntimeError:
            pass
        else:
            ctx.fail("a process method with optional arguments was accepted")
    elif what == "notcont":
        v = ctx.choose("v", [5, "text", (1, 2), [1]])
        try:
            mktask(1, lambda a: v)._from_config({"nan_check": False}).next(box("t"))
        except exceptions.PipelineRuntimeError:
            pass
        else:
            ctx.fail("an output which is not a container was accepted")
    elif what == "save":
        with Scratch() as d:
            t = io.Save._from_config({"root": d + "/r"})
            tags = [ctx.choose(f"tag{i}", [None, "x", "y"]) for i in range(3)]
            n, want = 0, {}
            for i, g in enumerate(tags):
                c = box(g, float(i))
                ctx.check(t.next(c) is c, "the input is not passed on")
                want[f"r_{g if g is not None else n}.h5"] = float(i)
                n += g is None
            ctx.check(listing(d) == set(want), "other files", got=sorted(listing(d)), want=sorted(want))
            for f, v in want.items():
                ctx.check(MemDiskGroup.from_file(f)["x"][2] == v, "a file holds other data", file=f)
    elif what == "level":
        import logging

        x = ctx.choose("x", ["DEBUG", "debug", "Info", "WARN", "warning", "ERROR", "critical", 17, "loud", None, 1.5])
        try:
            got = base._log_level(x)
        except ValueError:
            got = None
        want = x if isinstance(x, int) else getattr(logging, x.upper(), None) if isinstance(x, str) else None
        ctx.check(got == want, "wrong log level", x=x, got=got)
    else:
        x = ctx.choose("x", ["hdf5", "HDF5", "zarr", "Zarr", None, "text", 3, "class", "int"])
        cls = {"class": fileformats.Zarr, "int": int}.get(x, x)
        want = {"hdf5": fileformats.HDF5, "zarr": fileformats.Zarr, "class": fileformats.Zarr}.get(
            x.lower() if isinstance(x, str) else x, None)
        ok = want is not None or x is None
        as_default = bool(ctx.bool("default"))

        def build():
            T = type("R", (config.Reader,), {"f": extensions.file_format(*([cls] if as_default else []))})
            return T.from_config({} if as_default else {"f": cls}).f

        try:
            got = build()
        except config.CaputConfigError:
            ctx.check(not ok, "a file format was refused", x=repr(x))
        else:
            ctx.check(ok and got is want, "a wrong file format was accepted", x=repr(x), got=repr(got))
    ctx.reach(what)


def harnesses(tier):
    q = tier == "quick"
    out = [
        Harness("labels", labels, reach=["done"], weight=8, bounds="0-2 inputs, 1-2 outputs, 2 iterations and the end, 5 tag formats, 3 attribute sets"),
        Harness("numbers", numbers, reach=["done", "bad"], weight=6, bounds="2 elements each finite, NaN or infinite, 6 types, all options"),
        Harness("sequence", sequence, params={"deep": not q}, reach=["done"], weight=4,
                bounds="4 (thorough 5) iterations, each with a good, bad or no output"),
        Harness("saving", saving, reach=["done"], weight=6, bounds="1-2 outputs, 2 iterations, 5 formats, 5 file name forms, compression"),
        Harness("others", others, reach=["group", "badsig", "notcont", "save", "level", "format"], weight=2,
                bounds="grouped tasks, refused tasks, the Save task, option parsers"),
    ]
    for n in (1, 2) if q else (1, 2, 3, 4):
        out.append(Harness(f"ranks-{n}", setup=nr_setup, rank=nr_rank, final=nr_final, nranks=n, reach=["done"], weight=3,
                           bounds=f"{n} ranks, 3 rows each finite, NaN or infinite"))
    return out
