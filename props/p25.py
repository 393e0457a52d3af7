"""P25: every listed file is loaded, processed and written once, in order, under its own name.

The real parsers of file lists, globs and file groups run on a scratch directory with a symbolic set
of existing files and symbolic (nested) lists of names and patterns, and are compared with a
reference expansion. The real loading tasks and the reading/writing task bases are run to their end
on such lists, alone and inside a pipeline: what they deliver must be exactly the files, in order,
with the selections and tags asked for, and what they write must be exactly the processed files.
"""

import fnmatch
import os
import shutil
import tempfile
import warnings

import numpy as np

from vp.harness import Harness

ASSUMPTIONS = [
    "up to 5 files, lists of up to 3 entries nested up to 2 deep; names without special characters",
    "files are not removed between parsing the configuration and loading",
]


class Scratch:
    def __enter__(self):
        self.old = os.getcwd()
        self.d = tempfile.mkdtemp(prefix="p25-", dir=os.environ.get("VP_SCRATCH") or None)
        os.chdir(self.d)
        return self.d

    def __exit__(self, *a):
        os.chdir(self.old)
        shutil.rmtree(self.d, ignore_errors=True)


def quiet():
    import logging

    warnings.simplefilter("ignore")
    logging.disable(logging.CRITICAL)


NAMES = ["a1.h5", "a10.h5", "a2.h5", "b.h5", "z.zarr"]
ENTRIES = ["a1.h5", "a2.h5", "b.h5", "z.zarr", "*.h5", "a?.h5", "a[12].h5", "*", "q*"]


def expand(e, have):
    """The files of one entry, or None if it names a file which is missing."""
    if any(c in e for c in "*?["):
        return sorted(f for f in have if fnmatch.fnmatch(f, e))
    return [e] if e in have else None


def lists(ctx):
    """The parsers of file lists."""
    from caput.config import CaputConfigError
    from caput.pipeline.tasklib import io

    quiet()
    have = [f for i, f in enumerate(NAMES) if bool(ctx.bool(f"f{i}"))]
    fn = ctx.params["fn"]
    shape = ctx.choose("shape", ["one", "list", "nested"])
    k = 1 if shape == "one" else 2
    ents = [ctx.choose(f"e{i}", ENTRIES) for i in range(k)]
    bad = ctx.choose("bad", [None, 3]) if fn != "groups" else None
    with Scratch() as d:
        full = bool(ctx.bool("absolute"))
        for f in have:
            if f.endswith(".zarr"):
                os.mkdir(f)
            else:
                open(f, "w").close()
        pre = d + "/" if full else ""
        args = [pre + e for e in ents]
        arg = args[0] if shape == "one" else args if shape == "list" else [[args[0]], args[1]]
        if fn == "groups":
            arg = {"files": [args[0]]} if shape == "one" else [{"files": args[:1], "tag": "mine"}, {"files": args[1:]}] \
                if shape == "list" else [{"files": args}]
        if bad is not None:
            arg = [arg, bad] if shape == "one" else [*arg, bad]
        import copy

        before = copy.deepcopy(arg)
        parts = [expand(e, have) for e in ents]
        legal = all(p is not None for p in parts) and bad is None
        if fn == "groups":
            groups = [parts] if shape != "list" else [parts[:1], parts[1:]]
            legal = legal and all(any(g) for g in groups)
        try:
            got = {"list": io.list_or_glob, "lists": io.list_of_filelists, "groups": io.list_of_filegroups}[fn](arg)
        except CaputConfigError:
            ctx.check(not legal, "a list of existing files was refused", arg=repr(before), have=have)
            ctx.reach("refused")
            return
        ctx.check(legal, "a file which does not exist was accepted", arg=repr(before), have=have, got=repr(got))
        if fn == "groups":
            want = [[pre + f for p in g for f in p] for g in groups]
            ctx.check([list(g["files"]) for g in got] == want, "not the files of the groups", got=repr(got), want=want)
            tags = [g["tag"] for g in got]
            ctx.check(len(set(tags)) == len(tags) and (shape != "list" or tags[0] == "mine"), "wrong tags", got=tags)
        else:
            want = [pre + f for p in parts for f in p]
            ctx.check(list(got) == want, "not the files listed, in order", got=got, want=want)
        ctx.check(arg == before, "the configuration was modified", got=repr(arg))
        ctx.reach("done")


# ------------------------------------------------------------------ loading tasks


def mkcls():
    import sys

    from caput.containers import ContainerPrototype

    if not hasattr(sys.modules[__name__], "Box"):
        cls = type("Box", (ContainerPrototype,), {
            "__module__": __name__, "__qualname__": "Box", "_axes": ("x", "y"),
            "_dataset_spec": {"v": {"axes": ["x", "y"], "dtype": float, "initialise": True, "distributed_axis": "x"},
                              "w": {"axes": ["x"], "dtype": int, "initialise": True, "distributed": False}}})
        sys.modules[__name__].Box = cls
    return sys.modules[__name__].Box


def value(i):
    return np.arange(12.0).reshape(3, 4) + 100 * i


def write(name, i, tag=None, **attrs):
    c = mkcls()(x=3, y=4, distributed=True)
    c["v"][:].local_array[:], c["w"][:] = value(i), np.arange(3) + i
    if tag is not None:
        c.attrs["tag"] = tag
    for k, v in attrs.items():
        c.attrs[k] = v
    from caput.memdata import fileformats

    c.save(name, file_format=fileformats.Zarr if name.endswith(".zarr") else fileformats.HDF5)


def drain(t, *a):
    from caput.pipeline.exceptions import PipelineStopIteration

    out = []
    while True:
        try:
            out.append(t.next(*a))
        except PipelineStopIteration:
            return out
        if len(out) > 12:
            raise AssertionError("does not end")


SELS = [None, {"x_range": [1, 3]}, {"y_index": [0, 2]}, {"x_range": [0, 3, 2], "y_range": [1, 2]}]


def sel_of(s):
    x, y = slice(None), slice(None)
    if s and "x_range" in s:
        x = slice(*s["x_range"])
    if s and "y_range" in s:
        y = slice(*s["y_range"])
    if s and "y_index" in s:
        y = s["y_index"]
    return x, y


def check_file(ctx, c, i, sel, tag, it, dist=None):
    x, y = sel_of(sel)
    g = c["v"][:]
    g = np.asarray(g.local_array if hasattr(g, "local_array") else g)
    ctx.check(type(c).__name__ == "Box", "a container of another class was loaded", got=type(c).__name__)
    ctx.check(np.array_equal(g, value(i)[x][:, y]) and np.array_equal(c["w"][:], (np.arange(3) + i)[x]),
              "not the contents of the file, or not the selection", i=i, got=g.tolist(), want=value(i)[x][:, y].tolist())
    ctx.check(np.array_equal(c.index_map["x"], np.arange(3)[x]) and np.array_equal(c.index_map["y"], np.arange(4)[y]),
              "the axes do not match the selection")
    if tag is not None:
        ctx.check(c.attrs["tag"] == tag, "wrong tag", got=c.attrs["tag"], want=tag)
    if dist is not None:
        ctx.check(bool(c["v"].distributed) == dist, "wrong distribution")


def loading(ctx):
    from caput.pipeline.tasklib import io

    quiet()
    how = ctx.params["how"]
    sel = ctx.choose("sel", SELS)
    dist = ctx.choose("dist", [None, True, False])
    redist = ctx.choose("redistribute", [None, "y"]) if dist is not False else None
    n = ctx.concretize(ctx.int("n", 0, 3 if ctx.params["deep"] else 2))
    order = ctx.choose("order", ["up", "down"]) if n > 1 else "up"
    tagged = bool(ctx.bool("tagged"))
    ext = ctx.choose("ext", [".h5", ".zarr"]) if not (sel and "y_index" in sel) else ".h5"
    with Scratch():
        for i in range(n):
            write(f"f{i}{ext}", i, f"tag{i}" if tagged else None)
        ids = list(range(n)) if order == "up" else list(range(n))[::-1]
        files = [f"f{i}{ext}" for i in ids]
        cfg = {}
        if sel is not None:
            cfg["selections"] = sel
        if dist is not None:
            cfg["distributed"] = dist
        if redist is not None:
            cfg["redistribute"] = redist
        if how == "params":
            t = io.LoadFilesFromParams._from_config({**cfg, "files": files})
            t.setup()
        elif how == "setup":
            t = io.LoadFiles._from_config(cfg)
            f = io.FindFiles._from_config({"files": files}).setup()
            ctx.check(f == files, "other files were found", got=f)
            t.setup(f)
        else:
            t = io.LoadFilesFromPathAndTag._from_config({**cfg, "paths": ["f{tag}" + ext] if n else [], "tags": [str(i) for i in ids]})
            t.setup()
        out = drain(t)
        ctx.check(len(out) == n, "not every file once", got=len(out), want=n)
        for it, (i, c) in enumerate(zip(ids, out)):
            check_file(ctx, c, i, sel, f"tag{i}" if tagged else f"f{i}", it, dist is not False)
            if c["v"].distributed:
                ctx.check(c["v"].distributed_axis == (1 if redist else 0), "distributed over another axis")
    ctx.reach("done")


def selecting(ctx):
    """Files chosen by the attributes of the inputs, or in turn."""
    from caput.pipeline.tasklib import io

    quiet()
    how = ctx.choose("how", ["attrs", "select", "turn"])
    sel = ctx.choose("sel", SELS[:3])
    days = [ctx.concretize(ctx.int(f"d{i}", 0, 2)) for i in range(3)]
    with Scratch():
        for i in range(2):
            write(f"m_{i}.h5", i, None, day=i, kind="m")
        cfg = {} if sel is None else {"selections": sel}
        if how == "attrs":
            t = io.LoadFilesFromAttrs._from_config({**cfg, "filename": "{kind}_{day}.h5"})
        else:
            t = io.LoadFilesAndSelect._from_config({**cfg, "files": "m_*.h5", **({"key_format": "{kind}-{day}"} if how == "select" else {})})
        t.setup()
        for it, day in enumerate(days):
            c = mkcls()(x=1, y=1)
            c["v"][:], c["w"][:] = 0, 0
            c.attrs["day"], c.attrs["kind"], c.attrs["tag"] = day, "m", f"in{it}"
            want = it % 2 if how == "turn" else day if day < 2 else None
            try:
                out = t.next(c)
            except RuntimeError:
                ctx.check(how == "attrs" and want is None, "a file was refused")
                ctx.reach("missing")
                continue
            if want is None:
                ctx.check(how == "select" and out is None, "a file was made up")
                ctx.reach("skipped")
            else:
                ctx.check(out is not None, "no file was loaded")
                check_file(ctx, out, want, sel, None, it)
    ctx.reach("done")


def pipeline(ctx):
    """Inside a pipeline: find, load, process and save."""
    from caput.memdata import MemDiskGroup
    from caput.pipeline import Manager

    quiet()
    n = ctx.concretize(ctx.int("n", 0, 3))
    save = bool(ctx.bool("save"))
    sel = ctx.choose("sel", SELS[:2])
    with Scratch() as d:
        mkcls()
        for i in range(n):
            write(f"f{i}.h5", i, f"t{i}")
        os.mkdir("out")
        man = Manager.from_yaml_str(f"""
pipeline:
  tasks:
    - type: caput.pipeline.tasklib.io.FindFiles
      out: files
      params: {{files: ["{d}/f*.h5"]}}
    - type: caput.pipeline.tasklib.io.LoadFiles
      requires: files
      out: cont
      params: {{selections: {{{"x_range: [1, 3]" if sel else ""}}}, distributed: false}}
    - type: caput.pipeline.tasklib.flow.PassOn
      in: cont
      out: again
    - type: caput.pipeline.tasklib.io.Truncate
      in: again
      out: cut
      params: {{dataset: {{v: 0.25}}, save: {str(save).lower()}, output_name: "{d}/out/c_{{tag}}.h5"}}
""")
        man.run()
        got = sorted(os.listdir("out"))
        ctx.check(got == ([f"c_t{i}.h5" for i in range(n)] if save else []), "other files were written", got=got)
        for i in range(n if save else 0):
            c = MemDiskGroup.from_file(f"out/c_t{i}.h5")
            w = value(i)[sel_of(sel)[0]]
            v = c["v"][:]
            ctx.check(v.shape == w.shape and np.all(np.abs(v - w) <= 0.25 * np.abs(w)) and list(c.attrs["input_tags"]) == [f"t{i}"],
                      "a file does not hold the processed input", i=i, got=v.tolist())
        if n and save:
            ctx.reach("saved")
    ctx.reach("done")


# ------------------------------------------------------------------ reading and writing bases


def bases(ctx):
    """Tasks which read, process and write one file, or one per iteration."""
    import h5py

    from caput.memdata import MemGroup
    from caput.pipeline.extensions import _extensions as ex

    quiet()
    it = bool(ctx.bool("iterate"))
    src = ctx.choose("source", ["files", "input", "empty-input"])
    dst = ctx.choose("dest", [None, "cwd", "sub"])
    kind = ctx.choose("kind", ["mem", "h5"])
    n = ctx.concretize(ctx.int("n", 1, 3)) if it else 1
    none_at = ctx.choose("none", [None, 0])
    casts = []

    class Mix:
        def cast_input(self, x):
            casts.append(x)
            return x

        def process(self, x):
            if none_at is not None and none_at == getattr(self, "iteration", 0):
                return None
            g = MemGroup() if kind == "mem" else h5py.File(f"tmp{getattr(self, 'iteration', 0)}.h5", "w")
            g.create_dataset("y", data=(x["x"][:] if "x" in x else np.zeros(2)) * 2)
            g.create_group("g").attrs["a"] = 3
            return g

    T = type("T", (Mix, ex.IterH5Base if it else ex.SingleH5Base), {})
    with Scratch():
        mids = [f"m{i}" for i in range(n)]
        for i in range(n):
            g = MemGroup()
            g.create_dataset("x", data=np.arange(2.0) + i)
            g.to_file(f"in_m{i}.h5")
        cfg = {"input_root": "in_"} if src == "files" else {}
        if dst:
            cfg["output_root"] = {"cwd": "out_", "sub": "new/dir/out_"}[dst]
        if it:
            cfg.update(file_middles=mids, input_ext=".h5", output_ext="_o.h5")
        else:
            cfg.update(input_filename="m0.h5", output_filename="m0_o.h5")
        t = T._from_config(cfg)
        t._in = [] if src == "files" else ["k"]
        t.validate()
        base = 1.0
        if src == "files":
            outs = drain(t)
        else:
            outs = []
            for i in range(n):
                g = MemGroup()
                if src == "input":
                    g.create_dataset("x", data=np.arange(2.0) + i)
                outs.append(t.next(g))
            ctx.check(len(casts) == n, "an input was not cast", got=len(casts), want=n)
            base = 1.0 if src == "input" else 0.0
        ctx.check(len(outs) == n, "not every input was processed once", got=len(outs), want=n)
        files = {}
        for i in range(n):
            w = 2 * (np.arange(2.0) + i) * base
            if none_at == i:
                ctx.check(outs[i] is None, "an output was made up")
                continue
            ctx.check(np.array_equal(outs[i]["y"][:], w), "wrong output", i=i)
            if dst:
                files[cfg["output_root"] + f"m{i}_o.h5"] = w
        for f, w in files.items():
            ctx.check(os.path.isfile(f), "an output was not written", file=f)
            with h5py.File(f, "r") as fh:
                ctx.check(np.array_equal(fh["y"][:], w) and fh["g"].attrs["a"] == 3, "a file does not hold the output", file=f)
        got = {os.path.join(r, f)[2:] for r, _, fs in os.walk(".") for f in fs if f.startswith("out_")}
        ctx.check(got == set(files), "other files were written", got=sorted(got), want=sorted(files))
        for o in outs:
            if kind == "h5" and o is not None:
                o.close()
    ctx.reach("done")


def harnesses(tier):
    out = []
    for fn in ("list", "lists", "groups"):
        out.append(Harness(f"parse-{fn}", lists, params={"fn": fn}, reach=["done", "refused"], weight=8,
                           bounds="any set of 5 files, 1-2 entries out of 9 names and patterns, nested lists"))
    out += [
        *(Harness(f"loading-{h}", loading, params={"how": h, "deep": tier == "thorough"}, reach=["done"], weight=6, bounds="0-2 (thorough 0-3) files in either order, 4 selections, HDF5 and zarr")
          for h in ("params", "setup", "pathtag")),
        Harness("selecting", selecting, reach=["done", "missing", "skipped"], weight=4, bounds="2 files, 3 inputs, 3 selections"),
        Harness("pipeline", pipeline, reach=["done", "saved"], weight=3, bounds="0-3 files through a pipeline of 4 tasks"),
        Harness("bases", bases, reach=["done"], weight=4, bounds="1-3 files or inputs, 3 destinations, groups in memory and on disk"),
    ]
    return out
