"""P27: flow tasks deliver every product once, in order, grouped and copied as documented.

Pipelines are put together from the real flow tasks by symbolic choices (which tasks, in which
order, group sizes, numbers of inputs, which products are containers) and run to their end by the
real Manager. A reference on plain lists says what arrives: nothing lost, repeated or reordered,
groups complete, copies equal to but independent of the originals, and nothing forwarded before
what is waited for is there.
"""

import os
import shutil
import tempfile
import warnings

import numpy as np

from vp.harness import Harness

ASSUMPTIONS = [
    "up to 5 inputs, chains of up to 3 tasks, group sizes 1..3; inputs which arrive together come in equal numbers",
    "an incomplete last group is dropped, as the code documents",
]


def quiet():
    import logging

    warnings.simplefilter("ignore")
    logging.disable(logging.CRITICAL)


def box(i, dist=False):
    from caput.containers import Container

    c = Container(distributed=dist)
    if dist:
        d = c.create_dataset("x", shape=(3,), dtype=float, distributed=True, distributed_axis=0)
        d.local_data[:] = np.arange(3.0)[d.local_offset[0]:d.local_offset[0] + d.local_shape[0]] + i
    else:
        c.create_dataset("x", data=np.arange(3.0) + i)
    c.create_index_map("t", np.arange(2) + i)
    c.attrs["n"] = i
    c.attrs["deep"] = {"l": [i, [i]]}
    c["x"].attrs["u"] = [i]
    return c


def state(x):
    from caput.memdata import MemDiskGroup

    if isinstance(x, MemDiskGroup):
        import copy

        v = x["x"][:]
        v = np.asarray(v.local_array if hasattr(v, "local_array") else v)
        return ("box", type(x).__name__, v.tolist(), x["x"].distributed, x.index_map["t"].tolist(), copy.deepcopy(dict(x.attrs)),
                copy.deepcopy(dict(x["x"].attrs)))
    if isinstance(x, list):
        return [state(y) for y in x]
    if isinstance(x, np.ndarray):
        return ("array", x.tolist())
    return x


def spoil(x):
    from caput.memdata import MemDiskGroup

    if isinstance(x, MemDiskGroup):
        x["x"][:] = -1.0
        x.attrs["deep"]["l"][1].append("spoilt")
        x.attrs["n"] = "spoilt"
        x["x"].attrs["u"].append("spoilt")
        x.index_map["t"][:] = 0
    elif isinstance(x, list):
        for y in x:
            spoil(y)
        x.append("spoilt")
    elif isinstance(x, np.ndarray):
        x[:] = -1


KINDS = ["int", "list", "array", "box", "dist"]


def product(kind, i):
    if kind == "int":
        return i
    if kind == "list":
        return [i, [i]]
    if kind == "array":
        return np.array([i, i + 1])
    return box(i, kind == "dist")


STAGES = ["PassOn", "MakeCopy", "Acc", "Acc1", "Acc2", "Acc3", "Gather", "Print"]


def chain(ctx):
    import contextlib
    import io

    from caput.pipeline import Manager, extensions
    from caput.pipeline.tasklib import debug, flow

    quiet()
    n = ctx.concretize(ctx.int("n", 0, ctx.params["n"]))
    kind = ctx.choose("kind", KINDS)
    m = Manager()
    items = [product(kind, i) for i in range(n)]
    m.add_task(extensions.Input(list(items)), out="p0")
    want = [(state(x), x) for x in items]  # the state, and the object itself where it must be the same
    cur = items
    names = [ctx.choose(f"s{i}", STAGES) for i in range(ctx.params["k"])]
    copied = False
    for i, s in enumerate(names):
        if s == "PassOn":
            t = flow.PassOn()
        elif s == "Print":
            t = debug.Print()
        elif s == "MakeCopy":
            t = flow.MakeCopy()
            copied = True
            want = [(w, None) for w, _ in want]
        elif s == "Gather":
            t = flow.GatherInputs()
            want = [([w], None) for w, _ in want]
        else:
            g = int(s[3:]) if s[3:] else None
            t = flow.AccumulateList._from_config({} if g is None else {"group_size": g})
            if g is None:
                want = [([w for w, _ in want], None)]
            else:
                want = [([w for w, _ in want[j:j + g]], None) for j in range(0, len(want) - g + 1, g)]
        m.add_task(t, in_=f"p{i}", out=f"p{i + 1}")
    got = []
    m.add_task(extensions.Output(lambda x: got.append(x) or state(x)), in_=f"p{len(names)}")
    before = [state(x) for x in cur]
    with contextlib.redirect_stdout(io.StringIO()):
        m.run()
    ctx.check(len(got) == len(want), "not every product arrived once", stages=names, n=n, got=len(got), want=len(want))
    for j, (x, (w, obj)) in enumerate(zip(got, want)):
        ctx.check(state(x) == w, "a product is wrong, or out of order", stages=names, at=j, got=repr(state(x))[:200], want=repr(w)[:200])
        if obj is not None:
            ctx.check(x is obj, "another object was passed on", stages=names)
    if copied:
        for x in got:
            spoil(x)
        ctx.check([state(x) for x in items] == before, "the copy is not independent of the original", stages=names, kind=kind)
        ctx.reach("copied")
    ctx.reach("done")


def joins(ctx):
    """Tasks with several inputs or requirements, and products which are thrown away."""
    from caput.pipeline import Manager, Task, extensions
    from caput.pipeline.tasklib import flow

    quiet()
    n = ctx.concretize(ctx.int("n", 0, ctx.params["n"]))
    what = ctx.choose("what", ["gather2", "gather3", "wait", "wait-late", "delete", "both", "callback"])
    m = Manager()
    xs, ys = [100 + i for i in range(n)], [200 + i for i in range(n)]
    order = bool(ctx.bool("order"))
    pri = [ctx.concretize(ctx.int(f"pri{i}", -1, 1)) for i in range(2)]
    got, log = [], []
    a, b = extensions.Input(list(xs)), extensions.Input([7] if what == "wait" else list(ys))
    a.base_priority, b.base_priority = 1000 * pri[0], 1000 * pri[1]
    adds = [lambda: m.add_task(a, out="x"), lambda: m.add_task(b, out="y")]
    for f in adds[:: -1 if order else 1]:
        f()
    if what in ("gather2", "gather3"):
        keys = ["x", "y"] if what == "gather2" else ["x", "y", "x"]
        m.add_task(flow.GatherInputs(), in_=keys, out="z")
        m.add_task(extensions.Output(got.append), in_="z")
        want = [[{"x": x, "y": y}[k] for k in keys] for x, y in zip(xs, ys)]
    elif what in ("wait", "wait-late"):

        class Note(Task):
            def next(self, x):
                log.append("note")
                return x

        if what == "wait":
            m.add_task(Note(), in_="y", out="need")
        else:
            m.add_task(flow.AccumulateList(), in_="y", out="list")
            m.add_task(Note(), in_="list", out="need")
        m.add_task(flow.WaitUntil(), requires="need", in_="x", out="z")
        m.add_task(extensions.Output(lambda x: (log.append("x"), got.append(x))), in_="z")
        want = xs
    elif what == "delete":
        m.add_task(flow.Delete(), in_="x")
        m.add_task(extensions.Output(got.append), in_="y")
        want = ys
    elif what == "both":
        m.add_task(flow.MakeCopy(), in_="x", out="z")
        m.add_task(extensions.Output(got.append), in_="x")
        m.add_task(extensions.Output(lambda x: log.append(x)), in_="z")
        want = xs
    else:
        o = extensions.Output(lambda x: -x)
        p = extensions.Output()
        m.add_task(o, in_="x")
        m.add_task(p, in_="x")
        want = xs
    m.run()
    if what == "callback":
        ctx.check(o.outputs == [-x for x in xs] and p.outputs == xs, "not every product was collected", got=o.outputs, other=p.outputs)
    else:
        ctx.check(got == want, "products were lost, repeated or reordered", what=what, got=got, want=want)
    if what == "both":
        ctx.check(log == xs, "the other consumer did not get every product", got=log, want=xs)
    if what.startswith("wait") and n:
        ctx.check(log[:1] == ["note"], "a product was forwarded before what it waits for", log=log)
    ctx.reach(what)


def counts(ctx):
    """The accumulating task by itself: groups and what is left at the end."""
    from caput.pipeline.tasklib import flow

    quiet()
    g = ctx.choose("group", [None, 1, 2, 3, 4])
    n = ctx.concretize(ctx.int("n", 0, 2 * ctx.params["n"]))
    other = flow.AccumulateList._from_config({"group_size": g} if g else {})
    t = flow.AccumulateList._from_config({"group_size": g} if g else {})
    got = []
    for i in range(n):
        ctx.check(other.next(("other", i)) is None or g is not None, "a group came too early")
        o = t.next(i)
        if o is not None:
            ctx.check(g is not None and o == list(range(i + 1 - g, i + 1)), "a wrong group", got=o)
            got.append(o)
    ctx.check([list(x) for x in got] == [list(range(j, j + g)) for j in range(0, n - g + 1, g)] if g else not got,
              "groups were modified or lost", got=got)
    f = t.finish()
    ctx.check(f == list(range(n)) if g is None else f is None, "wrong products at the end", got=f)
    ctx.reach("done")


def records(ctx):
    """Versions and configuration written to files."""
    import yaml

    from caput.pipeline import Manager
    from caput.pipeline.tasklib import debug  # noqa: F401

    quiet()
    old = os.getcwd()
    d = tempfile.mkdtemp(prefix="p27-", dir=os.environ.get("VP_SCRATCH") or None)
    os.chdir(d)
    try:
        which = ctx.choose("which", ["versions", "config"])
        vers = ctx.choose("versions", [[], ["numpy"], ["numpy", "h5py"]])
        save = bool(ctx.bool("config"))
        text = f"""
pipeline:
  save_versions: {vers}
  save_config: {str(save).lower()}
  tasks:
    - type: caput.pipeline.tasklib.debug.{"SaveModuleVersions" if which == "versions" else "SaveConfig"}
      params: {{root: {d}/r}}
"""
        m = Manager.from_yaml_str(text)
        m.run()
        f = f"{d}/r_{which}.yml"
        ctx.check(os.listdir(d) == [os.path.basename(f)], "other files were written", got=os.listdir(d))
        with open(f) as fh:
            got = yaml.safe_load(fh)
        if which == "versions":
            import importlib.metadata as im

            ctx.check(got == {v: im.version(v) for v in vers}, "wrong versions", got=got)
        else:
            want = yaml.safe_load(text) if save else {}
            ctx.check(got == want, "wrong configuration", got=got, want=want)
    finally:
        os.chdir(old)
        shutil.rmtree(d, ignore_errors=True)
    ctx.reach("done")


def harnesses(tier):
    q = tier == "quick"
    n = 4 if q else 6
    return [
        Harness("chain-1", chain, params={"n": n, "k": 1}, reach=["done", "copied"], weight=2,
                bounds=f"0-{n} products of 5 kinds through one of 8 tasks"),
        Harness("chain-2", chain, params={"n": n, "k": 2}, reach=["done", "copied"], weight=6,
                bounds=f"0-{n} products of 5 kinds through two tasks"),
        Harness("chain-3", chain, params={"n": 2 if q else 4, "k": 3}, reach=["done", "copied"], weight=20,
                bounds=f"0-{2 if q else 4} products of 5 kinds through three tasks"),
        Harness("joins", joins, params={"n": 3 if q else 4}, reach=["gather2", "gather3", "wait", "wait-late", "delete", "both", "callback"],
                weight=3, bounds=f"0-{3 if q else 4} products, two sources, 3 priorities each, 7 joins"),
        Harness("counts", counts, params={"n": n}, reach=["done"], weight=1, bounds=f"0-{2 * n} inputs, 5 group sizes"),
        Harness("records", records, reach=["done"], weight=1, bounds="3 lists of modules, with and without configuration"),
    ]
