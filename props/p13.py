"""P13: every product reaches every consumer once, in order.

Task networks are run by the real Manager and Task code with symbolic base priorities: every
comparison the scheduler makes forks, so all orders which some assignment of priorities produces
are explored. Oracle: the streams which evaluating the tasks one after the other gives (the
network is deterministic). Decides fan-out, joins, requirements, stages with several products,
dropped products and products which are arrays.
"""

from vp.harness import Harness
from . import pipes
from .pipes import Spec, Token, ends

ASSUMPTIONS = [
    "networks of 2 to 4 tasks (thorough: 5) in which a key's producer is listed before its "
    "consumers; up to 3 products per stream; base priorities between -4 and 4",
    "a product for 'requires' is generated at most once",
]


def prios(ctx, specs, names):
    for i in names:
        specs[i].prio = ctx.int(f"prio{i}", -4, 4)


def run(ctx, specs, form="plain"):
    want = pipes.reference(specs)
    ctx.assume(want is not None)
    trace = []
    m, tasks = pipes.build(specs, trace, form)
    with ends(ctx):
        m.run()
    got = pipes.observed(trace, len(specs))
    for i, (g, w) in enumerate(zip(got, want)):
        ctx.check(g == w, "a task sees exactly its products, in order", task=i, got=g, want=w)
    ctx.check(all(t is None for t in m.tasks), "all tasks finish")
    ctx.reach("done")
    if any(len(c) > 3 for c in want):
        ctx.reach("stream")


def cnt(ctx, name, lo=0):
    return ctx.concretize(ctx.int(name, lo, ctx.params["items"]))


def flag(ctx, name):
    return bool(ctx.bool(name))


def chain(ctx):
    d = {ctx.concretize(ctx.int("drop", 0, 3))}
    full = ctx.params["full"]
    specs = [Spec(out="x", n=cnt(ctx, "n"), setup=full and flag(ctx, "s0")),
             Spec(ins=("x",), out="y", drop=d, finish=flag(ctx, "f1"),
                  setup=full and flag(ctx, "s1")),
             Spec(ins=("y",), out="z", finish=full and flag(ctx, "f2")),
             Spec(ins=("z",))][: ctx.params["len"]]
    prios(ctx, specs, range(len(specs)))
    run(ctx, specs, ctx.choose("form", ["plain", "tuple"]) if full else "plain")


def fan(ctx):
    specs = [Spec(out="x", n=cnt(ctx, "n"), finish=flag(ctx, "f0")),
             Spec(ins=("x",), out="a", setup=flag(ctx, "s1")),
             Spec(ins=("x",), out="b", drop={ctx.concretize(ctx.int("drop", 0, 2))}),
             Spec(ins=("a", "b"), out=None)]
    prios(ctx, specs, range(4))
    run(ctx, specs)


def join(ctx):
    specs = [Spec(out="a", n=cnt(ctx, "n0")), Spec(out="b", n=cnt(ctx, "n1")),
             Spec(ins=ctx.choose("order", [("a", "b"), ("b", "a"), ("a", "a"), ("b", "a", "b")]),
                  out="c", finish=flag(ctx, "f")),
             Spec(ins=("c",))]
    prios(ctx, specs, range(4))
    run(ctx, specs)


def requires(ctx):
    specs = [Spec(out="a", n=cnt(ctx, "n0"), setup=flag(ctx, "s0")),
             Spec(out="r", n=0, setup=flag(ctx, "s1"), finish=flag(ctx, "f1")),
             Spec(req=("r",), ins=("a",), out="c", setup=flag(ctx, "s2")),
             Spec(req=ctx.choose("rr", [("r",), ("r", "r"), ()]), ins=("c",), varargs=True)]
    prios(ctx, specs, range(4))
    run(ctx, specs)


def multi(ctx):
    full = ctx.params["full"]
    k2 = ctx.choose("k2", ["b", "_", "__", "b_"] if full else ["b", "_"])
    specs = [Spec(out=["a", k2], n=cnt(ctx, "n"), finish=flag(ctx, "f0"),
                  setup=full and flag(ctx, "s0")),
             Spec(ins=("a",), out=["c"]),
             Spec(ins=("a", k2) if "b" in k2 else ("a",)),
             Spec(ins=("c", "a"), out=["d", "e", "f"])]
    prios(ctx, specs, range(1, 4) if not ctx.params["full"] else range(4))
    run(ctx, specs, ctx.choose("form", ["list", "tuple"]))


def wiring(ctx):
    """Any wiring of three tasks behind a source."""
    specs = [Spec(out=["a", "b"], n=cnt(ctx, "n", 1), finish=flag(ctx, "f0"))]
    keys = ["a", "b"]
    for i in range(1, ctx.params["tasks"]):
        ins = [(k,) for k in keys] + [(x, y) for x in keys[-2:] for y in keys[-2:]]
        specs.append(Spec(ins=ctx.choose(f"in{i}", ins), out=f"k{i}",
                          finish=i == 1 and ctx.params["full"] and flag(ctx, "f1"),
                          varargs=i == 2))
        keys.append(f"k{i}")
    prios(ctx, specs, range(1 if ctx.params["full"] else max(1, len(specs) - 2), len(specs)))
    run(ctx, specs)


def products(ctx):
    """Products of any kind are passed on as the very same objects."""
    import numpy as np
    from caput.pipeline import Manager, Task, extensions

    kinds = {
        "array": np.arange(3.0), "arrays": [np.arange(3), np.arange(2)], "array0": np.array(1),
        "empty": np.array([]), "zero": 0, "false": False, "str": "text", "estr": "",
        "list": [1, 2], "elist": [], "dict": {"a": 1}, "token": Token("x"),
        "nan": float("nan"),
    }
    names = list(kinds)
    a = kinds[ctx.choose("a", names)]
    b = kinds[ctx.choose("b", names)]
    mode = ctx.choose("mode", ["new", "same", "pair"])

    class T(Task):
        def next(self, x, y):
            trace.append((x, y))
            return {"new": b, "same": x, "pair": (x, b)}[mode]

    trace = []
    m = Manager()
    m.add_task(extensions.Input([a, b]), out="x")
    m.add_task(extensions.Input([b, a]), out="y")
    m.add_task(T(), in_=["x", "y"], out=["p", "q"] if mode == "pair" else "p")
    o, p = extensions.Output(), extensions.Output()
    m.add_task(o, in_="p")
    if mode == "pair":
        m.add_task(p, in_="q")
    with ends(ctx):
        m.run()
    ctx.check([(id(x), id(y)) for x, y in trace] == [(id(a), id(b)), (id(b), id(a))],
              "the very same objects are passed on")
    want = {"new": [b, b], "same": [a, b], "pair": [a, b]}[mode]
    ctx.check([id(x) for x in o.outputs] == [id(x) for x in want], "products arrive unchanged",
              got=o.outputs, want=want)
    if mode == "pair":
        ctx.check([id(x) for x in p.outputs] == [id(b)] * 2, "second products arrive unchanged")
    ctx.reach("done")


def pattern(ctx):
    """Only keys which match the key pattern are passed on, however the pattern is set."""
    from caput.pipeline import Manager

    pats = [None, r"[^\W_]", "^keep", "a", r"^[^_]"]
    pat = ctx.choose("pat", pats)
    how = ctx.choose("how", ["config", "attr"])
    import re

    keys = ["keep_a", "_", "_a", "drop", "0"]
    specs = [Spec(out=list(keys), n=2)] + [Spec(ins=(k,)) for k in keys]
    trace = []
    m, tasks = pipes.build(specs, trace, "tuple")
    if pat is not None:
        if how == "config":
            m.read_config({"key_pattern": pat})
        else:
            m.key_pattern = pat
    with ends(ctx):
        m.run()
    rx = re.compile(pat or r"[^\W_]")
    got = pipes.observed(trace, len(specs))
    for i, k in enumerate(keys, 1):
        n = sum(1 for c in got[i] if c[0] == "next")
        ctx.check(n == (2 if rx.search(k) else 0), "keys pass exactly if they match the pattern",
                  key=k, pattern=pat, got=n)
    ctx.reach("done")


def counts(ctx):
    """A stage which returns the wrong number of products is an error, never a lost product."""
    from caput.pipeline import Manager, Task, exceptions, extensions

    keys = ctx.choose("keys", ["a", ["a"], ["a", "b"], ["a", "b", "c"]])
    n = ctx.concretize(ctx.int("n", 0, 4))
    kind = tuple if keys == "a" else ctx.choose("kind", [list, tuple])
    stage = ctx.choose("stage", ["setup", "next", "finish"])
    toks = kind(Token(i) for i in range(n))

    class T(Task):
        k = 0

        def setup(self):
            return toks if stage == "setup" else None

        def next(self):
            self.k += 1
            if stage == "next" and self.k == 1:
                return toks
            return super().next()

        def finish(self):
            return toks if stage == "finish" else None

    m = Manager()
    m.add_task(T(), out=keys)
    outs = []
    for k in keys:
        outs.append(extensions.Output())
        m.add_task(outs[-1], in_=k)
    try:
        with ends(ctx):
            m.run()
    except exceptions.PipelineRuntimeError:
        ctx.check(n != len(keys), "the right number of products is accepted")
        ctx.reach("refused")
        return
    ctx.check(n == len(keys), "a wrong number of products is refused", n=n, keys=keys)
    ctx.check([o.outputs for o in outs] == [[t] for t in toks], "products go to their keys")
    ctx.reach("done")


def harnesses(tier):
    big = tier == "thorough"
    it = 3 if big else 2
    hs = []

    def add(name, f, reach=("done",), w=3, **p):
        p.setdefault("items", it)
        hs.append(Harness(name, f, reach=list(reach), params=p, weight=w,
                          bounds=f"up to {p['items']} products, priorities in [-4, 4]"))

    add("chain3", chain, len=3, items=2, full=True)
    add("chain3_3", chain, len=3, items=3, full=False)
    add("chain4", chain, len=4, w=6, items=2, full=False)
    add("fan", fan, w=5, items=2)
    add("join", join, w=5, items=2)
    add("requires", requires, w=4, items=2)
    add("multi", multi, w=4, items=2, full=False)
    add("wiring3", wiring, tasks=3, items=2, full=False)
    add("wiring4", wiring, tasks=4, w=8, items=1, full=False)
    if big:
        add("chain4_3", chain, len=4, w=20, items=3, full=True)
        add("fan_3", fan, w=9, items=3)
        add("join_3", join, w=9, items=3)
        add("multi_3", multi, w=9, items=3, full=True)
        add("wiring4_2", wiring, tasks=4, w=20, items=2, full=False)
        add("wiring4_p", wiring, tasks=4, w=20, items=1, full=True)
    add("products", products)
    add("pattern", pattern)
    add("counts", counts, reach=("done", "refused"))
    return hs
