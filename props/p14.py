"""P14: every task goes through its stages once, in order, and the pipeline terminates.

The networks of P13 with tasks that stop early, limit their outputs, never receive a requirement
or fail. Base priorities are symbolic, so the scheduler's choices fork; at every stage the choice
is compared with the documented rule by an assertion over the symbolic priorities.
"""

from vp.harness import Harness
from . import pipes
from .p13 import cnt, flag, prios
from .pipes import Spec, ends

ASSUMPTIONS = [
    "networks of 2 to 4 tasks in which a key's producer is listed before its consumers; up to 3 "
    "products per stream; base priorities between -4 and 4; output limits of at least one",
    "a product for 'requires' is generated at most once",
    "execution order among tasks of equal priority is not part of the claim",
]


class Model:
    """What the documentation says about the choice of the next task."""

    def __init__(self, ctx, specs):
        self.ctx, self.specs = ctx, specs
        self.state = ["setup"] * len(specs)
        self.q = [[0] * len(s.ins) for s in specs]
        self.got = [[False] * len(s.req) for s in specs]
        self.calls = [0] * len(specs)
        self.outs = [0] * len(specs)

    def available(self, i):
        if self.state[i] == "setup":
            return all(self.got[i])
        if self.state[i] == "next":
            return bool(self.q[i]) and min(self.q[i]) > 0
        return self.state[i] == "finish"

    def priority(self, i):
        s = self.specs[i]
        if self.state[i] == "setup":
            d = 1
        elif self.state[i] == "next":
            d = (len(s.ins) - len(s.outkeys)) * min(self.q[i], default=1)
        else:
            d = 10**10
        return d + s.prio

    def deliver(self, i):
        s = self.specs[i]
        for k in s.outkeys:
            for j, t in enumerate(self.specs):
                for n, kk in enumerate(t.ins):
                    if kk == k and self.state[j] in ("setup", "next"):
                        self.q[j][n] += 1
                for n, kk in enumerate(t.req):
                    if kk == k:
                        self.got[j][n] = True

    def event(self, m, tasks, i, stage):
        ctx, s = self.ctx, self.specs[i]
        avail = [j for j in range(len(self.specs)) if self.available(j)]
        head = next(j for j, x in enumerate(self.state) if x != "done")
        if self.state[i] != stage:
            ctx.check(stage == "finish" and not avail and i == head,
                      "a task only gives up waiting when nothing can provide its input",
                      task=i, state=self.state[i], stage=stage, available=avail)
            self.state[i] = "finish"
            ctx.reach("gave up")
        elif avail:
            ctx.check(i in avail, "a task that can run is preferred", task=i, available=avail)
            for j in avail:
                if j != i:
                    a, b = self.priority(i), self.priority(j)
                    ctx.check(ctx.Or(a > b, ctx.And(a == b, s.prio >= self.specs[j].prio)),
                              "the task of highest priority runs", ran=i, other=j)
                    ctx.reach("choice")
        else:
            ctx.check(i == head, "otherwise the first unfinished task runs", task=i)
        # what the stage does
        if stage == "setup":
            self.state[i] = "next"
            if s.setup:
                self.deliver(i)
        elif stage == "next":
            j = self.calls[i]
            self.calls[i] += 1
            self.q[i] = [n - 1 for n in self.q[i]]
            if s.n is not None and j >= s.n:
                self.state[i] = "finish"
            elif j not in s.drop:
                self.outs[i] += 1
                if s.limit is not None and self.outs[i] >= s.limit:
                    self.state[i] = "finish"
                self.deliver(i)
        else:
            self.state[i] = "done"
            if s.finish:
                self.deliver(i)


def run(ctx, specs, form="plain"):
    want = pipes.reference(specs)
    ctx.assume(want is not None)
    trace = []
    model = Model(ctx, specs)
    m, tasks = pipes.build(specs, trace, form, before=model.event)
    inter = ctx.params.get("inter") and bool(ctx.bool("inter"))
    fails = [s.fail for s in specs if s.fail]
    steps = None
    try:
        if inter:
            m.interactive = True
            steps = [0]
            with ends(ctx):
                for _ in m.runner():
                    steps.append(len(trace))
            steps.append(len(trace))
        else:
            with ends(ctx):
                m.run()
        raised = None
    except pipes.Boom as e:
        raised = e
    got = pipes.observed(trace, len(specs))
    if fails:
        i = next(k for k, s in enumerate(specs) if s.fail)
        hit = any(c[0] == specs[i].fail[0] and
                  (c[0] != "next" or n == specs[i].fail[1])
                  for st in ("setup", "next", "finish")
                  for n, c in enumerate([c for c in want[i] if c[0] == st]))
        ctx.check((raised is not None) == hit, "an exception in a task stops the pipeline",
                  got=repr(raised), want=hit)
        if hit:
            ctx.check(trace[-1][:2] == (i, specs[i].fail[0]),
                      "nothing runs after a task failed", trace=trace[-3:])
            for g, w in zip(got, want):
                ctx.check(g == w[:len(g)], "stages before the failure are unaffected")
            ctx.reach("failed")
            return
    else:
        ctx.check(raised is None, "no exception")
    for i, (g, w) in enumerate(zip(got, want)):
        ctx.check(g == w, "a task goes through its stages once and in order", task=i, got=g,
                  want=w)
    ctx.check(all(t is None for t in m.tasks), "all tasks are finished and released")
    if steps:
        ctx.check(all(0 <= b - a <= 1 for a, b in zip(steps, steps[1:])),
                  "interactive mode stops before every stage", steps=steps)
        ctx.reach("interactive")
    ctx.reach("done")


def opt(ctx, name, lo, hi):
    """None or a number."""
    v = ctx.concretize(ctx.int(name, lo - 1, hi))
    return None if v == lo - 1 else v


def stops(ctx):
    """Tasks which stop by themselves or by a limit while their producers go on."""
    hi = ctx.params["items"]
    specs = [Spec(out="x", n=cnt(ctx, "n"), limit=opt(ctx, "l0", 1, 2), finish=flag(ctx, "f0")),
             Spec(ins=("x",), out="y", n=opt(ctx, "n1", 0, hi), limit=opt(ctx, "l1", 1, hi),
                  finish=flag(ctx, "f1")),
             Spec(ins=("y",), n=opt(ctx, "n2", 0, 1))][: ctx.params["len"]]
    prios(ctx, specs, range(len(specs)))
    run(ctx, specs)


def limits(ctx):
    """Limited numbers of outputs with iterations that give nothing."""
    n = ctx.concretize(ctx.int("n", 1, ctx.params["items"]))
    d0 = {j for j in range(min(n, 3)) if bool(ctx.bool(f"d0{j}"))}
    d1 = {j for j in range(min(n, 2)) if bool(ctx.bool(f"d1{j}"))}
    specs = [Spec(out="x", n=n, drop=d0, limit=opt(ctx, "l0", 1, 2)),
             Spec(ins=("x",), out="y", drop=d1, limit=opt(ctx, "l1", 1, 2)),
             Spec(ins=("y",))]
    run(ctx, specs)


def waits(ctx):
    """Requirements and inputs which never arrive."""
    specs = [Spec(out="r", n=0, setup=flag(ctx, "s0"), finish=flag(ctx, "f0")),
             Spec(out="x", n=cnt(ctx, "n")),
             Spec(req=("r",), ins=("x",), out="y", setup=flag(ctx, "s2"), finish=flag(ctx, "f2")),
             Spec(ins=("y",), req=ctx.choose("rr", [(), ("r",)]))]
    prios(ctx, specs, range(4))
    run(ctx, specs)


def fails(ctx):
    hi = ctx.params["items"]
    st = ctx.choose("stage", ["setup", "next", "finish"])
    j = ctx.concretize(ctx.int("call", 0, hi)) if st == "next" else 0
    k = ctx.concretize(ctx.int("who", 0, 2))
    specs = [Spec(out="x", n=cnt(ctx, "n")), Spec(ins=("x",), out="y"), Spec(ins=("y", "x"))]
    specs[k].fail = (st, j)
    prios(ctx, specs, range(3))
    run(ctx, specs)


def choice(ctx):
    """The scheduler's choice with several tasks able to run."""
    wire = ctx.choose("wire", [
        [("x",), ("x",), ("x",)], [("x",), ("x",), ("y", "z")], [("x", "x"), ("x",), ("z",)],
    ])
    outs = [["y"], ["z", "w"], None]
    specs = [Spec(out="x", n=cnt(ctx, "n", 1), setup=flag(ctx, "s0"))]
    specs += [Spec(ins=i, out=o) for i, o in zip(wire, outs)]
    prios(ctx, specs, range(4))
    run(ctx, specs, "tuple")


def harnesses(tier):
    big = tier == "thorough"
    hs = []

    def add(name, f, reach=("done",), w=3, **p):
        hs.append(Harness(name, f, reach=list(reach), params=p, weight=w,
                          bounds=f"up to {p['items']} products, priorities in [-4, 4]"))

    add("stops2", stops, items=2, len=2, inter=True, reach=("done", "interactive"))
    add("stops3", stops, items=2 if big else 1, len=3, w=6)
    add("limits", limits, items=5 if big else 4)
    add("waits", waits, items=2 if big else 1, w=4, reach=("done", "gave up"), inter=True)
    add("fails", fails, items=2 if big else 1, reach=("done", "failed"), w=4)
    add("choice", choice, items=2 if big else 1, reach=("done", "choice"), w=5)
    if big:
        add("stops2_3", stops, items=3, len=2, w=5)
    return hs
