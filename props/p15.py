"""P15: a pipeline configuration is accepted exactly if it is consistent.

Manager.from_yaml_str is executed on configurations whose structure (keys, key lists, parameter
groups, signatures, defects) is chosen by symbolic variables; oracle: the documented rules of the
configuration file. Nothing may run while the configuration is read, and a refusal is always a
CaputConfigError.
"""

import yaml

from vp.harness import Harness

ASSUMPTIONS = [
    "pipelines of up to 3 tasks; the YAML text itself is well formed",
    "signatures with up to 2 arguments, 2 defaults and variable arguments; up to 4 keys",
]


def load(ctx, doc, classes, errs=None):
    """Read a configuration; returns the manager or None when it is refused."""
    from caput.config import CaputConfigError
    from caput.pipeline import Manager, local_tasks

    old = dict(local_tasks)
    local_tasks.update(classes)
    try:
        text = doc if isinstance(doc, str) else yaml.safe_dump(doc, sort_keys=False)
        m = Manager.from_yaml_str(text)
    except CaputConfigError as e:
        str(e)
        if errs is not None:
            errs.append((e, text))
        ctx.reach("refused")
        return None
    finally:
        local_tasks.clear()
        local_tasks.update(old)
    ctx.reach("accepted")
    return m


def task(calls, setup=None, nxt=None, **props):
    from caput.pipeline import Task

    d = dict(setup=setup or (lambda self, *a: calls.append("setup")),
             next=nxt or (lambda self, *a: calls.append("next")),
             finish=lambda self: calls.append("finish"), **props)
    return type("T", (Task,), d)


def aslist(v):
    return [] if v is None else list(v) if isinstance(v, list) else [v]


def keys(ctx):
    """Products: every consumed key is produced, by exactly one task."""
    calls = []
    T = task(calls)
    outs, used, specs = [], [], []
    for i in range(ctx.params["tasks"]):
        s = {"type": "T"}
        o = ctx.choose(f"out{i}", [None, "a", "b", ["a", "b"], ["b"], ["a", "a"]])
        n = ctx.choose(f"in{i}", [None, "a", ["b", "a"], "zz", ["a", "zz"]])
        r = ctx.choose(f"req{i}", [None, "b", "zz"]) if i else None
        for k, v in (("out", o), ("in", n), ("requires", r)):
            if v is not None:
                s[k] = v
        outs += aslist(o)
        used += aslist(n) + aslist(r)
        specs.append((s, o, n, r))
    ok = len(set(outs)) == len(outs) and set(used) <= set(outs)
    m = load(ctx, {"pipeline": {"tasks": [s for s, *_ in specs]}}, {"T": T})
    ctx.check((m is not None) == ok, "accepted exactly if every key has one producer",
              accepted=m is not None, outs=outs, used=used)
    ctx.check(not calls, "nothing runs while the configuration is read")
    if m is not None:
        ctx.check(len(m.tasks) == len(specs), "one task per entry")
        for t, (s, o, n, r) in zip(m.tasks, specs):
            ctx.check([list(t._in_keys), list(t._out_keys), list(t._requires_keys)]
                      == [aslist(n), aslist(o), aslist(r)], "tasks get their keys")


def signature(ctx):
    """The number of keys has to fit the arguments of the stage."""
    which = ctx.choose("which", ["setup", "next"])
    a = ctx.concretize(ctx.int("args", 0, 2))
    d = ctx.concretize(ctx.int("defaults", 0, 2))
    v = bool(ctx.bool("var"))
    k = ctx.concretize(ctx.int("keys", 0, 4))
    other = ctx.concretize(ctx.int("other", 0, 1))
    names = [f"a{i}" for i in range(a)] + [f"d{i}=None" for i in range(d)] + ["*r"] * v
    calls = []
    ns = {"calls": calls}
    exec(f"def f(self, {', '.join(names)}): calls.append(1)".replace("self, )", "self)"), ns)
    # the other stage takes exactly one argument
    one = lambda self, x: calls.append(1)  # noqa: E731
    T = task(calls, **({"setup": ns["f"], "nxt": one} if which == "setup"
                       else {"setup": one, "nxt": ns["f"]}))
    P = task(calls)
    ks = [f"k{i}" for i in range(k)]
    me = {"type": "T"}
    me["requires" if which == "setup" else "in"] = ks[0] if k == 1 else ks
    if other:
        me["in" if which == "setup" else "requires"] = "o"
    m = load(ctx, {"pipeline": {"tasks": [{"type": "P", "out": ks + ["o"]}, me]}},
             {"T": T, "P": P})
    ok = a <= k and (v or k <= a + d) and other == 1
    ctx.check((m is not None) == ok, "accepted exactly if the keys fit the arguments",
              accepted=m is not None, args=names, keys=k, other=other)
    ctx.check(not calls, "nothing runs while the configuration is read")


DEFECTS = {
    "none": True, "extra_key": False, "no_type": False, "bad_local": False, "bad_module": False,
    "bad_attr": False, "group_missing": False, "unknown_param": False, "bad_value": False,
    "type_error": False, "refused_value": False, "key_not_str": False, "key_none": False,
    "init_error": False, "validate_error": False, "no_type_no_out": False,
}


def defects(ctx):
    """One defect in one of three tasks."""
    from caput import config

    d = ctx.choose("defect", list(DEFECTS))
    at = ctx.concretize(ctx.int("at", 0, 2))
    calls = []
    bad = {}

    def init(self):
        if d == "init_error" and self.me == at:
            raise config.CaputConfigError("init")

    def validate(self):
        if d == "validate_error" and self.me == at:
            raise config.CaputConfigError("validate")

    T = task(calls, me=config.Property(proptype=int, default=0),
             num=config.Property(proptype=int, default=1),
             seq=config.Property(proptype=list, default=[]),
             en=config.enum(["p", "q"], default="p"),
             __init__=init, validate=validate)
    specs = []
    for i in range(3):
        s = {"type": "T", "params": {"me": i, "num": 3}, "out": f"k{i}"}
        if i:
            s["in"] = f"k{i - 1}"
        specs.append(s)
    s = specs[at]
    if d == "extra_key":
        s["inn"] = "k0"
    elif d == "no_type":
        del s["type"]
    elif d == "no_type_no_out":
        del s["type"]
        s["in"] = "zz"
    elif d == "bad_local":
        s["type"] = "Nope"
    elif d == "bad_module":
        s["type"] = "no.such.module.Task"
    elif d == "bad_attr":
        s["type"] = "caput.pipeline.NoSuchTask"
    elif d == "group_missing":
        s["params"] = "nogroup"
    elif d == "unknown_param":
        s["params"]["nmu"] = 3
    elif d == "bad_value":
        s["params"]["num"] = "many"
    elif d == "type_error":
        s["params"]["seq"] = 5
    elif d == "refused_value":
        s["params"]["en"] = "r"
    elif d == "key_not_str":
        specs[at]["out"] = [f"k{at}", 5]
    elif d == "key_none":
        specs[at]["out"] = [f"k{at}", None]
    errs = []
    m = load(ctx, {"pipeline": {"tasks": specs}}, {"T": T}, errs)
    ctx.check((m is not None) == DEFECTS[d], "a defective configuration is refused",
              defect=d, at=at, accepted=m is not None)
    if errs and errs[0][0].line is not None:
        # pipeline -> tasks -> entries
        entries = yaml.compose(errs[0][1]).value[0][1].value[0][1].value
        first, last = entries[at].start_mark.line + 1, entries[at].end_mark.line + 1
        ctx.check(first <= errs[0][0].line <= last, "the error points at the defective task",
                  line=errs[0][0].line, first=first, last=last)
        ctx.reach("located")
    ctx.check(not calls, "nothing runs while the configuration is read")


TOP = {
    "ok": ("pipeline:\n  tasks: []\n", True),
    "ok_none": ("pipeline: {}\nother: 3\n", True),
    "missing": ("pipes:\n  tasks: []\n", False),
    "empty": ("", False),
    "scalar": ("text", False),
    "list": ("- 1\n- 2\n", False),
    "notdict": ("pipeline: [1, 2]\n", False),
    "null": ("pipeline:\n", False),
    "tasks_int": ("pipeline:\n  tasks: 5\n", False),
    "versions_bad": ("pipeline:\n  tasks: []\n  save_versions: [no_such_module]\n", False),
    "versions_int": ("pipeline:\n  tasks: []\n  save_versions: 5\n", False),
    "versions_ints": ("pipeline:\n  tasks: []\n  save_versions: [5]\n", False),
    "versions_ok": ("pipeline:\n  tasks: []\n  save_versions: [numpy]\n", True),
    "versions_str": ("pipeline:\n  tasks: []\n  save_versions: numpy\n", True),
    "log_bad": ("pipeline:\n  tasks: []\n  logging: 5\n", False),
    "log_level": ("pipeline:\n  tasks: []\n  logging: loud\n", False),
    "log_ok": ("pipeline:\n  tasks: []\n  logging: {root: debug, 'p15.x': error}\n", True),
}


def top(ctx):
    """The outer structure of the document."""
    import logging

    k = ctx.choose("doc", list(TOP))
    text, ok = TOP[k]
    root = logging.getLogger()
    level = root.level
    try:
        m = load(ctx, text, {})
        ctx.check((m is not None) == ok, "accepted exactly if the document is well formed", doc=k,
                  accepted=m is not None)
        if k == "log_ok":
            ctx.check(root.level == logging.DEBUG
                      and logging.getLogger("p15.x").level == logging.ERROR, "log levels are set")
    finally:
        root.setLevel(level)
    if k.startswith("versions") and ok:
        import numpy

        ctx.check(m.versions == {"numpy": numpy.__version__}, "versions are recorded",
                  got=m.versions)


def params(ctx):
    """Tasks get exactly the parameters of their groups, later groups override earlier ones."""
    from caput import config

    calls = []
    T = task(calls, p=config.Property(proptype=int, default=-1),
             q=config.Property(proptype=int, default=-2),
             d=config.Property(proptype=dict, default={}),
             versions=config.Property(proptype=dict, default={}),
             pipeline_config=config.Property(proptype=dict, default={}))
    groups = {"g1": {"p": 1, "d": {"x": [1]}}, "g2": {"q": 2, "p": 5}, "g3": {}}
    save = ctx.choose("save", [None, True, False])
    doc = {"pipeline": {"tasks": [], "save_versions": ["numpy"]}, **groups}
    if save is not None:
        doc["pipeline"]["save_config"] = save
    want = []
    for i in range(ctx.params["tasks"]):
        n = ctx.concretize(ctx.int(f"n{i}", 0, 2))
        gs = [ctx.choose(f"g{i}{j}", ["g1", "g2", "g3"]) for j in range(n)]
        how = ctx.choose(f"how{i}", ["list", "inline"] + (["one"] if n == 1 else []))
        eff = {}
        for g in gs:
            eff.update(groups[g])
        s = {"type": "T"}
        if how == "inline":
            s["params"] = dict(eff)
        elif how == "one":
            s["params"] = gs[0]
        else:
            s["params"] = gs
        doc["pipeline"]["tasks"].append(s)
        want.append(eff)
    m = load(ctx, doc, {"T": T})
    ctx.check(m is not None, "accepted")
    import numpy

    for t, w in zip(m.tasks, want):
        ctx.check((t.p, t.q, t.d) == (w.get("p", -1), w.get("q", -2), w.get("d", {})),
                  "a task has exactly the parameters of its groups",
                  got=(t.p, t.q, t.d), want=w)
        ctx.check(t.versions == {"numpy": numpy.__version__}, "versions are passed on")
        if save is not False:
            ctx.check(t.pipeline_config == doc, "the configuration is passed on",
                      got=t.pipeline_config)
        else:
            ctx.check(not t.pipeline_config, "the configuration is not passed on")
    if len(m.tasks) > 1 and save is not False:
        m.tasks[0].pipeline_config["pipeline"]["mut"] = 1
        m.tasks[0].versions["mut"] = 1
        ctx.check("mut" not in m.tasks[1].pipeline_config["pipeline"]
                  and "mut" not in m.tasks[1].versions, "tasks do not share their metadata")
    ctx.check(not calls, "nothing runs while the configuration is read")


def harnesses(tier):
    big = tier == "thorough"
    ra = ["refused", "accepted"]
    return [
        Harness("keys2", keys, reach=ra, params=dict(tasks=2), weight=3,
                bounds="2 tasks, all listed key lists"),
        *([Harness("keys3", keys, reach=ra, params=dict(tasks=3), weight=20,
                   bounds="3 tasks, all listed key lists")] if big else []),
        Harness("signature", signature, reach=ra, weight=2,
                bounds="up to 2 arguments, 2 defaults, variable arguments, up to 4 keys"),
        Harness("defects", defects, reach=ra + ["located"], bounds=f"3 tasks, one of {list(DEFECTS)}"),
        Harness("top", top, reach=ra, bounds=f"documents: {list(TOP)}"),
        Harness("params", params, reach=["accepted"], params=dict(tasks=2), weight=3,
                bounds="2 tasks, up to 2 groups each, listed or inline"),
    ]
