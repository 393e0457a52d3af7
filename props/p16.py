"""P16: configured attributes hold the converted value given, else the default.

Property, Reader and the property constructors of caput.config are executed with symbolic values,
bounds, lengths and class hierarchies; oracle: the documented rules. In `range` the value and the
bounds are solver reals (the module's `float` is the identity on them), so all values are covered.
"""

import contextlib
import math

from vp.harness import Harness

ASSUMPTIONS = [
    "class hierarchies of up to 3 classes with up to 3 properties",
    "range: multiples of 1/2 within +-10^6, NaN and infinities; lists of up to 4 elements",
]


def refused(ctx, f, *a, **k):
    from caput.config import CaputConfigError

    try:
        v = f(*a, **k)
    except CaputConfigError as e:
        str(e)
        ctx.reach("refused")
        return True, None
    ctx.reach("accepted")
    return False, v


@contextlib.contextmanager
def patch_float():
    """`float` keeps solver values; everything else is converted as usual."""
    from caput import config
    from vp import engine

    def fl(x=0.0):
        return x if engine._is_sym(x) else float(x)

    config.float = fl
    try:
        yield
    finally:
        del config.float


def rng(ctx):
    """float_in_range."""
    from caput import config

    M = 2 * 10**6
    lo = ctx.int("lo", -M, M)
    hi = ctx.int("hi", -M, M)
    v = ctx.int("v", -M, M)
    ctx.assume(lo <= hi)
    special = ctx.choose("special", [None, "nan", "inf", "-inf"])
    val = v / 2 if special is None else special
    how = ctx.choose("how", ["config", "set", "default"])
    kw = {"default": val} if how == "default" else {}
    C = type("C", (config.Reader,), {"x": config.float_in_range(lo / 2, hi / 2, **kw)})

    def go():
        c = C()
        if how == "config":
            c.read_config({"x": val})
        elif how == "set":
            c.x = val
        return c.x

    ref, got = refused(ctx, go)
    if special is None:
        inside = ctx.And(lo <= v, v <= hi)
        ctx.check(ctx.Implies(ref, ctx.Not(inside)), "values inside the range are accepted")
        ctx.check(ctx.Implies(not ref, inside), "values outside the range are refused")
        if not ref:
            ctx.check(got * 2 == v, "the value is kept")
    else:
        ctx.check(ref, "not-a-number and infinities are outside every range", value=special)


def enum(ctx):
    from caput import config

    n = ctx.concretize(ctx.int("n", 1, 3))
    opts = [ctx.int(f"o{i}", 0, 4) for i in range(n)]
    v = ctx.int("v", 0, 4)
    how = ctx.choose("how", ["config", "set", "default"])
    inside = ctx.Or(*[v == o for o in opts])
    try:
        C = type("C", (config.Reader,), {
            "x": config.enum(opts, default=v if how == "default" else None)})
    except ValueError:
        ctx.check(how == "default", "only defaults are checked at once")
        ctx.check(ctx.Not(inside), "defaults among the options are allowed")
        ctx.reach("refused")
        return

    def go():
        c = C()
        if how == "config":
            c.read_config({"x": v})
        elif how == "set":
            c.x = v
        return c.x

    ref, got = refused(ctx, go)
    ctx.check(ctx.Not(inside) if ref else inside, "exactly the options are accepted")
    if not ref:
        ctx.check(got == v, "the value is kept")


def lists(ctx):
    from caput import config

    typ = ctx.choose("type", [None, int, str])
    length = ctx.choose("length", [None, 0, 1, 2])
    maxl = ctx.choose("maxlength", [None, 0, 1, 3])
    n = ctx.concretize(ctx.int("n", 0, 4))
    bad = ctx.concretize(ctx.int("bad", 0, n)) if typ else n  # position of a wrong element, n: none
    kind = ctx.choose("kind", [list, tuple, "text", "int"])
    elem = {int: 3, str: "s", None: 2.5}[typ]
    vals = [elem] * n
    if typ and bad < n:
        vals[bad] = None
    val = kind(vals) if kind in (list, tuple) else {"text": "ab", "int": 5}[kind]
    how = ctx.choose("how", ["config", "set", "default"])
    ok = (kind in (list, tuple) and (not typ or bad == n) and length in (None, n)
          and (maxl is None or n <= maxl))
    try:
        C = type("C", (config.Reader,), {
            "x": config.list_type(typ, length=length, maxlength=maxl,
                                  default=val if how == "default" else None)})
    except ValueError:
        ctx.check(how == "default" and not ok, "good defaults are allowed", val=val,
                  length=length, maxlength=maxl)
        ctx.reach("refused")
        return
    ctx.check(how != "default" or ok, "bad defaults are refused", val=val)

    def go():
        c = C()
        if how == "config":
            c.read_config({"x": val})
        elif how == "set":
            c.x = val
        return c.x

    ref, got = refused(ctx, go)
    ctx.check(ref != ok, "a list is accepted exactly if it meets the requirements", val=val,
              length=length, maxlength=maxl, accepted=not ref)
    if not ref:
        ctx.check(list(got) == list(val), "the value is kept")


def conv(off):
    def f(x):
        if x == "bad":
            raise TypeError("bad")
        if x == "worse":
            raise ValueError("worse")
        return off if x is None else x + off
    return f


def reader(ctx):
    """A hierarchy of readers: which values are read, converted, defaulted, complained about."""
    from caput import config

    depth = ctx.params["depth"]
    names = ["p", "q"]
    eff, ns_all = {}, []  # name -> (key, offset, default)
    cls = config.Reader
    for lev in range(depth):
        ns = {}
        for j, nm in enumerate(names):
            how = ctx.choose(f"def{lev}{nm}", [None, "own", "key"])
            if how is None:
                continue
            key = f"k{nm}{lev}" if how == "key" else None
            dflt = None if (lev + j) % 2 else 100 * lev + j
            off = 10 ** (lev + 3)
            ns[nm] = config.Property(proptype=conv(off), key=key, default=dflt)
            eff[nm] = (key or nm, off, dflt)
        cls = type(f"C{lev}", (cls,), ns)
        ns_all.append(ns)
    # a sibling class shares the base
    ctx.assume(eff)
    cfg, vals = {}, {}
    for nm in sorted(eff):
        st = ctx.choose(f"given{nm}", ["no", "yes", "null", "bad", "worse"])
        if st != "no":
            v = ctx.int(f"val{nm}", -50, 50) if st == "yes" else None if st == "null" else st
            cfg[eff[nm][0]] = v
            vals[nm] = v
    extra = ctx.choose("extra", [None, "zz", "p", "kq0"])
    if extra and extra not in cfg and all(extra != e[0] for e in eff.values()):
        cfg[extra] = "bad"
    compare = ctx.choose("compare", [False, True, ["zz"]])
    defaults = bool(ctx.bool("use_defaults"))
    finalised = []
    cls._finalise_config = lambda self: finalised.append(1)
    keys = {e[0] for e in eff.values()}
    unused = set(cfg) - keys - set(compare if isinstance(compare, list) else [])
    ok = not any(v in ("bad", "worse") for v in vals.values() if isinstance(v, str))
    ok = ok and not (compare and unused) and (defaults or keys <= set(cfg))
    a, b = cls(), cls()
    before = dict(cfg)
    ref, _ = refused(ctx, a.read_config, cfg, compare_keys=compare, use_defaults=defaults)
    ctx.check(ref != ok, "refused exactly for bad, unknown or missing entries", cfg=str(cfg),
              properties=str(eff), compare=str(compare), defaults=defaults, refused=ref)
    ctx.check(set(cfg) == set(before), "the configuration is not changed")
    ctx.check(bool(finalised) == ok, "finished only when everything is fine")
    for nm, (key, off, dflt) in eff.items():
        w = dflt + off if dflt is not None else None
        if ok:
            wa = (vals[nm] or 0) + off if nm in vals else w
            got = getattr(a, nm)
            ctx.check(got is None if wa is None else got == wa,
                      "the attribute is the converted value, else the default",
                      name=nm, got=str(got), want=str(wa))
        got = getattr(b, nm)
        ctx.check(got is None if w is None else got == w, "other instances are not affected",
                  name=nm, got=str(got))
        ctx.check(getattr(cls, nm) is None, "the class itself has no value")
    if ok:
        # reading again keeps what is not mentioned; assigning converts
        nm = sorted(eff)[0]
        key, off, dflt = eff[nm]
        others = {o: getattr(a, o) for o in eff if o != nm}
        a.read_config({key: 7})
        ctx.check(getattr(a, nm) == 7 + off, "a later configuration overrides")
        setattr(a, nm, 9)
        ctx.check(getattr(a, nm) == 9 + off, "an assigned value is converted")
        for o, v in others.items():
            g = getattr(a, o)
            ctx.check(g is None if v is None else g == v, "other attributes are kept", name=o)
        c = cls.from_config({key: 3})
        ctx.check(getattr(c, nm) == 3 + off, "from_config reads the values")


def deprecated(ctx):
    """Deprecated attributes warn when used, and behave as others."""
    import warnings

    from caput import config

    dep = bool(ctx.bool("dep"))
    use = ctx.choose("use", ["absent", "config", "get", "set"])
    v = ctx.int("v", 0, 5)
    C = type("C", (config.Reader,), {"x": config.Property(default=1, deprecated=dep),
                                     "y": config.Property(default=2)})
    c = C()
    with warnings.catch_warnings(record=True) as w:
        warnings.simplefilter("always")
        c.read_config({"x": v} if use == "config" else {"y": 3})
        if use == "get":
            c.x  # noqa: B018
        elif use == "set":
            c.x = v
        n = len([q for q in w if issubclass(q.category, FutureWarning)])
    ctx.check((n > 0) == (dep and use != "absent"), "warned exactly when a deprecated one is used",
              dep=dep, use=use, warnings=n)
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        ctx.check(c.x == (v if use in ("config", "set") else 1), "value as for any other")
    ctx.reach("done")


def logs(ctx):
    from caput import config

    lv = ["DEBUG", "info", "Warning", "error", "NOTSET", "loud", "", 5]
    kind = ctx.choose("kind", ["str", "dict", "list", "int"])
    C = type("C", (config.Reader,), {"x": config.logging_config({"root": "INFO"})})
    c = C()
    if kind == "str":
        v = ctx.choose("l", [x for x in lv if isinstance(x, str)])
        want = {"root": v}
    elif kind == "dict":
        n = ctx.concretize(ctx.int("n", 0, 2))
        v = {f"m{i}": ctx.choose(f"l{i}", lv) for i in range(n)}
        want = dict(v)
    else:
        v = ["DEBUG"] if kind == "list" else 3
        want = None
    ok = want is not None and all(isinstance(x, str) and x.upper() in
                                  ("DEBUG", "INFO", "WARNING", "ERROR", "NOTSET")
                                  for x in want.values())

    def go():
        c.read_config({"x": v})
        return c.x

    ref, got = refused(ctx, go)
    ctx.check(ref != ok, "exactly the known levels are accepted", value=v, accepted=not ref)
    if ok:
        ctx.check(got == {k: x.upper() for k, x in want.items()}, "levels in upper case")
    ctx.check(C().x == {"root": "INFO"}, "default of other instances")


def lines(ctx):
    """The YAML loader changes no value and knows where each block starts."""
    import yaml

    from caput.config import CaputConfigError, SafeLineLoader

    pad = [ctx.concretize(ctx.int(f"pad{i}", 0, 2)) for i in range(3)]
    flow = bool(ctx.bool("flow"))
    txt = "# c\n" * pad[0] + "a:\n" + "# c\n" * pad[1]
    ln = txt.count("\n") + 1
    txt += "  b: {x: 1}\n" if flow else "  b:\n    x: 1\n"
    lx = ln if flow else ln + 1
    txt += "# c\n" * pad[2]
    lst = txt.count("\n") + 1
    txt += "l:\n  - {u: [1, 2]}\n  - 3\n"
    d = yaml.load(txt, Loader=SafeLineLoader)
    ctx.check(d == yaml.safe_load(txt), "the loader changes no value", got=d)
    for blk, want in ((d, pad[0] + 1), (d["a"], ln), (d["a"]["b"], lx), (d["l"][0], lst + 1)):
        e = CaputConfigError("m", file_="f.yaml", location=blk)
        ctx.check(e.line == want and f"L{want}" in str(e) and "f.yaml" in str(e),
                  "the error names the line of the block", got=e.line, want=want)
    e = CaputConfigError("m", location={"x": 1})
    ctx.check(e.line is None and str(e) == "m", "no line is made up")
    ctx.reach("done")


def harnesses(tier):
    big = tier == "thorough"
    ra = ["refused", "accepted"]
    return [
        Harness("range", rng, reach=ra, patch=patch_float, weight=1,
                bounds="value and bounds multiples of 1/2 within +-10^6; nan, +-inf"),
        Harness("enum", enum, reach=ra, bounds="1..3 options and value within 0..4"),
        Harness("lists", lists, reach=ra, weight=4,
                bounds="lists of 0..4, all positions of a wrong element, lengths None/0/1/2"),
        Harness("reader1", reader, params=dict(depth=1), reach=ra, weight=3,
                bounds="one class, 2 properties, all key/default/override combinations"),
        Harness("reader2", reader, params=dict(depth=2), reach=ra, weight=9,
                bounds="two classes, 2 properties, all key/default/override combinations"),
        *([Harness("reader3", reader, params=dict(depth=3), reach=ra, weight=30,
                   bounds="three classes, 2 properties")] if big else []),
        Harness("deprecated", deprecated, reach=["done"], bounds="all ways of using it"),
        Harness("logging", logs, reach=ra, bounds="up to 2 loggers, 8 level values"),
        Harness("lines", lines, reach=["done"], bounds="0..2 padding lines in 3 places"),
    ]
