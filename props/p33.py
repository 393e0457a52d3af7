"""P33: nested objects compare equal exactly if they have the same structure and values.

The real comparison runs on pairs of objects built from symbolic choices: dictionaries, lists and
tuples, nested in one another, of scalars, strings and arrays (structured ones, and arrays with NaN),
and on the index maps of containers. It is compared with an independent recursive definition, and has
to be symmetric and leave both objects unchanged.
"""

import copy
import warnings

import numpy as np

from vp.harness import Harness

ASSUMPTIONS = [
    "nesting of depth 2, up to 2 entries; arrays compare with arrays and lists with lists or tuples (mixtures, and arrays without dimensions, are outside of the claim)",
]

T = np.dtype([("a", float), ("b", int)])


def leaves():
    from caput.mpiarray import MPIArray

    return [
        lambda: 1, lambda: 2, lambda: 1.0, lambda: "a", lambda: b"a", lambda: None, lambda: float("nan"), lambda: True, lambda: 0, lambda: "",
        lambda: np.array([1, 1]), lambda: np.array([1, 2]), lambda: np.array([1.0, 1.0]), lambda: np.array([[1, 1]]), lambda: np.array([1]),
        lambda: np.array([]), lambda: np.array([1.0, np.nan]), lambda: np.array(["a", "b"]), lambda: np.array([b"a", b"b"]),
        lambda: np.array([(1, 2), (3, 4)], T), lambda: np.array([(1, 2), (3, 5)], T),
        lambda: MPIArray.wrap(np.array([1, 1]), axis=0), lambda: {1, 2}, lambda: {1},
    ]


def same(a, b):
    if isinstance(a, dict) or isinstance(b, dict):
        return isinstance(a, dict) and isinstance(b, dict) and set(a) == set(b) and all(same(a[k], b[k]) for k in a)
    if isinstance(a, (list, tuple)) or isinstance(b, (list, tuple)):
        return isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)) and len(a) == len(b) and all(map(same, a, b))
    if isinstance(a, np.ndarray) or isinstance(b, np.ndarray):
        if type(a) is not type(b) or a.shape != b.shape:
            return False
        if (a.dtype.kind in "US") != (b.dtype.kind in "US") or (a.dtype.kind != b.dtype.kind and a.dtype.kind in "US"):
            return a.size == 0
        if (a.dtype.names is None) != (b.dtype.names is None):
            return a.size == 0
        return all(same(x, y) for x, y in zip(np.asarray(a).ravel().tolist(), np.asarray(b).ravel().tolist()))
    if isinstance(a, float) and isinstance(b, float) and a != a and b != b:
        return True
    return bool(a == b)


def outside(a, b):
    """Mixtures which are outside of the claim."""
    seq = (list, tuple)
    if isinstance(a, dict) and isinstance(b, dict):
        return any(outside(a[k], b[k]) for k in set(a) & set(b))
    if isinstance(a, seq) and isinstance(b, seq):
        return any(map(outside, a, b))
    if isinstance(a, np.ndarray) and isinstance(b, np.ndarray):
        return a.size == 0 or b.size == 0 or (a.dtype.names is None) != (b.dtype.names is None)
    odd = (*seq, set)
    return (isinstance(a, np.ndarray) and isinstance(b, odd)) or (isinstance(b, np.ndarray) and isinstance(a, odd))


def show(x):
    return repr(x)[:80]


def judge(ctx, a, b):
    from caput.util import objecttools as ot

    if outside(a, b):
        return
    ca, cb = copy.deepcopy(a), copy.deepcopy(b)
    want = same(a, b)
    for x, y in ((a, b), (b, a)):
        got = ot.allequal(x, y)
        ctx.check(got is want, "different objects compare equal" if got else "equal objects compare different", a=show(x), b=show(y))
    ctx.check(same(a, ca) and same(b, cb), "comparing changed an object")
    ctx.reach("equal" if want else "different")


def pairs(ctx):
    """Two leaves, alone or at the same place of the same structure."""
    warnings.simplefilter("ignore")
    ls = leaves()
    i = ctx.choose("i", list(range(len(ls))))
    j = ctx.choose("j", list(range(len(ls))))
    wrap = ctx.choose("wrap", ["none", "list", "dict", "nested", "last"])
    f = {"none": lambda x: x, "list": lambda x: [x], "dict": lambda x: {"k": x}, "nested": lambda x: {"k": [0, (x,)]}, "last": lambda x: (1, "z", x)}[wrap]
    judge(ctx, f(ls[i]()), f(ls[j]()))


def keys(ctx):
    """Dictionaries with different keys, or more of them."""
    warnings.simplefilter("ignore")
    ls = leaves()
    i = ctx.choose("i", list(range(len(ls))))
    j = ctx.choose("j", list(range(len(ls))))
    a, b = ctx.choose("ways", [("k", "l"), ("k", "kl"), ("kl", "km"), ("kl", "lk")])
    wrap = ctx.choose("wrap", [False, True])
    a, b = {k: ls[i]() for k in a}, {k: ls[j]() for k in b}
    judge(ctx, [a] if wrap else a, [b] if wrap else b)


def shapes(ctx):
    """Structures which differ."""
    warnings.simplefilter("ignore")

    def build(p, depth):
        kind = ctx.choose(f"{p}kind", ["leaf", "list", "tuple", "dict"] if depth else ["leaf"])
        if kind == "leaf":
            return ctx.choose(f"{p}leaf", [1, None, 0])
        n = ctx.concretize(ctx.int(f"{p}n", 0, 2))
        if kind == "dict":
            keys = ctx.choose(f"{p}keys", [["a", "b"], ["b", "c"]]) if n else []
            return {k: build(f"{p}{i}", depth - 1) for i, k in enumerate(keys[:n])}
        xs = [build(f"{p}{i}", depth - 1) for i in range(n)]
        return xs if kind == "list" else tuple(xs)

    judge(ctx, build("a", 1), build("b", ctx.params["depth"]))


def maps(ctx):
    """The index maps of containers compare equal exactly if they are the same."""
    warnings.simplefilter("ignore")
    from caput.containers import Container

    ax = [np.array([1, 2]), np.array([1, 3]), np.array([1, 2, 3]), np.array([(1, 2), (3, 4)], T), np.array([(1, 2), (3, 5)], T)]
    pick = [[ctx.choose(f"{c}{k}", [None, *range(len(ax))]) for k in "xy"] for c in "ab"]
    cs = []
    for p in pick:
        c = Container(distributed=False)
        for k, i in zip("xy", p):
            if i is not None:
                c.create_index_map(k, ax[i].copy())
        cs.append(c)
    want = pick[0] == pick[1]
    a, b = cs[0].index_map, cs[1].index_map
    if any(i is not None and j is not None and (i > 2) != (j > 2) for i, j in zip(*pick)):
        return
    ctx.check((a == b) is want and (b == a) is want and (a != b) is (not want), "index maps compare wrongly", a=pick[0], b=pick[1])
    ctx.check(a == a and b == b, "an index map differs from itself")
    ctx.check(not (a == 1) and a != {"x": 1}, "an index map equals another object")
    ctx.reach("equal" if want else "different")


def harnesses(tier):
    q = tier == "quick"
    return [
        Harness("pairs", pairs, reach=["equal", "different"], bounds="all pairs of 24 objects, at 5 places"),
        Harness("keys", keys, reach=["equal", "different"], bounds="all pairs of 24 objects, under 4 pairs of keys"),
        Harness("shapes", shapes, params={"depth": 1 if q else 2}, reach=["equal", "different"], weight=3,
                bounds=f"structures of depth {1 if q else 2}, up to 2 entries"),
        Harness("maps", maps, reach=["equal", "different"], bounds="0-2 axes of 5 kinds"),
    ]
