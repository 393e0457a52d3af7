"""P19: the moving weighted median of every window is the weighted median of that window.

The balanced tree behind the moving median (C++ header) is compiled to LLVM IR and driven as the 1-d
routine drives it (insert, remove, median) over exact reals: data and weights are symbolic, so every
order, tie and crossing of the half weight is covered, and every memory access is checked. A second
encoding keeps IEEE arithmetic with symbolic weights: there the solver looks for weights whose rounded
sums make the code leave the tree. The public function is executed in the built extension on 1- and
2-d arrays with chosen contents, windows, methods, types and layouts against the definition: a median
has no more than half of the weight of its window on either side.
"""

import itertools
from fractions import Fraction

import numpy as np

from vp import env
from vp.harness import Harness

EXT = "caput.algorithms.median.weighted"
ASSUMPTIONS = [
    "weights are finite and not negative; data are finite",
    "a window without any weight has no median: 0 or NaN are both accepted there",
    "tree: up to 4 symbolic values and weights, or up to 6 values in chosen orders with symbolic "
    "weights (exact arithmetic); 3 symbolic double precision weights for the effect of rounding",
    "the reference counts of the tree's pointers are those of a single-threaded program",
    "extension: small integer data and weights; arrays of up to 5 elements or 3x3; odd windows",
]
METHODS = ["lower", "higher", "split"]
W = """#include <memory>
#include <algorithm>
#include <stdexcept>
#include <deque>
#include "MedianTree.hpp"
using namespace MedianTree;
extern "C" void run(const double *d, const double *w, int n, int size, char method, double *out) {
    Tree<double> t;
    std::deque<data_ptr<double>> f;
    data_ptr<double> none(new Data<double>(0, 0));
    int next = 0;
    for (int i = 0; i < n; i++) {
        if (i - size / 2 - 1 >= 0) {
            data_ptr<double> p = f.front();
            if (p->weight != 0 && !t.remove(p)) throw std::runtime_error("lost");
            f.pop_front();
        }
        for (; next < n && next <= i + size / 2; next++)
            f.push_back(w[next] != 0 ? t.insert(d[next], w[next]) : none);
        out[i] = t.size() ? t.weighted_median(method) : 0;
    }
}
extern "C" double once(const double *d, const double *w, int n, char method) {
    Tree<double> t;
    for (int i = 0; i < n; i++) t.insert(d[i], w[i]);
    return t.weighted_median(method);
}
"""


def machine(ctx, mode):
    from vp import engine, llvm

    try:
        mod = llvm.compile_text(W, [env.REPO + "/caput/algorithms/median"])
    except RuntimeError as e:
        raise engine.Skip(f"the tree is not there under its name: {str(e)[:200]}")
    for f in ("insert", "remove", "weighted_median", "balance_path", "remove_node"):
        engine.ENCODED.add(f"caput/algorithms/median/MedianTree.hpp:Tree::{f} (LLVM IR)")
    # single-threaded: the run-time's test for threads answers no
    ext = {"@__libc_single_threaded": 1, "@__pthread_key_create": 0}
    return llvm.Machine(mod, ctx, mode, externs=ext)


def windows(n, size):
    for i in range(n):
        yield i, range(max(0, i - size // 2), min(n, i + size // 2 + 1))


def orders(n):
    """Data for n elements: all orders of distinct values are too many beyond 4."""
    if n <= 4:
        return [p for p in itertools.product(range(n), repeat=n) if set(p) == set(range(max(p) + 1))]
    base = list(range(n))
    return [base, base[::-1], base[::2] + base[1::2], [x // 2 for x in base]] + (
        [] if n < 6 else [base[n // 2:] + base[:n // 2], [0] * n, [n - 1 - x if x % 2 else x for x in base], base[1::2][::-1] + base[::2]])


def tree(ctx):
    """Median of every window position, exact arithmetic."""
    import z3

    from vp import llvm

    n, size, method = ctx.params["n"], ctx.params["size"], ctx.params["method"]
    m = machine(ctx, "real")
    if ctx.params["data"] == "symbolic":
        d = [ctx.real(f"d{i}") for i in range(n)]
    else:
        d = [z3.RealVal(x) for x in ctx.choose("order", orders(n))]
    w = [ctx.real(f"w{i}") for i in range(n)]
    for x in w:
        ctx.assume(x >= 0 if ctx.params["zero"] else x > 0)
    da, wa, oa = m.alloc(8 * n), m.alloc(8 * n), m.alloc(8 * n)
    for i in range(n):
        m.store(da + 8 * i, d[i] if z3.is_expr(d[i]) and not z3.is_rational_value(d[i])
                else Fraction(str(d[i])), llvm.DBL)
        m.store(wa + 8 * i, w[i], llvm.DBL)
    try:
        m.call("@run", [da, wa, n, size, ord(method[0]), oa])
    except MemoryError as e:
        ctx.fail(f"moving median: {e}")
    except llvm.Thrown as e:
        ctx.fail(f"moving median: raises {e}")
    for i, win in windows(n, size):
        r = m.load(oa + 8 * i, llvm.DBL)
        r = r if z3.is_expr(r) else z3.RealVal(str(Fraction(r)))
        ctx.check(z3.Or(z3.And(*[w[j] == 0 for j in win]),
                        claim(r, [d[j] for j in win], [w[j] for j in win], method)),
                  f"wrong moving median ({method})")
    ctx.reach("proved")


def claim(r, d, w, method):
    """r is the median: no more than half of the weight on either side."""
    import z3

    n = len(d)
    half = z3.Sum(w) / 2
    zero = z3.RealVal(0)
    below = [z3.Sum([z3.If(d[j] < d[i], w[j], zero) for j in range(n)]) for i in range(n)]
    above = [z3.Sum([z3.If(d[j] > d[i], w[j], zero) for j in range(n)]) for i in range(n)]
    lo = [z3.And(w[i] > 0, below[i] < half, above[i] <= half) for i in range(n)]
    hi = [z3.And(w[i] > 0, below[i] <= half, above[i] < half) for i in range(n)]
    if method == "lower":
        return z3.Or(*[z3.And(lo[i], r == d[i]) for i in range(n)])
    if method == "higher":
        return z3.Or(*[z3.And(hi[i], r == d[i]) for i in range(n)])
    return z3.Or(*[z3.And(lo[i], hi[j], 2 * r == d[i] + d[j]) for i in range(n) for j in range(n)])


def replay_tree(ctx):
    n, size, method = ctx.params["n"], ctx.params["size"], ctx.params["method"]
    if ctx.params["data"] == "symbolic":
        d = [ctx.real(f"d{i}") for i in range(n)]
        rank = {x: float(i) for i, x in enumerate(sorted(set(d)))}
        d = [rank[x] for x in d]
    else:
        d = [float(x) for x in ctx.choose("order", orders(n))]
    w = [ctx.real(f"w{i}") for i in range(n)]
    den = 1
    for x in w:
        den *= x.denominator
    wi = [int(x * den) for x in w]
    if min(wi) < 0 or max(wi) > 2**40:
        return
    judge(ctx, np.array(d), np.array(wi, dtype=float), size, method)


def rounding(ctx):
    """IEEE sums: the search for the median stays inside the tree for all weights."""
    import z3

    from vp import llvm

    n, method = ctx.params["n"], ctx.params["method"]
    m = machine(ctx, "fp")
    d = ctx.choose("order", list(itertools.permutations(range(n))))
    ctx.ex.lazy = False
    so = z3.Float64()
    w = [z3.fpBVToFP(ctx.bits(f"w{i}", 64), so) for i in range(n)]
    for i in range(n):
        # between 2**-10 and 2**10
        e = z3.Extract(62, 52, ctx.vars[f"w{i}"])
        ctx.ex.add(z3.And(z3.Extract(63, 63, ctx.vars[f"w{i}"]) == 0, z3.UGE(e, 1013), z3.ULT(e, 1033)))
    # every branch is taken both ways; the (expensive) question whether some weights lead there is
    # asked only for a path that fails
    ctx.ex.lazy = True
    da, wa = m.alloc(8 * n), m.alloc(8 * n)
    for i in range(n):
        m.store(da + 8 * i, float(d[i]), llvm.DBL)
        m.store(wa + 8 * i, w[i], llvm.DBL)
    try:
        m.call("@once", [da, wa, n, ord(method[0])])
    except MemoryError as e:
        ctx.fail(f"moving median: {e}")
    except llvm.Thrown as e:
        ctx.fail(f"moving median: raises {e}")
    ctx.reach("proved")


def replay_rounding(ctx):
    from caput.algorithms.median import moving_weighted_median

    n, size, method = ctx.params["n"], ctx.params["size"], ctx.params["method"]
    d = np.array(ctx.choose("order", list(itertools.permutations(range(n)))), dtype=float)
    w = np.array([np.uint64(ctx.bits(f"w{i}", 64)).view(np.float64) for i in range(n)])
    r = moving_weighted_median(d, w, size, method=method)
    ctx.check(bool(np.isfinite(r).all()), "the median of weighted data is not finite")


def ref(d, w, method):
    """(lowest, highest) or None, exact, by the definition."""
    d, w = [Fraction(float(x)) for x in d], [Fraction(float(x)) for x in w]
    half = sum(w) / 2
    c = [x for x, y in zip(d, w) if y > 0
         and sum(b for a, b in zip(d, w) if a < x) <= half
         and sum(b for a, b in zip(d, w) if a > x) <= half]
    if not c:
        return None
    return min(c) if method == "lower" else max(c) if method == "higher" else (min(c) + max(c)) / 2


def judge(ctx, d, w, size, method, form=None):
    from caput.algorithms.median import moving_weighted_median

    d0, w0 = np.array(d), np.array(w)
    ctx.checkpoint()
    r = moving_weighted_median(d, w, form if form is not None else size, method=method)
    ctx.check(np.array_equal(d, d0) and np.array_equal(w, w0), "the inputs were changed")
    ctx.check(isinstance(r, np.ndarray) and r.shape == d0.shape, "the medians have a wrong shape")
    sz = size if isinstance(size, tuple) else (size,)
    for idx in np.ndindex(d0.shape):
        win = tuple(slice(max(0, i - s // 2), i + s // 2 + 1) for i, s in zip(idx, sz))
        e = ref(d0[win].ravel(), w0[win].ravel(), method)
        if e is None:
            ctx.check(r[idx] == 0 or np.isnan(r[idx]), "a median without any weight")
            ctx.reach("empty")
        else:
            ctx.check(not np.isnan(r[idx]) and Fraction(float(r[idx])) == e,
                      f"wrong moving median ({method})", got=float(r[idx]), want=str(e),
                      index=idx, d=d0.tolist(), w=w0.tolist(), size=size)


PAT = [(3, 1, 2, 5, 4, 7), (1, 1, 2, 2, 1, 3), (9, 6, 5, 4, 3, 2), (1, 2, 3, 4, 5, 6), (-5, 8, -5, 0, 8, 8)]


def line(ctx):
    n = ctx.concretize(ctx.int("n", 1, ctx.params["n"]))
    d = np.array(ctx.choose("vals", PAT)[:n], dtype=float)
    w = np.array([ctx.concretize(ctx.int(f"w{i}", 0, 2)) for i in range(n)], dtype=float)
    for size in (1, 3, 5, 9):
        for m in METHODS:
            judge(ctx, d, w, size, m)
    ctx.reach("checked")


def long(ctx):
    """Windows with many elements: deep trees, repeated values, removal in every order."""
    n = 24
    k = ctx.choose("step", [1, 5, 7, 11, 13, 23])
    mod = ctx.choose("mod", [24, 12, 5, 3])
    d = np.array([(i * k) % n % mod for i in range(n)], dtype=float)
    ws = ctx.choose("wts", [(1,), (1, 2), (2, 0, 1), (5, 1, 1, 1), (0, 0, 0, 1), (3, 1, 4, 1, 5, 9, 2, 6)])
    w = np.array([ws[i % len(ws)] for i in range(n)], dtype=float)
    size = ctx.choose("size", [3, 7, 15, 31, 47, 49])
    for m in METHODS:
        judge(ctx, d, w, size, m)
    ctx.reach("checked")


def plane(ctx):
    h, v = ctx.concretize(ctx.int("rows", 1, 3)), ctx.concretize(ctx.int("cols", 1, 3))
    p = ctx.choose("vals", PAT)
    d = np.array([p[i % 6] + (i // 6) for i in range(h * v)], dtype=float).reshape(h, v)
    ws = ctx.choose("wts", [(1,), (0, 1), (2, 0, 1), (1, 3, 1, 0, 2), (0, 0, 0, 1), (3, 1, 4, 1, 5)])
    w = np.array([ws[i % len(ws)] for i in range(h * v)], dtype=float).reshape(h, v)
    size = (ctx.choose("wy", [1, 3, 5]), ctx.choose("wx", [1, 3, 5]))
    for m in METHODS:
        judge(ctx, d, w, size, m)
    ctx.reach("checked")


def layouts(ctx):
    dts = [np.intc, np.int64, np.float32, np.float64]
    da, dw = ctx.choose("type", dts), ctx.choose("wtype", dts)
    two = bool(ctx.bool("two"))
    shape = (3, 4) if two else (6,)
    out = []
    for key, dt, seq in (("la", da, (3, 1, 4, 1, 5, 9, 2, 6, 5, 3, 5, 8)), ("lw", dw, (1, 0, 2, 2, 1, 0, 3))):
        x = np.array([seq[i % len(seq)] for i in range(int(np.prod(shape)))], dtype=dt).reshape(shape)
        lay = ctx.choose(key, ["c", "f", "strided", "reversed"])
        if lay == "f":
            x = np.array(x, order="F")
        elif lay == "strided":
            b = np.zeros((*shape[:-1], 2 * shape[-1]), dtype=dt)
            b[..., ::2] = x
            x = b[..., ::2]
        elif lay == "reversed":
            x = np.ascontiguousarray(x[..., ::-1])[..., ::-1]
        out.append(x)
    size = (3, ctx.choose("wx", [1, 3, 5])) if two else 3
    form = size if two else ctx.choose("form", [3, (3,), [3]])
    judge(ctx, *out, size, ctx.choose("method", METHODS), form)
    ctx.reach("checked")


def refuse(ctx):
    from caput.algorithms.median import moving_weighted_median

    d, w, size, method = np.ones(4), np.ones(4), 3, "split"
    what = ctx.choose("what", ["even", "even2", "zero", "shape", "shape2", "dims", "method", "complex",
                               "three"])
    want = ValueError
    if what == "even":
        size = ctx.choose("size", [2, 4, (2,)])
    elif what == "even2":
        d, w, size = np.ones((3, 3)), np.ones((3, 3)), ctx.choose("size2", [(2, 3), (3, 2), (2, 2)])
    elif what == "zero":
        size = 0
    elif what == "shape":
        w = np.ones(ctx.choose("n", [1, 3, 5]))
    elif what == "shape2":
        d, w, size = np.ones((3, 3)), np.ones(ctx.choose("s", [(2, 3), (3, 2), (4, 4), (1, 1)])), (3, 3)
    elif what == "dims":
        w = np.ones((2, 2))
    elif what == "method":
        method = ctx.choose("method", ["l", "", "mean"])
    elif what == "complex":
        d = d.astype(complex)
    else:
        d, w, size, want = np.ones((2, 2, 2)), np.ones((2, 2, 2)), (3, 3, 3), NotImplementedError
    ctx.checkpoint()
    try:
        moving_weighted_median(d, w, size, method=method)
    except want:
        ctx.reach("refused")
        return
    except Exception as e:
        ctx.fail(f"refused with {type(e).__name__}")
    ctx.fail("unsuitable arguments are accepted")


def prepare(tier):
    from vp import extbuild

    extbuild.build(EXT)


def harnesses(tier):
    q = tier == "quick"
    out = []
    for m in METHODS:
        for n, size, data, zero in ([(2, 3, "symbolic", 1), (3, 3, "symbolic", 1)] +
                                    ([] if q else [(4, 3, "symbolic", 0)])):
            out.append(Harness(f"tree-{n}-{size}-{m}", tree, weight=n * n, replay_body=replay_tree,
                               params=dict(n=n, size=size, method=m, data=data, zero=zero),
                               reach=["proved"], bounds=f"{n} symbolic values and weights"))
        n, size = (5, 7) if q else (6, 7)
        out.append(Harness(f"deep-{n}-{size}-{m}", tree, weight=20, replay_body=replay_tree,
                           params=dict(n=n, size=size, method=m, data="orders", zero=0),
                           reach=["proved"], bounds=f"{4 if q else 8} orders of {n} values, symbolic weights"))
        out.append(Harness(f"rounding-{m}", rounding, weight=15, replay_body=replay_rounding,
                           params=dict(n=3 if q else 4, size=9, method=m), reach=["proved"], samples=0,
                           bounds=f"all orders of {3 if q else 4} values, double precision weights in "
                           "[2**-10, 2**10)"))
    out.append(Harness("line", line, params={"n": 4 if q else 5}, reach=["checked", "empty"], weight=9,
                       bounds="weights 0..2, 5 data patterns, windows 1, 3, 5, 9, 3 methods"))
    out.append(Harness("long", long, reach=["checked"], weight=9, bounds="24 elements, 864 cases"))
    out.append(Harness("plane", plane, reach=["checked", "empty"], weight=9,
                       bounds="up to 3x3 elements, windows up to 5x5"))
    out.append(Harness("layouts", layouts, reach=["checked"], weight=6,
                       bounds="4x4 types, 1- and 2-d, 4x4 layouts"))
    out.append(Harness("refuse", refuse, reach=["refused"], bounds="9 kinds of unsuitable arguments"))
    return out
