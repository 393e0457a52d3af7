"""P18: the weighted quantile is the element at which the cumulated weight crosses the target.

The Cython generated C++ is compiled to LLVM IR and the selection routine is executed over exact
reals: the data and the weights are symbolic, the quantile and the method are chosen; every memory
access is checked against the arrays. Oracle: with total weight T and target s = q T, `lower` is the
smallest weighted value whose cumulated weight reaches s, `higher` the largest weighted value with no
more than s below it, `split` their mean (uniform weights when all are zero). The public functions are
executed in the built extension on arrays whose type, shape, layout and contents are chosen by
symbolic variables, against the same definition.
"""

from fractions import Fraction

import numpy as np

from vp.harness import Harness

EXT = "caput.algorithms.median.weighted"
ASSUMPTIONS = [
    "weights are not negative (documented), data and weights are finite numbers",
    "kernel: rows of up to 4 (thorough 5) elements in exact arithmetic, so ties are decided exactly; "
    "rounding of the sums of weights is outside",
    "extension: small integer data and weights (exactly representable), 32/64 bit integers and floats",
]
QS = ["0", "1/4", "1/3", "1/2", "2/3", "3/4", "1"]
METHODS = ["lower", "higher", "split"]


def slice_arg(m, addr, shape, item=8):
    """A memoryview slice struct (as Cython lays it out) for a contiguous array."""
    from vp import llvm

    a = m.alloc(16 + 3 * 64)
    m.store(a, 0, llvm.PTR)
    m.store(a + 8, addr, llvm.PTR)
    st = [item]
    for n in reversed(shape[1:]):
        st.insert(0, st[0] * n)
    for k in range(8):
        m.store(a + 16 + 8 * k, shape[k] if k < len(shape) else 0, llvm.I[64])
        m.store(a + 80 + 8 * k, st[k] if k < len(shape) else 0, llvm.I[64])
        m.store(a + 144 + 8 * k, -1 & (2**64 - 1), llvm.I[64])
    return a


def expected(ctx, r, a, w, q, method):
    """The claim that r is the quantile, as a formula over symbolic data and weights."""
    import z3

    n = len(a)
    allzero = z3.And(*[x == 0 for x in w])
    w = [z3.If(allzero, z3.RealVal(1), x) for x in w]
    s = z3.Q(q.numerator, q.denominator) * z3.Sum(w)
    below = [z3.Sum([z3.If(a[j] < a[i], w[j], z3.RealVal(0)) for j in range(n)]) for i in range(n)]
    upto = [z3.Sum([z3.If(a[j] <= a[i], w[j], z3.RealVal(0)) for j in range(n)]) for i in range(n)]
    lo = [z3.And(w[i] > 0, upto[i] >= s, z3.Or(below[i] < s, below[i] == 0)) for i in range(n)]
    hi = [z3.And(w[i] > 0, below[i] <= s, z3.Or(upto[i] > s, upto[i] == z3.Sum(w))) for i in range(n)]
    if method == "lower":
        return z3.Or(*[z3.And(lo[i], r == a[i]) for i in range(n)])
    if method == "higher":
        return z3.Or(*[z3.And(hi[i], r == a[i]) for i in range(n)])
    return z3.Or(*[z3.And(lo[i], hi[j], 2 * r == a[i] + a[j]) for i in range(n) for j in range(n)])


def kernel(ctx):
    import z3

    from vp import engine, extbuild, llvm

    try:
        mod = llvm.Module(extbuild.ir(EXT)) if "mod" not in CACHE else CACHE["mod"]
    except RuntimeError as e:
        raise engine.Skip(str(e)[:300])
    CACHE["mod"] = mod
    fn = mod.find(r"__pyx_fuse_3_3__pyx_f_\w*__quickselect\d*__Pyx_memviewslice\w*$")
    n = ctx.params["n"]
    q = Fraction(ctx.choose("q", QS))
    method = ctx.params["method"]
    a = [ctx.real(f"a{i}") for i in range(n)]
    w = [ctx.real(f"w{i}") for i in range(n)]
    engine.ENCODED.add("caput/algorithms/median/weighted.pyx:_quickselect[double, double] (LLVM IR)")
    m = llvm.Machine(mod, ctx, "real", externs=EXTERN)
    for x in w:
        ctx.assume(x >= 0)
    arrs = {}
    for name, k, vals in (("A", n, a), ("W", n, w), ("q", 1, None), ("At", n, None), ("Wt", n, None)):
        arrs[name] = m.alloc(8 * k)
        for i, v in enumerate(vals or ()):
            m.store(arrs[name] + 8 * i, v, llvm.DBL)
    try:
        m.call(fn, [slice_arg(m, arrs["A"], [1, n]), slice_arg(m, arrs["W"], [1, n]), q,
                    ord(method[0]), slice_arg(m, arrs["q"], [1]), slice_arg(m, arrs["At"], [n]),
                    slice_arg(m, arrs["Wt"], [n]), 0])
    except MemoryError as e:
        ctx.fail(f"quantile: {e}")
    if not ctx.symbolic:  # replay of an access outside of the arrays
        return
    r = m.load(arrs["q"], llvm.DBL)
    for name, vals in (("A", a), ("W", w)):
        got = [m.load(arrs[name] + 8 * i, llvm.DBL) for i in range(n)]
        ctx.check(z3.And(*[x == y for x, y in zip(got, vals)]), "the inputs were changed")
    if not isinstance(r, z3.ExprRef):
        if not isinstance(r, (int, float, Fraction)):
            ctx.fail("the quantile is never computed")
        r = z3.RealVal(str(Fraction(r)))
    ctx.check(expected(ctx, r, a, w, q, method), f"wrong quantile ({method})")
    ctx.reach("proved")


CACHE = {}
# the interpreter's error flag is never set here
EXTERN = {"@PyErr_Occurred": lambda *a: 0, "@PyGILState_Ensure": lambda *a: 0,
          "@PyGILState_Release": lambda *a: None, "@PyEval_SaveThread": lambda *a: 0,
          "@PyEval_RestoreThread": lambda *a: None}


def replay_kernel(ctx):
    """The same data through the public function, scaled to exactly representable numbers."""
    n = ctx.params["n"]
    q = Fraction(ctx.choose("q", QS))
    a = [ctx.real(f"a{i}") for i in range(n)]
    w = [ctx.real(f"w{i}") for i in range(n)]
    if any(x < 0 for x in w):
        return
    rank = {x: float(i) for i, x in enumerate(sorted(set(a)))}
    den = 1
    for x in w:
        den *= x.denominator
    wi = [int(x * den) for x in w]
    if q.denominator == 3:
        wi = [3 * x for x in wi]
    if max(wi) > 2**40:
        return
    judge(ctx, np.array([rank[x] for x in a]), np.array(wi, dtype=float), q, ctx.params["method"])
    # an access outside of the arrays need not show in the result: the same compiled code, with
    # every access checked
    kernel(ctx)


def ref(a, w, q, method):
    """Reference by definition, exact."""
    a, w = [Fraction(float(x)) for x in a], [Fraction(float(x)) for x in w]
    if not any(w):
        w = [Fraction(1)] * len(w)
    s, T = q * sum(w), sum(w)
    vals = sorted({x for x, y in zip(a, w) if y > 0})
    upto = lambda v: sum(y for x, y in zip(a, w) if x <= v)  # noqa: E731
    below = lambda v: sum(y for x, y in zip(a, w) if x < v)  # noqa: E731
    lo = min(v for v in vals if upto(v) >= s)
    hi = max(v for v in vals if below(v) <= s)
    assert T == upto(vals[-1])
    return lo if method == "lower" else hi if method == "higher" else (lo + hi) / 2


def judge(ctx, A, W, q, method, shape=None):
    from caput.algorithms import median

    A0, W0 = A.copy(), W.copy()
    ctx.checkpoint()
    if q == Fraction(1, 2) and ctx.params.get("median"):
        r = median.weighted_median(A, W, method=method)
    else:
        r = median.quantile(A, W, float(q), method=method)
    ctx.check(np.array_equal(A, A0) and np.array_equal(W, W0), "the inputs were changed")
    ctx.check(np.shape(r) == A0.shape[:-1], "the quantile has a wrong shape", shape=np.shape(r))
    ctx.check(np.asarray(r).dtype == A0.dtype, "the quantile has another type")
    for idx in np.ndindex(A0.shape[:-1]):
        e = ref(A0[idx], W0[idx], q, method)
        got = Fraction(float(np.asarray(r)[idx]))
        if A0.dtype.kind in "iu":
            ctx.check(abs(got - e) < 1, f"wrong quantile ({method})", got=str(got), want=str(e),
                      a=A0[idx].tolist(), w=W0[idx].tolist(), q=str(q))
        else:
            ctx.check(got == e, f"wrong quantile ({method})", got=str(got), want=str(e),
                      a=A0[idx].tolist(), w=W0[idx].tolist(), q=str(q))


VALS = [(3, 1, 2, 5, 4, 7, 6), (1, 1, 2, 2, 3, 3, 1), (7, 6, 5, 4, 3, 2, 1), (-5, 8, -5, 0, 8, 8, 2)]


def exact(ctx):
    """All small weights on rows of up to n elements."""
    n = ctx.concretize(ctx.int("n", 1, ctx.params["n"]))
    a = np.array(ctx.choose("vals", VALS)[:n], dtype=float)
    w = np.array([3 * ctx.concretize(ctx.int(f"w{i}", 0, ctx.params["wmax"])) for i in range(n)],
                 dtype=float)
    for q in QS:
        for method in METHODS:
            judge(ctx, a, w, Fraction(q), method)
    ctx.reach("checked")


def layouts(ctx):
    """Types, dimensions and memory layouts of data and weights."""
    import itertools

    dts = [np.intc, np.int64, np.float32, np.float64]
    da, dw = ctx.choose("type", dts), ctx.choose("wtype", dts)
    shape = ctx.choose("shape", [(4,), (1,), (2, 3), (0, 3), (2, 1), (2, 2, 3), (3, 1, 2)])
    lay = [ctx.choose(k, ["c", "f", "strided", "reversed", "readonly"]) for k in ("la", "lw")]
    size = int(np.prod(shape))
    out = []
    for l, dt, seq in zip(lay, (da, dw), ([4, 1, 3, 2, 9, -6, 5], [0, 3, 6, 3, 0, 9, 3, 12])):
        x = np.array(list(itertools.islice(itertools.cycle(seq), size)), dtype=dt).reshape(shape)
        if l == "f":
            x = np.array(x, order="F")
        elif l == "strided":
            b = np.zeros((*shape[:-1], 2 * shape[-1] + 1), dtype=dt)
            b[..., 1::2] = x
            x = b[..., 1::2]
        elif l == "reversed":
            x = np.ascontiguousarray(x[..., ::-1])[..., ::-1]
        elif l == "readonly":
            x.flags.writeable = False
        out.append(x)
    q = Fraction(ctx.choose("q", ["0", "1/3", "1/2", "1"]))
    judge(ctx, *out, q, ctx.choose("method", METHODS))
    ctx.reach("checked")


def large(ctx):
    """Data and weights of large magnitude, whose sums are still exact in double precision."""
    dw = ctx.choose("wtype", [np.intc, np.int64, np.float32, np.float64])
    top = {"i4": 2**31 - 1, "i8": 2**51, "f4": 2**24, "f8": 2**51}[np.dtype(dw).str[1:]]
    n = ctx.choose("n", ctx.params["n"])
    w = np.array([ctx.choose(f"w{i}", [0, top, top - 1, top - 2]) for i in range(n)], dtype=dw)
    da = ctx.choose("type", [np.intc, np.int64, np.float32, np.float64])
    big = 2**31 - 1 if da is np.intc else 2**53 if da is np.int64 else 2**23
    a = np.array(ctx.choose("vals", [(big, big - 2, big - 1, big - 3), (-big, 3 - big, big, 2 - big)])[:n],
                 dtype=da)
    for q in ("0", "1/4", "1/2", "1"):
        for method in METHODS:
            judge(ctx, a, w, Fraction(q), method)
    ctx.reach("checked")


def refuse(ctx):
    from caput.algorithms import median

    A, W = np.array([1.0, 2, 3]), np.array([1.0, 1, 1])
    what = ctx.choose("what", ["shape", "transposed", "low", "high", "method", "type", "wtype"])
    want = ValueError
    q, method = 0.5, "split"
    if what == "shape":
        W = np.ones(ctx.choose("n", [1, 2, 4]))
    elif what == "transposed":
        A, W = np.ones((2, 3)), np.ones((3, 2))
    elif what == "low":
        q = -1e-9
    elif what == "high":
        q = 1 + 1e-9
    elif what == "method":
        method = ctx.choose("method", ["s", "mean", "", "Lower"])
    elif what == "type":
        A, want = A.astype(ctx.choose("t", [np.int8, np.complex128, np.float16, np.uint32])), TypeError
    else:
        W, want = W.astype(ctx.choose("t", [np.int8, np.complex128, np.float16, np.uint32])), TypeError
    ctx.checkpoint()
    try:
        median.quantile(A, W, q, method=method)
    except want:
        ctx.reach("refused")
        return
    except Exception as e:
        ctx.fail(f"refused with {type(e).__name__}")
    ctx.fail("unsuitable arguments are accepted")


def prepare(tier):
    from vp import extbuild

    extbuild.build(EXT)
    try:
        extbuild.ir(EXT)
    except RuntimeError:
        pass


def harnesses(tier):
    q = tier == "quick"
    out = []
    for n in range(1, 5 if q else 6):
        for m in METHODS:
            out.append(Harness(f"select-{n}-{m}", kernel, params={"n": n, "method": m}, weight=n * n,
                               replay_body=replay_kernel, reach=["proved"],
                               bounds=f"{n} symbolic real values and weights, 7 quantiles"))
    out.append(Harness("exact", exact, params={"n": 4 if q else 5, "wmax": 2 if q else 3}, weight=12,
                       reach=["checked"], bounds="all weights 0..2, 4 data patterns, 7 quantiles"))
    out.append(Harness("layouts", layouts, params={"median": True}, reach=["checked"], weight=12,
                       bounds="4x4 types, 7 shapes, 5x5 layouts, 4 quantiles, 3 methods"))
    out.append(Harness("large", large, params={"n": [2, 3] if q else [2, 3, 4]}, reach=["checked"], weight=12,
                       bounds="2-3 (thorough 4) elements, data and weights next to the limits of 4x4 types"))
    out.append(Harness("refuse", refuse, reach=["refused"], bounds="7 kinds of unsuitable arguments"))
    return out
