"""P20: the reciprocal is zero exactly where the true one does not exist, and lands where it should.

The C code which Cython generates is compiled by clang and the element loop is executed over IEEE
floating point terms (real types: every bit pattern of two elements, with every stride a view can
have) or exact reals (complex types). Oracle: the reciprocal correctly rounded, or zero where it is
too large for the type (the threshold is compared with the solver; that it is the right threshold
follows from its two neighbours as division is monotonic). The public function is executed in the
built extension for every combination of type, memory layouts of input and output and shape (chosen
by symbolic variables) on values next to all limits.
"""

from fractions import Fraction

import numpy as np

from props.p18 import EXTERN, slice_arg
from vp.harness import Harness

EXT = "caput.algorithms._invert_no_zero._invert_no_zero"
ASSUMPTIONS = [
    "the kernel is sequential (the OpenMP loop has independent iterations); complex division by the "
    "runtime library is exact up to 4 ulp",
    "kernel: two elements, strides up to 3 items in either direction",
    "public function: shapes of up to 12 elements, input and output either the same or disjoint",
]
KINDS = ["float64", "complex128", "float32", "complex64"]
CACHE = {}


def limit(w):
    """The largest magnitude whose reciprocal is too large."""
    one = np.float32(1) if w == 32 else np.float64(1)
    lim = type(one)(2.0**-128 if w == 32 else 2.0**-1024)
    with np.errstate(over="ignore"):
        up = np.nextafter(lim, one)
        assert np.isinf(one / lim) and np.isfinite(one / up)
    return lim


def setup(ctx, mode):
    from vp import engine, extbuild, llvm

    try:
        if "mod" not in CACHE:
            CACHE["mod"] = llvm.Module(extbuild.ir(EXT, noinline=True))
    except RuntimeError as e:
        raise engine.Skip(str(e)[:300])
    mod, k = CACHE["mod"], KINDS.index(ctx.params["kind"])
    fn = mod.find(rf"^@__pyx_fuse_{k}__pyx_f_\w*__invert_no_zero$")
    m = llvm.Machine(mod, ctx, mode, externs={**EXTERN, "@__divdc3": divide, "@_Py_NoneStruct": [[1], 0]})
    engine.ENCODED.add(f"caput/algorithms/_invert_no_zero/_invert_no_zero.pyx:_invert_no_zero"
                       f"[{ctx.params['kind']}] (LLVM IR)")
    return m, fn


def divide(m, a, b, c, d):
    """(a + ib) / (c + id) over the reals, as the runtime library does it up to rounding."""
    import z3

    r = lambda x: x if isinstance(x, z3.ExprRef) else z3.RealVal(str(Fraction(x)))  # noqa: E731
    a, b, c, d = (z3.simplify(r(v)) for v in (a, b, c, d))
    n = c * c + d * d
    p, q = z3.FreshReal("quot"), z3.FreshReal("quot")
    m.ctx.quot.append(z3.Implies(n != 0, z3.And(p * n == z3.simplify(a * c + b * d),
                                                q * n == z3.simplify(b * c - a * d))))
    return [p, q]


def views(ctx, m, item):
    """Memory and slice structs of input and output, with the offsets of the elements."""
    from vp import llvm

    out = []
    for name in ("x", "out"):
        st = ctx.choose(f"stride-{name}", [1, 2, -1, -3])
        base = m.alloc(item * (abs(st) + 1))
        first = base if st > 0 else base + item * -st
        arg = slice_arg(m, first, [2], item)
        m.store(arg + 80, (st * item) & (2**64 - 1), llvm.I[64])
        out.append((arg, [first, first + st * item]))
    return out


def k_real(ctx):
    import z3

    from vp import llvm

    w = 64 if ctx.params["kind"] == "float64" else 32
    so, ty = (z3.Float64(), llvm.DBL) if w == 64 else (z3.Float32(), llvm.FLT)
    m, fn = setup(ctx, "fp")
    ctx.ex.lazy = True
    bits = [ctx.bits(f"x{i}", w) for i in range(2)]
    x = [z3.fpBVToFP(b, so) for b in bits]
    (ax, px), (ao, po) = views(ctx, m, w // 8)
    for v, p in zip(x, px):
        m.store(p, v, ty)
    try:
        m.call(fn, [ax, ao])
    except MemoryError as e:
        ctx.fail(f"reciprocal: {e}")
    lim = z3.fpToFP(z3.RNE(), z3.FPVal(float(limit(w)), z3.Float64()), so)
    claim = []
    for v, p, q in zip(x, px, po):
        got = m.load(q, ty)
        if not isinstance(got, z3.ExprRef):
            got = z3.FPVal(float(got), so)
        if w == 64:
            inv = z3.fpDiv(z3.RNE(), z3.FPVal(1.0, so), v)
        else:  # 53 >= 2 * 24 + 2 digits: rounding twice is rounding once
            inv = z3.fpToFP(z3.RNE(), z3.fpDiv(z3.RNE(), z3.FPVal(1.0, z3.Float64()),
                                               z3.fpToFP(z3.RNE(), v, z3.Float64())), so)
        claim.append(z3.If(z3.fpLEQ(z3.fpAbs(v), lim), z3.fpIsZero(got), got == inv))
        keep = m.load(p, ty)
        claim.append(keep == v if isinstance(keep, z3.ExprRef) else z3.BoolVal(False))
    ctx.prove([], z3.And(*claim), "wrong reciprocal", timeout_ms=100000, abstract_div=True)
    ctx.reach("proved")


def k_complex(ctx):
    import z3

    from vp import llvm

    m, fn = setup(ctx, "real")
    ctx.quot = []
    x = [(ctx.real(f"re{i}"), ctx.real(f"im{i}")) for i in range(2)]
    (ax, px), (ao, po) = views(ctx, m, 16)
    for (re, im), p in zip(x, px):
        m.store(p, re, llvm.DBL)
        m.store(p + 8, im, llvm.DBL)
    try:
        m.call(fn, [ax, ao])
    except MemoryError as e:
        ctx.fail(f"reciprocal: {e}")
    L = z3.Q(1, 2**1024)
    r = lambda v: v if isinstance(v, z3.ExprRef) else z3.RealVal(str(Fraction(v)))  # noqa: E731
    for (re, im), q in zip(x, po):
        a, b = r(m.load(q, llvm.DBL)), r(m.load(q + 8, llvm.DBL))
        small = z3.And(re <= L, re >= -L, im <= L, im >= -L)
        n = re * re + im * im
        ok = z3.If(small, z3.And(a == 0, b == 0), z3.And(a * n == re, b * n == -im))
        ctx.prove(ctx.quot, ok, "wrong complex reciprocal", timeout_ms=100000)
    ctx.reach("proved")


def r_kernel(ctx):
    kind = ctx.params["kind"]
    st = [ctx.choose(f"stride-{name}", [1, 2, -1, -3]) for name in ("x", "out")]
    if kind == "complex128":
        vals = [complex(float(ctx.real(f"re{i}")), float(ctx.real(f"im{i}"))) for i in range(2)]
    else:
        w = 64 if kind == "float64" else 32
        vals = [np.dtype(f"u{w // 8}").type(ctx.bits(f"x{i}", w)).view(kind) for i in range(2)]
    arrs = []
    for s in st:
        b = np.zeros(abs(s) + 1, dtype=kind)
        arrs.append(b[::s])
    arrs[0][...] = vals
    ctx.checkpoint()
    judge(ctx, *arrs)


def ref(x):
    """Reciprocal of a numpy scalar, exactly rounded (real) or as exact fractions (complex)."""
    lim = limit(32 if x.dtype in (np.float32, np.complex64) else 64)
    if x.dtype.kind == "c":
        if abs(x.real) <= lim and abs(x.imag) <= lim:
            return 0
        if not np.isfinite(x):
            return None
        re, im = Fraction(float(x.real)), Fraction(float(x.imag))
        n = re * re + im * im
        return re / n, -im / n
    if abs(x) <= lim:
        return 0
    return type(x)(1) / x


def judge(ctx, x, out=None):
    from caput.algorithms import invert_no_zero

    x0 = np.array(x)
    with np.errstate(all="raise"):
        r = invert_no_zero(x, out) if out is not None else invert_no_zero(x)
    if out is not None:
        ctx.check(r is out, "the output is not the one given")
    compare(ctx, x0, r)
    if out is not x:
        ctx.check(np.array_equal(np.asarray(x), x0, equal_nan=True), "the input was changed")
    return r


def compare(ctx, x0, r):
    r = np.asarray(r)
    ctx.check(r.shape == x0.shape, "wrong shape", got=r.shape, want=x0.shape)
    # an output of lower precision than the reciprocal rounds it
    want_dt = r.dtype
    for idx in np.ndindex(x0.shape):
        v, g = x0[idx], r[idx]
        if v.dtype.kind in "iub":
            v = np.float64(v)
        with np.errstate(all="ignore"):
            e = ref(v)
        if e is None:
            continue
        info = {"x": repr(v), "got": repr(g), "want": repr(e)[:80]}
        if isinstance(e, tuple):
            ctx.check(np.isfinite(g), "a finite number has no finite reciprocal", **info)
            d = [Fraction(float(g.real)) - e[0], Fraction(float(g.imag)) - e[1]]
            fi = np.finfo(v.real.dtype)
            slack = 8 * Fraction(float(fi.eps)) * max(map(abs, e)) + Fraction(float(fi.smallest_subnormal))
            ctx.check(max(map(abs, d)) <= slack, "wrong reciprocal", **info)
        elif isinstance(e, int):
            ctx.check(g == 0, "not zero where there is no reciprocal", **info)
        elif np.isnan(e):
            ctx.check(np.isnan(g), "NaN is lost", **info)
        else:
            ctx.check(g == want_dt.type(e), "wrong reciprocal", **info)


def table(kind):
    f = np.finfo(np.dtype(kind).char.lower() if kind[0] == "c" else kind)
    lim = limit(64 if kind in ("float64", "complex128") else 32)
    real = [0.0, 3.0, -0.0, float(lim), -7.5, float(np.nextafter(lim, lim * 2)), float(f.max),
            float(f.smallest_subnormal), -float(lim), -float(f.max), 1e-3, float(f.tiny), np.inf, np.nan]
    if kind[0] == "f":
        return real
    return [0, 3 + 4j, complex(-0.0, 0.0), complex(lim, -lim), complex(0, 2), complex(lim * 4, lim),
            complex(f.max, f.max), -2.5, complex(float(f.tiny), float(f.tiny)), complex(1e-3, f.max / 2),
            complex(0, float(lim)), complex(float(f.max), 1)]


def lay(kind, shape, dt, fill=0):
    """An empty array in one of the memory layouts."""
    if kind == "c" or not shape:
        a = np.empty(shape, dtype=dt)
    elif kind == "f":
        a = np.empty(shape, dtype=dt, order="F")
    elif kind == "strided":
        a = np.full(tuple(2 * n + 1 for n in shape), 77, dtype=dt)[tuple(slice(1, 2 * n + 1, 2) for n in shape)]
    elif kind == "reversed":
        a = np.empty(shape, dtype=dt)[(slice(None, None, -1),) * len(shape)]
    elif kind == "axes":
        a = np.empty((*shape[1:], *shape[:1]), dtype=dt)
        a = np.moveaxis(a, -1, 0)
    else:
        a = np.empty((*shape, 2), dtype=dt)[..., 1]
    a[...] = fill
    return a


LAYS = ["c", "f", "strided", "reversed", "axes", "last"]


def arrays(ctx):
    kind = ctx.choose("type", ctx.params["kinds"])
    shape = ctx.choose("shape", [(), (1,), (5,), (0, 2), (3, 4), (1, 4), (2, 3, 2)])
    x = lay(ctx.choose("x", LAYS), shape, kind)
    t = table(kind)
    o = ctx.choose("first", [0, 5, 9])
    x[...] = np.resize(np.array(t[o:] + t[:o], dtype=kind), shape)
    how = ctx.choose("out", ["none", "same", *LAYS])
    if how != "none" and bool(ctx.bool("readonly")):
        if how == "same":
            return
        x.flags.writeable = False
    ctx.checkpoint()
    if how == "none":
        r = judge(ctx, x)
        ctx.check(r.dtype == x.dtype, "the result has another type")
        if x.flags.fnc:
            ctx.check(r.flags.f_contiguous, "the memory layout is not kept")
    elif how == "same":
        judge(ctx, x, x)
    else:
        judge(ctx, x, lay(how, shape, kind, 55))
    ctx.reach("checked")


def kinds(ctx):
    """Other things than floating point arrays."""
    from caput.algorithms import invert_no_zero

    what = ctx.choose("what", ["python", "list", "scalar", "int", "bool", "intout", "shape"])
    if what == "python":
        x = ctx.choose("v", [0, 1, -4, 0.0, 2.5, 2.0**-1024, True, False, 2j, 0j])
    elif what == "list":
        x = ctx.choose("v", [[1, 2, 0], [[0.5, 0.0], [4.0, -1.0]], (0, 1), []])
    elif what == "scalar":
        x = np.dtype(ctx.choose("t", [*KINDS, "i4", "u8", "bool"])).type(ctx.choose("v", [0, 1, 4]))
    elif what == "shape":
        x = np.ones(ctx.choose("s", [(3,), (2, 3), (1,), ()]))
        out = np.zeros(ctx.choose("o", [(4,), (3, 2), (6,), (1, 1)]))
        try:
            invert_no_zero(x, out)
        except ValueError:
            ctx.check(not out.any(), "a refused call wrote to the output")
            return ctx.reach("refused")
        ctx.fail("an output of another shape is accepted")
    else:
        dt = "bool" if what == "bool" else ctx.choose("t", ["i1", "i4", "i8", "u2", "u8"])
        x = np.array([[0, 1, 2], [3, 0, 4]]).astype(dt)
        if bool(ctx.bool("f")):
            x = np.asfortranarray(x)
        if what == "intout":
            out = lay(ctx.choose("out", LAYS), x.shape, ctx.choose("ot", ["f4", "f8"]), 9)
            r = invert_no_zero(x, out)
            ctx.check(r is out, "the output is not the one given")
            compare(ctx, np.array(x), out)
            return ctx.reach("checked")
    ctx.checkpoint()
    compare(ctx, np.array(x), invert_no_zero(x))
    ctx.reach("checked")


def prepare(tier):
    from vp import extbuild

    extbuild.build(EXT)
    try:
        extbuild.ir(EXT, noinline=True)
    except RuntimeError:
        pass


def harnesses(tier):
    out = []
    for k in ("float64", "float32"):
        out.append(Harness(f"kernel-{k}", k_real, params={"kind": k}, replay_body=r_kernel, weight=4,
                           reach=["proved"], bounds="2 elements, every bit pattern, 4x4 strides"))
    out.append(Harness("kernel-complex128", k_complex, params={"kind": "complex128"}, weight=4,
                       replay_body=r_kernel, reach=["proved"], bounds="2 exact complex elements, 4x4 strides"))
    for k in KINDS:
        out.append(Harness(f"arrays-{k}", arrays, params={"kinds": [k]}, reach=["checked"], weight=6,
                           bounds="7 shapes, 6 input and 8 output layouts, 3 fillings"))
    out.append(Harness("kinds", kinds, reach=["checked", "refused"],
                       bounds="python numbers, lists, scalars, integers, booleans, other shapes"))
    return out
