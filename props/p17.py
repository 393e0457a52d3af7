"""P17: truncation stays within the error that was asked for, and removes the bits it may remove.

The C++ kernels are compiled by clang and their LLVM IR is executed over bit vectors and IEEE
floating point terms: one query covers every pair of value and error (all bit patterns). The spec is
stated on integers: with the error in units of the last place of the value, the result is the value
rounded half to even to a multiple of the largest power of two not above twice the error.
Counterexamples are replayed on the compiled extension. The array functions are executed in the
compiled extension (built from the current source) on arrays whose layout, values, weights and
precisions are chosen by symbolic variables, against the same specification in exact rationals.
"""

import os
from fractions import Fraction

import numpy as np

from vp import env
from vp.harness import Harness

ASSUMPTIONS = [
    "kernels: all finite values and all finite errors >= 0 (NaN and infinite values excluded); "
    "values with an exponent field below 24 (float) or 53 (double) only have to stay within the error",
    "float to integer conversion out of range follows x86 (the result is the smallest integer)",
    "array functions: up to 5 elements from a table of values and weights, 6 memory layouts",
    "errors derived from weights are computed in the element type: 1e-6 / 1e-14 relative slack",
    "integers: 0 <= err < 2**30 (2**62), |val| + err representable",
]

W = """#include <cstdint>
#include "caput/util/truncate.hpp"
extern "C" float kf(float v, float e) { return _bit_truncate_float(v, e); }
extern "C" double kd(double v, double e) { return _bit_truncate_double(v, e); }
extern "C" int32_t ki(int32_t v, int32_t e) { return bit_truncate(v, e); }
extern "C" int64_t kl(int64_t v, int64_t e) { return bit_truncate_64(v, e); }
"""


def machine(ctx, what):
    from vp import engine, llvm

    try:
        mod = llvm.compile_text(W, [env.REPO])
    except RuntimeError as e:
        raise engine.Skip(f"kernels not found under their names: {str(e)[:200]}")
    engine.ENCODED.add("caput/util/truncate.hpp:" + what + " (LLVM IR)")
    return llvm.Machine(mod, ctx, "fp")


def smear(x):
    import z3

    k = 1
    while k < x.size():
        x = x | z3.LShR(x, k)
        k *= 2
    return x


def k_int(ctx):
    """The integer kernel: nearest multiple of the power of two above err, ties to even."""
    import z3

    w = ctx.params["w"]
    m = machine(ctx, "bit_truncate" if w == 32 else "bit_truncate_64")
    v, e = ctx.bits("v", w), ctx.bits("e", w)
    r = m.call("@ki" if w == 32 else "@kl", [v, e])
    N = w + 4
    V, E, R = (z3.SignExt(N - w, x) for x in (v, e, r))
    mask = smear(E)
    g = mask + 1
    D = z3.If(R >= V, R - V, V - R)
    lim = z3.BitVecVal((1 << (w - 1)) - 1, N)
    ok = z3.And(D <= E, R & mask == 0, 2 * D <= g, z3.Implies(z3.And(2 * D == g, E != 0), R & g == 0))
    ctx.prove([e >= 0, e < (1 << (w - 2)), V + g <= lim, V - g >= -lim], ok,
              "integer truncation is not the nearest multiple", timeout_ms=400000)
    ctx.reach("proved")


def signed(x, w):
    return x - (1 << w) if x >> (w - 1) else x


def r_int(ctx):
    from caput.util import truncate

    w = ctx.params["w"]
    v, e = signed(ctx.bits("v", w), w), signed(ctx.bits("e", w), w)
    lim = (1 << (w - 1)) - 1
    g = 1 << e.bit_length()
    if not (0 <= e < 1 << (w - 2) and v + g <= lim and v - g >= -lim):
        return
    r = (truncate.bit_truncate_int if w == 32 else truncate.bit_truncate_long)(v, e)
    check_rounded(ctx, Fraction(v), Fraction(r), Fraction(e), Fraction(e), 1)


def k_float(ctx):
    """The floating point kernel over every bit pattern of value and error."""
    import z3

    from vp import llvm

    w, mode = ctx.params["w"], ctx.params["mode"]
    mant = 23 if w == 32 else 52
    ew = w - 1 - mant
    so = z3.Float32() if w == 32 else z3.Float64()
    m = machine(ctx, "_bit_truncate_float" if w == 32 else "_bit_truncate_double")
    v, e = ctx.bits("v", w), ctx.bits("e", w)
    P, mn, sg = z3.Extract(w - 2, mant, v), z3.Extract(mant - 1, 0, v), z3.Extract(w - 1, w - 1, v)
    r = m.call("@kf" if w == 32 else "@kd", [z3.fpBVToFP(v, so), z3.fpBVToFP(e, so)])
    rb = m.bitcast(r, llvm.DBL if w == 64 else llvm.FLT, llvm.I[w])
    rp, rm = z3.Extract(w - 2, mant, rb), z3.Extract(mant - 1, 0, rb)
    N = 2 * w
    c = lambda x: z3.BitVecVal(x, N)  # noqa: E731
    imp = c(1 << mant)
    top = (1 << ew) - 1
    vm = z3.ZeroExt(N - mant, mn) + z3.If(P == 0, c(0), imp)
    R0 = z3.ZeroExt(N - mant, rm) + z3.If(rp == 0, c(0), imp)
    zero = z3.And(rp == 0, rm == 0)
    one = z3.BitVecVal(1, ew)
    Px, rx = z3.If(P == 0, one, P), z3.If(rp == 0, one, rp)
    R = z3.If(zero, c(0), z3.If(rx == Px, R0, R0 * 2))
    shape = z3.And(z3.Extract(w - 1, w - 1, rb) == sg, rp != top,
                   z3.Or(zero, rx == Px, z3.And(rx == Px + 1, rm == 0)))
    D = z3.If(z3.UGE(R, vm), R - vm, vm - R)
    ee = z3.Extract(w - 2, mant, e)
    em = z3.ZeroExt(N - mant, z3.Extract(mant - 1, 0, e)) + z3.If(ee == 0, c(0), imp)
    E, Pn = z3.ZeroExt(N - ew, z3.If(ee == 0, one, ee)), z3.ZeroExt(N - ew, Px)
    # the error in units of the last place of the value, rounded down (capped where all goes)
    ie = z3.If(z3.UGE(E, Pn + 4), c(1 << (mant + 5)),
               z3.If(z3.UGE(E, Pn), em << (E - Pn), z3.LShR(em, Pn - E)))
    pre = [z3.Extract(w - 1, w - 1, e) == 0, ee != top, P != top]
    if mode == "bound":
        ctx.prove(pre, z3.And(shape, z3.ULE(D, ie)), "truncation exceeds the error",
                  timeout_ms=400000)
    else:
        mask = smear(ie)
        g = mask + 1
        ok = z3.And(shape, R & mask == 0, z3.ULE(2 * D, g),
                    z3.Implies(2 * D == g, z3.Or(mask == 0, R & g == 0)))
        lo = 24 if w == 32 else 53
        # the largest finite binade may have no multiple to round up to
        ctx.prove([*pre, z3.UGE(P, lo), z3.ULT(P, top - 1)], ok,
                  "truncation does not round to the nearest multiple", timeout_ms=400000)
    ctx.reach("proved")


def value(bits, w):
    return (np.uint32(bits).view(np.float32) if w == 32 else np.uint64(bits).view(np.float64))


def r_float(ctx):
    from caput.util import truncate

    w, mode = ctx.params["w"], ctx.params["mode"]
    v, e = value(ctx.bits("v", w), w), value(ctx.bits("e", w), w)
    if not (np.isfinite(v) and np.isfinite(e)) or np.signbit(e):
        return
    f = truncate.bit_truncate_float if w == 32 else truncate.bit_truncate_double
    r = f(float(v), float(e))
    judge(ctx, v, r, Fraction(float(e)), Fraction(float(e)), mode == "round")


TINY = {4: 2.0**-100, 8: 2.0**-960}
BIG = {4: 2.0**126, 8: 2.0**1022}


def judge(ctx, v, r, lo, hi, exact=True, msg=""):
    """v (numpy scalar) became r: error at most hi, bits below what lo allows removed."""
    ctx.check(np.isfinite(r), "a finite value became infinite or NaN" + msg)
    ctx.check(bool(np.signbit(r)) == bool(np.signbit(v)), "truncation changed the sign" + msg)
    V, R = Fraction(float(v)), Fraction(float(r))
    it = v.dtype.itemsize
    if not (exact and TINY[it] <= abs(v) < BIG[it]):
        ctx.check(abs(V - R) <= hi, "truncation exceeds the error" + msg)
        return
    mant = 23 if it == 4 else 52
    ulp = Fraction(2) ** (int(np.frexp(np.abs(v))[1]) - 1 - mant)
    check_rounded(ctx, V, R, lo, hi, ulp, msg)


def check_rounded(ctx, V, R, lo, hi, ulp, msg=""):
    D = abs(R - V)
    ctx.check(D <= hi, "truncation exceeds the error" + msg, v=str(V), r=str(R))
    g = ulp * (1 << int(lo / ulp).bit_length())
    ctx.check((R / g).denominator == 1, "bits within the error are left" + msg, v=str(V), r=str(R))
    gh = ulp * (1 << int(hi / ulp).bit_length())
    ctx.check(2 * D <= gh, "not rounded to the nearest multiple" + msg, v=str(V), r=str(R))
    if g == gh and 2 * D == g and lo >= ulp:
        ctx.check((R / g) % 2 == 0, "tie not rounded to even" + msg, v=str(V), r=str(R))


MANT = [0, 1, 2, 3, 0x200000, 0x400000, 0x400001, 0x5A5A5A, 0x7FFFFF, 0x7FFFFE, 0x3FFFFF]


def scalar(ctx):
    """The public scalar functions on exponents and mantissas spread over the whole range."""
    from caput.util import truncate

    w = ctx.params["w"]
    mant, ew = (23, 8) if w == 32 else (52, 11)
    top = (1 << ew) - 1
    exps = sorted({0, 1, 2, 22, 23, 24, 51, 52, 53, top // 2 - mant, top // 2 - 3, top // 2,
                   top // 2 + 1, top // 2 + mant, top - 2, top - 1} - set([60]))
    exps = [x for x in exps if 0 <= x < top]
    P = ctx.choose("exp", exps)
    m = ctx.choose("mant", MANT) << (mant - 23)
    if w == 64 and bool(ctx.bool("low")):
        m |= 0x15555555
    neg = bool(ctx.bool("neg"))
    v = value((int(neg) << (w - 1)) | P << mant | m, w)
    f = truncate.bit_truncate_float if w == 32 else truncate.bit_truncate_double
    for d in (*range(-mant - 3, 3), 5, 40, -200, 200):
        if not 0 < P + d < top:
            continue
        for em in (0, 1, (1 << mant) - 1, 3 << (mant - 2)):
            e = value((P + d) << mant | em, w)
            judge(ctx, v, f(float(v), float(e)), Fraction(float(e)), Fraction(float(e)))
    for e in (0.0, float(value(1, w)), float(value(top << mant, w).dtype.type(1e30))):
        judge(ctx, v, f(float(v), e), Fraction(e), Fraction(e))
    try:
        f(float(v), float("nan"))
        ctx.fail("a NaN error is accepted")
    except ValueError:
        pass
    ctx.reach("checked")


VALS = [0.0, 1.0, -1.0, 32.121, -32.121, 3.0e-9, -7.7e11, 0.1, 255.75, -0.3333333333333333,
        1.2e-32, -2.5e30]
WTS = [0.0, 1.0, 0.03125, 1e4, 3.7e-6, 2.5e9, 4.0]
PREC = [0.0, 0.1, 1e-3, 1.0 / 32, 1e-7, 2.0]


def layout(ctx, n, dt, tag):
    """(parent array, view of n elements, boolean mask of the view inside the parent)."""
    kind = ctx.choose(tag, ["contiguous", "offset", "strided", "reversed", "real", "imag", "column"])
    if kind in ("real", "imag"):
        p = np.zeros(n, dtype=np.complex64 if dt == np.float32 else np.complex128)
        return p, (p.real if kind == "real" else p.imag)
    if kind == "column":
        p = np.zeros((n, 3), dtype=dt)
        return p, p[:, 1]
    p = np.zeros(2 * n + 3, dtype=dt)
    if kind == "contiguous":
        p = np.zeros(n, dtype=dt)
        return p, p
    if kind == "offset":
        return p, p[1:n + 1]
    if kind == "strided":
        return p, p[1:1 + 2 * n:2]
    return p, p[1:1 + 2 * n:2][::-1]


def arrays(ctx, n, dt):
    parent, v = layout(ctx, n, dt, "layout")
    raw = parent.reshape(-1).view(dt)
    raw[...] = 0.7071067811865476
    s, t = ctx.choose("vals", range(len(VALS))), ctx.choose("step", (1, 5))
    v[...] = [VALS[(s + t * i) % len(VALS)] for i in range(n)]
    return parent, v


def outcome(ctx, fn, parent, v, args):
    """Call fn; the view is modified in place and nothing else of the parent is."""
    old = v.copy()
    res = fn(v, *args)
    ctx.check(isinstance(res, np.ndarray) and res.dtype == old.dtype and res.shape == old.shape,
              "the truncated array has another type or shape")
    ctx.check(res.size == 0 or np.shares_memory(res, v), "the values are not modified in place")
    ctx.check(np.array_equal(res, v), "the returned array is not the modified one")
    new = v.copy()
    v[...] = 0.7071067811865476
    flat = parent.reshape(-1).view(old.real.dtype)
    ctx.check(bool((flat == old.real.dtype.type(0.7071067811865476)).all())
              if v.dtype.kind == "f" else True, "memory outside of the array was changed")
    return old, new


def slack(err, it):
    """Rounding of the error itself in the element type."""
    k = Fraction(1, 10**6 if it == 4 else 10**14)
    return err * (1 - k), err * (1 + k)


def root(x, up):
    """sqrt of a Fraction to ~1e-20 relative accuracy."""
    from math import isqrt

    k = 0
    while x.numerator << (2 * k) < x.denominator << 160:
        k += 8
    s = isqrt((x.numerator << (2 * k)) // x.denominator) + (1 if up else 0)
    return Fraction(s, 1 << k)


def weights(ctx):
    from caput.util import truncate

    dt = np.float32 if ctx.params["w"] == 32 else np.float64
    n = ctx.concretize(ctx.int("n", 0, ctx.params["n"]))
    parent, v = arrays(ctx, n, dt)
    s = ctx.choose("wts", range(len(WTS)))
    fb = float(dt(ctx.choose("fallback", PREC)))
    wts = np.array([WTS[(s + 3 * i) % len(WTS)] for i in range(n)], dtype=dt)
    if bool(ctx.bool("wstrided")):
        big = np.full(3 * n, 9.0, dtype=dt)
        big[::3] = wts
        wts = big[::3]
    w0 = wts.copy()
    old, new = outcome(ctx, truncate.bit_truncate_weights, parent, v, (wts, fb))
    ctx.check(np.array_equal(wts, w0), "the weights were changed")
    for i in range(n):
        if w0[i] != 0:
            q = 1 / Fraction(float(w0[i]))
            lo, hi = slack(root(q, False), dt().itemsize)[0], slack(root(q, True), dt().itemsize)[1]
        else:
            lo, hi = slack(abs(Fraction(fb) * Fraction(float(old[i]))), dt().itemsize)
            ctx.reach("fallback")
        judge(ctx, old[i], new[i], lo, hi, msg=" (weights)")
    ctx.reach("checked")


def relative(ctx):
    from caput.util import truncate

    dt = np.float32 if ctx.params["w"] == 32 else np.float64
    n = ctx.concretize(ctx.int("n", 0, ctx.params["n"]))
    parent, v = arrays(ctx, n, dt)
    pr = float(dt(ctx.choose("prec", PREC)))
    old, new = outcome(ctx, truncate.bit_truncate_relative, parent, v, (pr,))
    for i in range(n):
        lo, hi = slack(abs(Fraction(pr) * Fraction(float(old[i]))), dt().itemsize)
        judge(ctx, old[i], new[i], lo, hi, msg=" (relative)")
    ctx.reach("checked")


def cmax(ctx):
    """Complex rows: the error is relative to the element or to the largest of its row."""
    from caput.util import truncate

    r = ctx.concretize(ctx.int("rows", 0, 2))
    n = ctx.concretize(ctx.int("n", 0, ctx.params["n"]))
    s, t = ctx.choose("vals", range(len(VALS))), ctx.choose("step", (1, 5))
    lay = ctx.choose("layout", ["c", "f", "strided"])
    vals = np.array([VALS[(s + t * i) % len(VALS)] + 1j * VALS[(s + 2 + t * i * 2) % len(VALS)]
                     for i in range(r * n)], dtype=complex).reshape(r, n)
    big = np.full((2 * r, 2 * n), 0.25 + 0.5j)
    v = np.array(vals, order="F") if lay == "f" else vals.copy() if lay == "c" else big[::2, 1::2]
    v[...] = vals
    # the precisions are single precision numbers
    p1 = float(np.float32(ctx.choose("prec", PREC + [1e-12])))
    p2 = float(np.float32(ctx.choose("rowprec", [0.0, 1e-3, 1e-10])))
    res = truncate.bit_truncate_max_complex(v, p1, p2)
    ctx.check(res.size == 0 or np.shares_memory(res, v), "the values are not modified in place")
    ctx.check(np.array_equal(res, v), "the returned array is not the modified one")
    if lay == "strided":
        rest = big.copy()
        rest[::2, 1::2] = 0.25 + 0.5j
        ctx.check(bool((rest == 0.25 + 0.5j).all()), "memory outside of the array was changed")
    sq = lambda z: Fraction(z.real) ** 2 + Fraction(z.imag) ** 2  # noqa: E731
    for i in range(r):
        mx = max((sq(z) for z in vals[i].tolist()), default=Fraction(0))
        for j in range(n):
            z, y = vals[i, j], v[i, j]
            a = [x for x in (sq(z) * Fraction(p1) ** 2, mx * Fraction(p2) ** 2)]
            lo = max(root(x, False) if x else Fraction(0) for x in a) * (1 - Fraction(1, 10**6))
            hi = max(root(x, True) if x else Fraction(0) for x in a) * (1 + Fraction(1, 10**6))
            for c, d in ((z.real, y.real), (z.imag, y.imag)):
                ctx.check(abs(Fraction(c) - Fraction(float(d))) <= hi,
                          "truncation exceeds the error (complex)", v=c, r=d, err=float(hi))
                ulp = Fraction(2) ** (int(np.frexp(abs(c))[1]) - 53) if c else None
                if ulp and abs(c) > 1e-25:
                    g = ulp * (1 << int(lo / ulp).bit_length())
                    ctx.check((Fraction(float(d)) / g).denominator == 1,
                              "bits within the error are left (complex)", v=c, r=d)
    ctx.reach("checked")


def refuse(ctx):
    """Arguments which do not fit are refused and leave the values alone."""
    from caput.util import truncate

    dt = [np.float32, np.float64, np.int32, np.complex64]
    a, b = ctx.choose("type", dt), ctx.choose("wtype", dt)
    n, m = ctx.concretize(ctx.int("n", 1, 3)), ctx.concretize(ctx.int("m", 1, 3))
    v, w = np.full(n, 3, dtype=a), np.full(m, 4, dtype=b)
    if a == b and a in (np.float32, np.float64):
        if n == m:
            return
        with_error, call = ValueError, lambda: truncate.bit_truncate_weights(v, w, 0.1)
    elif bool(ctx.bool("relative")) and a not in (np.float32, np.float64):
        with_error, call = RuntimeError, lambda: truncate.bit_truncate_relative(v, 0.1)
    else:
        with_error, call = RuntimeError, lambda: truncate.bit_truncate_weights(v, w, 0.1)
    try:
        call()
    except with_error:
        ctx.check(bool((v == 3).all()), "refused, but the values were changed")
        ctx.reach("refused")
        return
    except Exception as e:
        ctx.fail(f"refused with {type(e).__name__}")
    ctx.fail("truncation of unsuitable arrays is accepted")


def prepare(tier):
    """Build the extension once, before the parallel jobs need it."""
    from vp import extbuild

    extbuild.build("caput.util.truncate")


def harnesses(tier):
    q = tier == "quick"
    n = 3 if q else 5
    out = []
    for w in (32, 64):
        out.append(Harness(f"kernel-int{w}", k_int, params={"w": w}, replay_body=r_int,
                           reach=["proved"], bounds=f"all {w}-bit values and errors", weight=9))
        for mode in ("bound", "round"):
            out.append(Harness(f"kernel-float{w}-{mode}", k_float, params={"w": w, "mode": mode},
                               replay_body=r_float, reach=["proved"], weight=10,
                               bounds=f"all {w}-bit patterns of value and error"))
        out.append(Harness(f"scalar{w}", scalar, params={"w": w}, reach=["checked"], weight=5,
                           bounds="16 exponents x 11 mantissas x sign x ~200 errors"))
        out.append(Harness(f"weights{w}", weights, params={"w": w, "n": n - 1}, weight=6,
                           reach=["checked", "fallback"], bounds=f"up to {n - 1} elements, 7 layouts"))
        out.append(Harness(f"relative{w}", relative, params={"w": w, "n": n}, weight=4,
                           reach=["checked"], bounds=f"up to {n} elements, 7 layouts"))
    out.append(Harness("complex", cmax, params={"n": 2 if q else 3}, reach=["checked"], weight=6,
                       bounds=f"up to 2x{2 if q else 3} elements, 3 layouts"))
    out.append(Harness("refuse", refuse, reach=["refused"], bounds="4x4 types, up to 3 elements"))
    return out
