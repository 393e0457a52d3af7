"""P28: the truncation task changes only what it may, each element within its own allowance.

The real Truncate task runs on containers whose specification, configuration and contents are chosen
by symbolic variables: per dataset the option (none, flag, precision, dictionary, preset of the
class), the type, the order of axes, which axes the weights have, in which order, and zero weights;
common or distributed over ranks. A reference computes for every element the error its weight or
precision allows and the value truncated to it; all other data must come out bit for bit the same.
"""

import warnings

import numpy as np

from vp.harness import Harness

ASSUMPTIONS = [
    "data of up to 2x3x2 elements from a table of values; weights from a table with zeros; 3 precisions",
    "the scalar truncation itself is the subject of P17 and used as reference here",
    "weights have the type of the (real part of the) data; distributed data has weights distributed like it",
]

DIMS = {"x": 2, "y": 3, "z": 2}
VALS = np.array([1.2345678901, -987.654321, 3.1415926535e-3, 0.0, 5.5e8, -1.1, 0.333333333, 77.77, -2.5e-7, 1.0, 12345.678, -0.07])
WTS = np.array([1.3, 0.0, 57.0, 1234.5, 0.021, 3.3, 9.7, 2.1e6, 0.7, 15.0, 170.0, 0.0])


def quiet():
    import logging

    warnings.simplefilter("ignore")
    logging.disable(logging.CRITICAL)


def fill(shape, table, shift, dt):
    n = int(np.prod(shape))
    x = np.resize(np.roll(table, shift), n).reshape(shape)
    if np.dtype(dt).kind == "c":
        x = x + 1j * np.resize(np.roll(table, shift + 5), n).reshape(shape)
    return x.astype(dt)


def scalar(v, e, dt):
    from caput.util import truncate

    f = truncate.bit_truncate_float if np.dtype(dt) == np.float32 else truncate.bit_truncate_double
    return [f(v, np.dtype(dt).type(e * s)) for s in (1.0, 1 - 1e-5, 1 + 1e-5)]


def ok_real(got, v, err, dt):
    for g, a, e in zip(got.ravel(), v.ravel(), err.ravel()):
        if e == 0:
            if g != a:
                return False, (float(a), float(g), 0.0)
            continue
        if abs(float(g) - float(a)) > e * 1.0001:
            return False, (float(a), float(g), float(e))
        if g not in scalar(a, e, dt):
            return False, (float(a), float(g), float(e), [float(s) for s in scalar(a, e, dt)])
    return True, None


def check_data(ctx, got, v, w, prec, vi, label):
    """The elements of got are those of v truncated as their weights allow."""
    cplx = v.dtype.kind == "c"
    for name, part in (("real", np.real), ("imag", np.imag)) if cplx else (("data", np.asarray),):
        pv, pg = part(v), part(got)
        err = np.abs(pv).astype(float) * prec
        if w is not None:
            wb = np.broadcast_to(w, v.shape).astype(float) * (2 if cplx else 1)
            with np.errstate(divide="ignore"):
                ew = np.sqrt(3 * vi / wb)
            err = np.where(wb > 0, ew, err)
        good, info = ok_real(pg, pv, err, pv.dtype)
        ctx.check(good, "an element is not the value truncated to its allowance", dataset=label, part=name, info=info)


def klass(ctx, dims, waxes, preset, dt, dist=False):
    from caput.containers import ContainerPrototype

    wdt = np.float32 if dt in (np.float32, np.complex64) else np.float64
    spec = {
        "vis": {"axes": dims, "dtype": dt, "initialise": True, "distributed": dist, "distributed_axis": dims[-1]},
        "weight": {"axes": waxes, "dtype": wdt, "initialise": True, "distributed": dist and dims[-1] in waxes,
                   "distributed_axis": dims[-1] if dims[-1] in waxes else waxes[0] if waxes else None},
        "gain": {"axes": [dims[0]], "dtype": np.float64, "initialise": True, "distributed": False, "truncate": 1e-2},
        "flag": {"axes": [dims[0]], "dtype": np.int64, "initialise": True, "distributed": False},
        "later": {"axes": [dims[0]], "dtype": np.float64, "initialise": False, "truncate": True},
    }
    if preset is not None:
        spec["vis"]["truncate"] = preset
    ns = {"_axes": ("x", "y", "z"), "_dataset_spec": spec}
    return type("Cube", (ContainerPrototype,), ns)


OPTS = ["unset", False, True, 1e-3, "prec", "weights", "weights-prec", "by-name"]


def opt(o):
    if o == "prec":
        return {"fixed_precision": 3e-6}
    if o == "weights":
        return {"weight_dataset": "weight"}
    if o == "weights-prec":
        return {"weight_dataset": "weight", "fixed_precision": 1e-2, "variance_increase": 0.01}
    if o == "by-name":
        return {"weight_dataset": "wprop", "variance_increase": 1e-5}
    return o


def allow(o):
    """(weighted, precision, variance increase) of an option, or None."""
    if o in (None, False, "unset"):
        return None
    if o is True:
        return False, 1e-4, None
    if isinstance(o, float):
        return False, o, None
    return "weight_dataset" in o, o.get("fixed_precision", 1e-4), o.get("variance_increase", 1e-3)


ORDERS = [("x", "y", "z"), ("z", "x", "y"), ("y", "x")]


def wshapes(dims):
    out = [list(dims), [dims[0]], [dims[-1]], list(dims[::-1])]
    if len(dims) == 3:
        out += [[dims[2], dims[0]], [dims[1], dims[0], dims[2]]]
    return out


def task(ctx):
    from caput.pipeline.tasklib.io import Truncate

    quiet()
    dims = ctx.params["dims"]
    conf = ctx.choose("config", OPTS)
    preset = ctx.choose("preset", [None, "weights-prec", 1e-2, True]) if conf in ("unset", False, True) else None
    cfgd = opt(conf)
    eff = cfgd if conf != "unset" else opt(preset)
    al = allow(eff)
    weighted = bool(al and al[0])
    waxes = ctx.choose("waxes", wshapes(dims)) if weighted else list(dims)
    dt = ctx.choose("dtype", [np.float32, np.float64, np.complex64, np.complex128])
    shift = ctx.concretize(ctx.int("shift", 0, ctx.params["shift"]))
    gain = ctx.choose("gain", ["unset", False, 1e-5]) if conf in ("unset", 1e-3) else "unset"
    lay = ctx.choose("layout", ["C", "F"]) if conf in ("weights", True) else "C"
    C = klass(ctx, dims, waxes, opt(preset), dt)
    C.wprop = property(lambda s: s["weight"])
    c = C(**DIMS, distributed=False)
    v = fill(c["vis"].shape, VALS, shift, dt)
    w = fill(c["weight"].shape, WTS, shift, c["weight"].dtype)
    if lay == "F":
        c._data._storage_root["vis"]._data = np.asfortranarray(v)
    c["vis"][:], c["weight"][:] = v, w
    c["gain"][:] = g = VALS[:DIMS[dims[0]]] * 1.7
    c["flag"][:] = [3] * DIMS[dims[0]]
    c.attrs["a"] = 1
    ds = {}
    if conf != "unset":
        ds["vis"] = cfgd
    if gain != "unset":
        ds["gain"] = gain
    import copy

    before = copy.deepcopy((C._dataset_spec, ds))
    t = Truncate._from_config({"dataset": ds, "nan_check": False} if ds or bool(ctx.bool("empty")) else {"nan_check": False})
    out = t.next(c)
    again = conf in ("prec", True) and bool(ctx.bool("twice"))
    if again:
        first = c["vis"][:].copy()
        out = t.next(c)
    ctx.check(out is c, "another container is returned")
    got = c["vis"][:]
    ctx.check(got.shape == v.shape and got.dtype == v.dtype, "the shape or type has changed")
    if al is None:
        ctx.check(np.array_equal(got, v), "a dataset which is not to be truncated was changed")
        ctx.reach("kept")
    else:
        wb = None
        if weighted:
            wb = w.transpose([waxes.index(d) for d in dims if d in waxes])
            wb = wb.reshape([DIMS[d] if d in waxes else 1 for d in dims])
        check_data(ctx, first if again else got, v, wb, al[1], al[2], "vis")
        ctx.reach("weighted" if weighted else "fixed")
        if again and not weighted:
            check_data(ctx, got, first, wb, al[1], al[2], "vis again")
        if al[1] <= 1e-2:
            ctx.check(not np.array_equal(got, v), "nothing was truncated")
    ge = 1e-2 if gain == "unset" else gain
    gg = c["gain"][:]
    if ge is False:
        ctx.check(np.array_equal(gg, g), "a dataset which is not to be truncated was changed", dataset="gain")
    elif not again:
        check_data(ctx, gg, g, None, ge, None, "gain")
    ctx.check(np.array_equal(c["weight"][:], w) and (c["flag"][:] == 3).all() and "later" not in c
              and c.attrs["a"] == 1 and all(len(c.index_map[k]) == n for k, n in DIMS.items()), "other data was changed")
    ctx.check((C._dataset_spec, ds) == before, "the options were changed")
    ctx.reach("done")


# ------------------------------------------------------------------ several ranks


def r_setup(ctx):
    dims = ctx.choose("dims", ORDERS)
    return dict(dims=dims, waxes=ctx.choose("waxes", [w for w in wshapes(dims)]), shift=ctx.concretize(ctx.int("shift", 0, 2)),
                dt=ctx.choose("dtype", [np.float64, np.complex64]), weighted=bool(ctx.bool("weighted")))


def r_rank(ctx, comm, inp):
    from caput.pipeline.tasklib.io import Truncate

    quiet()
    dims, waxes, dt = inp["dims"], inp["waxes"], inp["dt"]
    C = klass(ctx, dims, waxes, {"weight_dataset": "weight"} if inp["weighted"] else 1e-3, dt, dist=True)
    c = C(**DIMS, comm=comm)
    whole = fill([DIMS[d] for d in dims], VALS, inp["shift"], dt)
    ww = fill([DIMS[d] for d in waxes], WTS, inp["shift"], c["weight"].dtype)

    def local(ds, x):
        if not ds.distributed:
            return x
        return x[tuple(slice(o, o + n) for o, n in zip(ds.local_offset, ds.local_shape))]

    for n, x in (("vis", whole), ("weight", ww)):
        c[n][:] = local(c[n], x)
    c["gain"][:], c["flag"][:] = 1.0, 1
    t = Truncate._from_config({"nan_check": False})
    t.comm = comm
    t.next(c)
    d = c["vis"]
    off = tuple(d.local_offset) if d.distributed else (0,) * len(dims)
    return dict(off=off, x=np.asarray(d[:].view(np.ndarray)).copy(), w=np.array_equal(c["weight"][:].view(np.ndarray), local(c["weight"], ww)))


def r_final(ctx, results, inp):
    from props import mpicommon as mc

    vals = mc.all_ok(ctx, results, "the task")
    dims, waxes, dt = inp["dims"], inp["waxes"], inp["dt"]
    whole = fill([DIMS[d] for d in dims], VALS, inp["shift"], dt)
    ww = fill([DIMS[d] for d in waxes], WTS, inp["shift"], np.float64 if dt is np.float64 else np.float32)
    got = np.full_like(whole, 1e33)
    for r in vals:
        ctx.check(r["w"], "the weights were changed")
        got[tuple(slice(o, o + n) for o, n in zip(r["off"], r["x"].shape))] = r["x"]
    wb = ww.transpose([waxes.index(d) for d in dims if d in waxes]).reshape([DIMS[d] if d in waxes else 1 for d in dims])
    if inp["weighted"]:
        check_data(ctx, got, whole, wb, 1e-4, 1e-3, "vis")
    else:
        check_data(ctx, got, whole, None, 1e-3, None, "vis")
    ctx.reach("done")


def harnesses(tier):
    q = tier == "quick"
    out = [Harness(f"task-{''.join(d)}", task, params={"dims": d, "shift": 1 if q else 4}, reach=["kept", "weighted", "fixed", "done"],
                   weight=6, bounds="8 options, 4 presets, 4-6 shapes of weights, 4 types, 2 (thorough 5) contents") for d in ORDERS]
    for n in (1, 2) if q else (1, 2, 3, 4):
        out.append(Harness(f"ranks-{n}", setup=r_setup, rank=r_rank, final=r_final, nranks=n, reach=["done"], weight=3,
                           bounds=f"{n} ranks, 3 orders of axes, 6 shapes of weights"))
    return out
