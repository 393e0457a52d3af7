"""P10: attributes and string types survive copying and files."""

import datetime
import os
import shutil
import tempfile

import numpy as np

from vp.harness import Harness

ASSUMPTIONS = [
    "attribute values: scalars (Python, numpy), text, byte strings, lists and arrays of them, "
    "dates, and dictionaries with string keys nested up to two levels with up to two entries",
    "reference forms: byte strings become text, numpy scalars Python ones; HDF5 stores lists as "
    "arrays; dictionaries are stored as JSON (tuples and arrays become lists, arrays of length "
    "one become their element, dates ISO text); zarr keeps arrays as lists",
    "text starting with the marker used for JSON is outside the claim",
    "types: compound types nested two levels with up to two fields, sub-arrays, aligned layouts",
]


def scratch():
    return tempfile.mkdtemp(prefix="p10-", dir=os.environ.get("VP_SCRATCH") or None)


DATE = datetime.datetime(2020, 1, 2, 3, 4, 5, 678)

SCALARS = {
    "int": 5, "neg": -(2**40), "float": 0.1, "true": True, "str": "text", "uni": "caf\u00e9",
    "estr": "", "bytes": b"bt", "npint": np.int32(7), "npfloat": np.float32(0.5),
    "npbool": np.bool_(True), "nparr0": np.array(3), "npstr": np.str_("ns"),
    "date": DATE, "list": [1, 2], "flist": [0.5, 1.5], "slist": ["a", "bc"],
    "blist": [b"a", b"bc"], "arr": np.arange(3), "arr1": np.array([4]),
    "arr2": np.arange(4).reshape(2, 2), "sarr": np.array([b"x", b"yz"]),
    "uarr": np.array(["x", "yz"]), "elist": [], "tuple": (1, 2), "none": None,
    "edict": {},
}
# values that can stand alone as an attribute of a file
TOP = [k for k in SCALARS if k not in ("none", "nparr0")]
INNER = [k for k in SCALARS if k not in ("sarr",)]


def text(v):
    """Byte strings become text, recursively through the standard collections and arrays."""
    if isinstance(v, bytes):
        return v.decode()
    if isinstance(v, np.ndarray):
        return v.astype(str) if v.dtype.kind == "S" else v
    if isinstance(v, (list, tuple)):
        return type(v)(text(x) for x in v)
    if isinstance(v, dict):
        return {text(k): text(x) for k, x in v.items()}
    return v


def jsonform(v):
    if isinstance(v, dict):
        return {k: jsonform(x) for k, x in v.items()}
    if isinstance(v, (list, tuple)):
        return [jsonform(x) for x in v]
    if isinstance(v, np.ndarray):
        if v.ndim and len(v) == 1:
            return jsonform(v.tolist()[0])
        return jsonform(v.tolist())
    if isinstance(v, np.generic):
        return jsonform(v.item())
    if isinstance(v, datetime.datetime):
        return v.isoformat()
    if isinstance(v, bytes):
        return v.decode()
    return v


def expected(v, dest):
    """What reading the attribute back must give."""
    if dest == "mem":
        v = text(v)
        return v.item() if isinstance(v, np.generic) else v
    if isinstance(v, (dict, datetime.datetime)):
        return jsonform(v)
    if isinstance(v, np.generic):
        return v.item()
    if dest == "zarr" and isinstance(v, np.ndarray):
        return jsonform(v)
    if dest == "hdf5" and isinstance(v, (list, tuple)):
        v = np.array(v)
    return text(v)


def eq(a, b):
    if isinstance(a, np.ndarray) or isinstance(b, np.ndarray):
        a, b = np.asarray(a), np.asarray(b)
        return a.shape == b.shape and a.tolist() == b.tolist()
    if isinstance(b, dict):
        return isinstance(a, dict) and a.keys() == b.keys() and all(eq(a[k], b[k]) for k in b)
    if isinstance(b, (list, tuple)):
        return isinstance(a, (list, tuple)) and len(a) == len(b) and all(map(eq, a, b))
    if isinstance(b, (bool, str, bytes)) or b is None:
        return type(a) is type(b) and a == b
    return a == b and type(a) is type(b)


def value(ctx, name, depth, dest):
    kinds = list(INNER if depth else TOP)
    if depth < ctx.params["depth"]:
        kinds = ["dict", *kinds]
    if dest == "zarr" and not depth:
        # JSON attributes: byte strings outside a dictionary are not representable
        kinds = [k for k in kinds if k not in ("bytes", "blist")]
    if depth > 1:
        kinds = ["int", "str", "npfloat", "npbool", "date", "arr1", "slist", "none", "bytes",
                 "nparr0"]
    k = ctx.choose(name, kinds)
    if k != "dict":
        v = SCALARS[k]
        return list(v) if isinstance(v, list) else dict(v) if isinstance(v, dict) else v
    d = {"a": value(ctx, name + "a", depth + 1, dest)}
    if depth == 0 and ctx.params["two"] and ctx.bool(name + "two"):
        d["b"] = [value(ctx, name + "b", 2, dest)]
    return d


def attrs(ctx):
    from caput import memdata
    from caput.memdata import fileformats

    dest = ctx.params["dest"]
    v = value(ctx, "v", 0, dest)
    where = ctx.choose("where", ctx.params["where"])
    src = memdata.MemGroup()
    src.create_dataset("d", data=np.arange(2))
    src.create_group("g")

    def at(t):
        return {"root": t, "d": t["d"], "g": t["g"]}[where]

    at(src).attrs["k"] = v
    at(src).attrs["other"] = "o"
    want = expected(v, dest)
    if dest == "mem":
        out = memdata.MemGroup.from_group(src)
        got = at(out).attrs["k"]
    else:
        ff = fileformats.HDF5 if dest == "hdf5" else fileformats.Zarr
        d = scratch()
        try:
            p = os.path.join(d, "f.h5" if dest == "hdf5" else "f.zarr")
            src.to_file(p, file_format=ff)
            out = memdata.MemGroup.from_file(p, file_format=ff)
            got = at(out).attrs["k"]
        finally:
            shutil.rmtree(d, ignore_errors=True)
    ctx.check(eq(got, want), "an attribute survives", got=got, want=want)
    ctx.check(at(out).attrs.get("other") == "o" and set(at(out).attrs) == {"k", "other"},
              "exactly the attributes are copied", got=list(at(out).attrs))
    ctx.check(at(src).attrs["k"] is v, "the source is left alone")
    ctx.reach("attr")


# ------------------------------------------------------------------------------ string types


def leaf(ctx, name):
    return ctx.choose(name, ctx.params["leaves"])


def dtype(ctx, name, depth):
    """A dtype with its reference description: ('s', kind, chars) | ('n', str) | fields."""
    n = ctx.concretize(ctx.int(name + "n", 1, 2)) if depth else 0
    if n == 0 or (depth < ctx.params["depth"] and not ctx.bool(name + "c")):
        k = leaf(ctx, name + "k")
        return np.dtype(k)
    fields = []
    for i in range(n):
        sub = dtype(ctx, f"{name}{i}", depth - 1)
        # sub-array shapes on the first field only (independent of the rest)
        if i == 0 and ctx.bool(f"{name}{i}s"):
            fields.append((f"f{i}", sub, (2,)))
        else:
            fields.append((f"f{i}", sub))
    align = depth == ctx.params["depth"] and bool(ctx.bool(name + "al"))
    return np.dtype(fields, align=align)


def struct(dt, conv=None):
    """Structure of a dtype, with string kinds converted for reference."""
    if dt.subdtype:
        b, sh = dt.subdtype
        return ("sub", struct(b, conv), sh)
    if dt.names:
        return tuple((n, struct(dt[n], conv)) for n in dt.names)
    k, size = dt.kind, dt.itemsize
    if k in "SU":
        chars = size if k == "S" else size // 4
        if conv and k == conv[0]:
            k = conv[1]
        return ("str", k, chars)
    return (k, size)


def kinds(dt):
    if dt.subdtype:
        return kinds(dt.subdtype[0])
    if dt.names:
        return set().union(*[kinds(dt[n]) for n in dt.names])
    return {dt.kind}


def fill(dt, n):
    def one(dt, i):
        if dt.subdtype:
            b, sh = dt.subdtype
            return [one(b, i + j) for j in range(sh[0])]
        if dt.names:
            return tuple(one(dt[m], i + 3 * j) for j, m in enumerate(dt.names))
        if dt.kind in "SU":
            s = chr(97 + i)
            return s if dt.kind == "U" else s.encode()
        return i

    return np.array([one(dt, i) for i in range(n)], dtype=dt)


def plain(v):
    if isinstance(v, np.ndarray):
        v = v.tolist()
    if isinstance(v, (list, tuple)):
        return [plain(x) for x in v]
    return v.decode() if isinstance(v, bytes) else v


def types(ctx):
    from caput.util import typeutils as tu

    dt = dtype(ctx, "t", ctx.params["depth"])
    for kind, f in (("U", tu.has_unicode), ("S", tu.has_bytestring)):
        ctx.check(bool(f(dt)) == (kind in kinds(dt)), "strings are found wherever they are nested",
                  dtype=dt, kind=kind)
    for f, c in ((tu.dtype_to_unicode, "SU"), (tu.dtype_to_bytestring, "US")):
        got = f(dt)
        ctx.check(struct(got) == struct(dt, c), "only string types are converted", got=got,
                  dtype=dt)
    a = fill(dt, 2)
    b = tu.ensure_bytestring(a)
    u = tu.ensure_unicode(a)
    ctx.check("U" not in kinds(b.dtype) and "S" not in kinds(u.dtype), "all strings are converted",
              dtype=dt)
    ctx.check(plain(a) == plain(b) == plain(u), "conversion keeps the values", dtype=dt,
              got=(b, u))
    if "U" not in kinds(dt):
        ctx.check(b is a, "nothing to convert leaves the array alone")
    if "S" not in kinds(dt):
        ctx.check(u is a, "nothing to convert leaves the array alone")
    back = tu.ensure_unicode(b)
    ctx.check(plain(back) == plain(a), "conversion there and back keeps the values", dtype=dt)
    nb = tu.ensure_native_byteorder(a)
    ctx.check(nb.shape == a.shape and plain(nb) == plain(a), "native byte order keeps the values")
    ctx.reach("types")


def harnesses(tier):
    big = tier == "thorough"
    hs = []
    for dest in ("mem", "hdf5", "zarr"):
        hs.append(Harness(f"attrs_{dest}", attrs, reach=["attr"], weight=3,
                          params=dict(dest=dest, depth=2, two=False, where=["root", "g", "d"]),
                          bounds="one attribute, dictionaries nested twice, on the root, a group "
                                 "and a dataset"))
        if dest != "mem" or big:
            hs.append(Harness(f"attrs2_{dest}", attrs, reach=["attr"], weight=4,
                              params=dict(dest=dest, depth=2 if big else 1, two=True, where=["d"]),
                              bounds="dictionaries with two entries, one a list"))
    L = ["S3", "<U3", "f8"]
    hs.append(Harness("types1", types, reach=["types"],
                      params=dict(depth=1, leaves=["S3", "<U3", ">U2", "i4", ">f8", "b1", "S1"]),
                      bounds="compound types with up to two fields"))
    hs.append(Harness("types2", types, reach=["types"], weight=6,
                      params=dict(depth=2, leaves=L + (["i1"] if big else [])),
                      bounds="compound types nested twice with up to two fields"))
    return hs
