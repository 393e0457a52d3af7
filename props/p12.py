"""P12: datasets keep their contents when converted between common and distributed."""

import warnings

import numpy as np

from vp.harness import Harness
from . import mpicommon as mc
from .p09 import same

ASSUMPTIONS = [
    "in-memory groups and containers wrapping them; one dataset at the root or in a group; "
    "elements are distinct tokens",
    "histories of up to 3 conversions and redistributions, each through the current or an "
    "earlier handle of the dataset",
]


def setup(ctx):
    nd = ctx.concretize(ctx.int("nd", 1, ctx.params["nd"]))
    shape = tuple(ctx.concretize(ctx.int(f"n{i}", 0 if i == 0 else 1, ctx.params["dims"][i]))
                  for i in range(nd))
    ops = []
    for i in range(ctx.params["ops"]):
        k = ctx.choose(f"op{i}", ["c2d", "d2c", "red"])
        ax = 0 if k == "d2c" else ctx.concretize(ctx.int(f"ax{i}", -nd if i == 0 else 0, nd - 1))
        ops.append((k, ax))
    cont = bool(ctx.bool("cont"))
    return dict(shape=shape, ops=ops, cont=cont, path="g/d" if cont else "d",
                start=ctx.choose("start", ["common", "dist", "shape"]),
                dt=ctx.choose("dt", ctx.params["dts"]),
                old=any(k == "red" for k, _ in ops) and bool(ctx.bool("old")))


def rank(ctx, comm, inp):
    from caput import memdata

    warnings.simplefilter("ignore")
    cls = memdata.MemDiskGroup if inp["cont"] else memdata.MemGroup
    root = cls(distributed=True, comm=comm)
    g = mc.glob(inp["shape"], {"i8": np.int64, "c8": np.complex64, "S3": "S3"}[inp["dt"]])
    opts = dict(chunks=tuple(max(1, n) for n in inp["shape"]))
    if inp["start"] == "common":
        d = root.create_dataset(inp["path"], data=g.copy(), **opts)
    elif inp["start"] == "dist":
        d = root.create_dataset(inp["path"], data=mc.make(g, 0, comm), distributed=True, **opts)
    else:
        d = root.create_dataset(inp["path"], shape=g.shape, dtype=g.dtype, distributed=True,
                                distributed_axis=0, **opts)
        d.local_data[...] = mc.local_of(g, 0, comm)
    d.attrs["unit"] = "K"
    d.attrs["cfg"] = {"a": [1]}
    root.create_dataset("other", data=np.arange(3))
    first = d
    log = []
    for k, ax in inp["ops"]:
        try:
            if k == "c2d":
                d = root.dataset_common_to_distributed(inp["path"], distributed_axis=ax)
            elif k == "d2c":
                d = root.dataset_distributed_to_common(inp["path"])
            else:
                t = first if inp["old"] else root[inp["path"]]
                t.redistribute(ax)
            log.append("ok")
        except Exception as e:
            log.append(type(e).__name__)
        cur = root[inp["path"]]
        log.append((bool(cur.distributed), int(cur.distributed_axis) if cur.distributed else None,
                    tuple(int(x) for x in cur.shape), np.array(cur.local_data),
                    str(cur.dtype), dict(cur.attrs), cur.chunks, cur.name,
                    (bool(d.distributed), np.array(d.local_data)) if k != "red" else None))
    return dict(log=log, other=np.array(root["other"][:]), keys=sorted(root), rank=comm.rank,
                size=comm.size,
                held=(first.distributed, np.array(first.local_data),
                      int(first.distributed_axis) if first.distributed else None))


class _R:
    def __init__(self, rank, size):
        self.rank, self.size = rank, size


def final(ctx, results, inp):
    g = mc.glob(inp["shape"], {"i8": np.int64, "c8": np.complex64, "S3": "S3"}[inp["dt"]])
    nd = g.ndim
    for r, (st, v) in enumerate(results):
        ctx.check(st == "ok", "no unexpected error", rank=r, got=v)
        me = _R(v["rank"], v["size"])
        dist = inp["start"] != "common"
        ax = 0
        replaced = False
        oldax = 0
        for i, (k, a) in enumerate(inp["ops"]):
            res, now = v["log"][2 * i], v["log"][2 * i + 1]
            a = a % nd
            if k == "c2d":
                if not dist:
                    replaced = True
                dist, ax = True, a
            elif k == "d2c":
                if dist:
                    replaced = True
                dist = False
            else:
                if inp["old"] and replaced:
                    return  # a handle of the replaced dataset: outside the claim
                if dist:
                    ctx.check(res == "ok", "a distributed dataset can be redistributed", got=res)
                    ax = a
                else:
                    ctx.check(res != "ok", "a common dataset has no distribution")
            if k != "red":
                ctx.check(res == "ok", "conversion succeeds", got=res, op=k)
            isd, nax, shp, loc, dts, at, ch, name, ret = now
            ctx.check(isd == dist, "the dataset is of the requested kind", op=k)
            ctx.check(shp == g.shape, "global shape", got=shp)
            ctx.check(dts == str(g.dtype), "type", got=dts)
            want = mc.local_of(g, ax, me) if dist else g
            if dist:
                ctx.check(nax % nd == ax, "distributed axis", got=nax, want=ax)
            ctx.check(same(loc, want), "every element is kept", op=k, axis=ax, got=loc, want=want)
            ctx.check(at == {"unit": "K", "cfg": {"a": [1]}}, "attributes are kept", got=at)
            ctx.check(ch == tuple(max(1, n) for n in inp["shape"]), "chunks are kept")
            ctx.check(name == "/" + inp["path"], "name")
            if ret is not None:
                ctx.check(ret[0] == dist and same(ret[1], want), "the returned dataset is the one "
                          "in the group")
            ctx.reach(k + ("_dist" if dist else "_common"))
        ctx.check(v["other"].tolist() == [0, 1, 2]
                  and v["keys"] == sorted({"other", inp["path"].split("/")[0]}),
                  "other entries are left alone")
        if dist and inp["old"] and all(k == "red" for k, _ in inp["ops"]):
            ctx.check(v["held"][2] % nd == ax and same(v["held"][1], mc.local_of(g, ax, me)),
                      "the handle used for redistribution follows it")


def harnesses(tier):
    big = tier == "thorough"
    hs = []

    def add(name, n, **p):
        hs.append(Harness(name, nranks=n, setup=setup, rank=rank, final=final, params=p,
                          reach=["c2d_dist", "d2c_common"] + (["red_dist"] if p["ops"] else []),
                          samples=3, weight=n * p["ops"] * p["nd"],
                          bounds=f"{n} ranks, {p['nd']} dimensions up to {p['dims']}, {p['ops']} "
                                 f"operations, types {p['dts']}"))

    for n in (1, 2, 3):
        add(f"r{n}_1op", n, nd=2, dims=[4, 3], ops=1, dts=["i8", "c8"])
        add(f"r{n}_2op", n, nd=2, dims=[3, 2] if big else [2, 2], ops=2, dts=["i8"])
    if big:
        add("r2_3op", 2, nd=2, dims=[2, 2], ops=3, dts=["i8"])
        add("r4_1op", 4, nd=3, dims=[5, 3, 2], ops=1, dts=["i8", "c8"])
        add("r2_3d", 2, nd=3, dims=[3, 2, 3], ops=1, dts=["i8", "c8"])
    return hs
