"""P29: containers are zipped exactly once, completely, and removed only after that.

The real zipping tasks run, over every assignment of ranks to hosts, on containers with symbolic
names, tags and options, with stand-ins for the external programs: an archiver which records its
calls and fails for a symbolically chosen container (with or without leaving a partial archive), and
a remover which refuses to leave the scratch directory. The archives are compared with the
containers, and loaded again by the real reader.
"""

import os
import shutil
import stat
import sys
import tempfile
import threading
import warnings

import numpy as np

from vp.harness import Harness

ASSUMPTIONS = [
    "up to 3 ranks on up to 3 hosts, up to 3 containers; the archiver is a stand-in which stores files like 7z",
    "archives do not exist beforehand; a failure of one rank may leave the others waiting",
]

ZIP = """#!{py} -SE
import os, sys, zipfile
open({log!r}, "a").write("zip " + " ".join(map(repr, sys.argv[1:])) + "\\n")
a = [x for x in sys.argv[2:] if not x.startswith("-")]
if sys.argv[1] != "a" or len(a) != 2:
    sys.exit(7)
dest, src = a
if {chatty!r}:
    sys.stdout.write("x" * 300000)
    sys.stderr.write("x" * 300000)
if os.path.basename(dest) == {fail!r}:
    if {partial!r}:
        open(dest, "w").write("PK")
    sys.exit(2)
if not src.endswith("/.") or not os.path.isdir(src):
    sys.exit(3)
with zipfile.ZipFile(dest, "a") as z:
    for r, _, fs in os.walk(src):
        for f in sorted(fs):
            p = os.path.join(r, f)
            z.write(p, os.path.relpath(p, src))
"""

RM = """#!{py} -SE
import os, shutil, sys
for a in sys.argv[1:]:
    if a.startswith("-"):
        continue
    p = os.path.realpath(a)
    open({log!r}, "a").write("rm " + repr(os.path.relpath(p, {d!r})) + "\\n")
    if not p.startswith({d!r} + "/data/"):
        sys.exit(9)
    shutil.rmtree(p) if os.path.isdir(p) else os.remove(p)
"""


def quiet():
    import logging

    warnings.simplefilter("ignore")
    logging.disable(logging.CRITICAL)


HOSTS = {}


class Scratch:
    """A scratch directory with stand-ins for the external programs, and names for the hosts."""

    def __init__(self, fail=None, partial=False, chatty=False):
        self.opt = dict(fail=fail, partial=partial, chatty=chatty)

    def __enter__(self):
        import socket

        d = self.d = os.path.realpath(tempfile.mkdtemp(prefix="p29-", dir=os.environ.get("VP_SCRATCH") or None))
        os.mkdir(f"{d}/data")
        os.mkdir(f"{d}/bin")
        self.log = f"{d}/log"
        for n, t in (("7z", ZIP), ("rm", RM)):
            with open(f"{d}/bin/{n}", "w") as f:
                f.write(t.format(py=os.path.realpath(sys.executable), log=self.log, d=d, **self.opt))
            os.chmod(f"{d}/bin/{n}", stat.S_IRWXU)
        self.old = os.getcwd(), os.environ["PATH"], socket.gethostname, shutil.rmtree
        os.chdir(f"{d}/data")
        os.environ["PATH"] = f"{d}/bin"
        socket.gethostname = lambda: HOSTS.get(threading.get_ident(), "one")

        def rmtree(p, *a, **k):
            with open(self.log, "a") as f:
                f.write(f"rm {os.path.relpath(os.path.realpath(p), d)!r}\n")
            if not os.path.realpath(p).startswith(d + "/data/"):
                raise RuntimeError(f"outside of the scratch directory: {p}")
            return self.old[3](p, *a, **k)

        shutil.rmtree = rmtree
        return self

    def __exit__(self, *a):
        import socket

        os.chdir(self.old[0])
        os.environ["PATH"] = self.old[1]
        socket.gethostname, shutil.rmtree = self.old[2:]
        shutil.rmtree(self.d, ignore_errors=True)

    def calls(self):
        if not os.path.exists(self.log):
            return [], []
        with open(self.log) as f:
            ls = f.read().splitlines()
        return [x[4:] for x in ls if x.startswith("zip ")], [x[3:].strip("'\"") for x in ls if x.startswith("rm ")]


def box(i, comm=None, tag=None):
    from caput.containers import Container

    c = Container(distributed=comm is not None, comm=comm)
    if comm is None:
        c.create_dataset("x", data=np.arange(4.0) + 10 * i)
    else:
        x = c.create_dataset("x", shape=(4,), dtype=float, distributed=True, distributed_axis=0)
        x[:] = (np.arange(4.0) + 10 * i)[x.local_offset[0]:x.local_offset[0] + x.local_shape[0]]
    c.attrs["n"] = i
    if tag is not None:
        c.attrs["tag"] = tag
    return c


def load(f):
    from caput.memdata import MemDiskGroup

    c = MemDiskGroup.from_file(f)
    return np.asarray(c["x"][:]).tolist(), int(c.attrs["n"])


def tree(d):
    out = {}
    for r, _, fs in os.walk(d):
        for f in fs:
            p = os.path.join(r, f)
            with open(p, "rb") as fh:
                out[os.path.relpath(p, d)] = fh.read()
    return out


def archive(f):
    import zipfile

    with zipfile.ZipFile(f) as z:
        return {n: z.read(n) for n in z.namelist()}


NAMES = ["a", "b c", "d$e;f"]


BYSTANDERS = ["o", "0.zarr", "t0.zarr", "c0.zarr", "b"]


# ------------------------------------------------------------------ existing containers


def z_setup(ctx):
    n = ctx.params["n"]
    k = ctx.concretize(ctx.int("containers", 0, 3))
    fail = ctx.choose("fail", [None, *range(k)])
    inp = dict(k=k, fail=fail, remove=bool(ctx.bool("remove")), hosts=[ctx.choose(f"host{r}", ["p", "q", "s"][:r + 1]) for r in range(n)],
               partial=bool(ctx.bool("partial")) if fail is not None else False)
    names = [f"{x}.zarr" for x in NAMES[:k]]
    s = inp["scratch"] = Scratch(None if fail is None else names[fail] + ".zip", inp["partial"])
    s.__enter__()
    quiet()
    from caput.memdata import fileformats

    inp["before"] = {}
    for i, f in enumerate(names):
        box(i).save(f, file_format=fileformats.Zarr)
        inp["before"][f] = tree(f)
    inp["names"] = names
    return inp


def z_rank(ctx, comm, inp):
    from caput.pipeline.exceptions import PipelineStopIteration
    from caput.pipeline.tasklib import io

    HOSTS[threading.get_ident()] = inp["hosts"][comm.rank]
    try:
        t = io.ZipZarrContainers._from_config({"containers": inp["names"], "remove": inp["remove"]})
        t.comm = comm
        t.setup()
        try:
            t.next()
        except PipelineStopIteration:
            return "end"
    finally:
        HOSTS.pop(threading.get_ident(), None)


def z_final(ctx, results, inp):
    from props import mpicommon as mc

    try:
        zips, rms = inp["scratch"].calls()
        if inp["fail"] is None:
            vals = mc.all_ok(ctx, results, "zipping")
            ctx.check(vals == ["end"] * len(vals), "the task does not end", got=vals)
            ctx.check(len(zips) == inp["k"], "not every container was zipped once", got=zips, hosts=inp["hosts"])
            ctx.reach("done")
        else:
            ctx.check(any(s == "exc" for s, _ in results), "a failure is not reported", hosts=inp["hosts"])
            ctx.reach("failed")
        ctx.check(len(set(zips)) == len(zips), "a container was zipped twice", got=zips)
        for i, f in enumerate(inp["names"]):
            whole = os.path.isfile(f + ".zip") and i != inp["fail"] and archive(f + ".zip") == inp["before"][f]
            kept = os.path.isdir(f) and tree(f) == inp["before"][f]
            ctx.check(whole or kept, "the contents of a container are lost", file=f)
            if inp["fail"] is None:
                ctx.check(whole, "an archive is incomplete", file=f)
                ctx.check(load(f + ".zip") == ((np.arange(4.0) + 10 * i).tolist(), i), "the archive cannot be read back", file=f)
                ctx.check(os.path.exists(f) == (not inp["remove"]), "the original was wrongly kept or removed", file=f)
            if not inp["remove"]:
                ctx.check(kept, "the original was changed", file=f)
        want = {f"data/{f}" for f in inp["names"]}
        ctx.check(set(rms) <= want, "something else was removed", got=rms)
    finally:
        inp["scratch"].__exit__()


# ------------------------------------------------------------------ saving and zipping in one


def s_setup(ctx):
    n = ctx.params["n"]
    k = ctx.concretize(ctx.int("containers", 0, 3 if n == 1 else 2))
    tags = [ctx.choose(f"tag{i}", [None, "t", "b c"][:2 if i else 3]) for i in range(k)]
    tags = [t and f"{t}{i}" for i, t in enumerate(tags)]
    fail = ctx.choose("fail", [None, *range(k)])
    inp = dict(k=k, fail=fail, tags=tags, remove=bool(ctx.bool("remove")),
               hosts=[ctx.choose(f"host{r}", ["p", "q", "s"][:r + 1]) for r in range(n)],
               partial=False, chatty=bool(ctx.bool("chatty")) if n == 1 else False)
    two = inp["two"] = bool(ctx.bool("two")) if k > 1 else False  # tasks, which take turns
    inp["names"] = [f"{'op'[i % 2] if two else 'o'} {t if t is not None else i // 2 if two else i}.zarr" for i, t in enumerate(tags)]
    s = inp["scratch"] = Scratch(None if fail is None else inp["names"][fail] + ".zip", inp["partial"], inp["chatty"])
    s.__enter__()
    for b in BYSTANDERS:
        os.mkdir(b)
    quiet()
    return inp


def s_rank(ctx, comm, inp):
    from caput.pipeline.tasklib import io

    HOSTS[threading.get_ident()] = inp["hosts"][comm.rank]
    try:
        # every process has counters of its own
        T = type("T", (io.SaveZarrZip,), {k: v for c in io.SaveZarrZip.__mro__[::-1] for k, v in vars(c).items() if type(v) is int})
        ts = [T._from_config({"output_name": o + " {tag}.zarr.zip", "remove": inp["remove"]}) for o in ("op" if inp["two"] else "o")]
        w = io.WaitZarrZip._from_config({})
        w.comm = comm
        for t in ts:
            t.comm = comm
            t.setup()
        jobs, timers = inp.setdefault("jobs", []), inp.setdefault("timers", [])
        for i in range(inp["k"]):
            h = ts[i % len(ts)].next(box(i, comm, inp["tags"][i]))
            if h.handle is not None:
                jobs.append(h.handle)
                timer = threading.Timer(20, h.handle.kill)  # a blocked job must not block the check
                timer.daemon = True
                timer.start()
                timers.append(timer)
            w.next(h)
        w.finish()
        return "end"
    finally:
        HOSTS.pop(threading.get_ident(), None)


def s_final(ctx, results, inp):
    from props import mpicommon as mc

    for j in inp.get("jobs", []):
        if j.returncode is None:
            j.communicate()
    for t in inp.get("timers", []):
        t.cancel()
    try:
        zips, rms = inp["scratch"].calls()
        if inp["fail"] is None:
            mc.all_ok(ctx, results, "saving and zipping")
            ctx.check(len(zips) == inp["k"], "not every container was zipped once", got=zips, hosts=inp["hosts"])
            got = sorted(x for x in os.listdir(".") if x.endswith(".zip"))
            ctx.check(got == sorted(n + ".zip" for n in inp["names"]), "other archives than expected", got=got)
            ctx.reach("done")
        else:
            ctx.check(any(s == "exc" for s, _ in results), "a failure is not reported")
            ctx.reach("failed")
        for i, f in enumerate(inp["names"]):
            if i == inp["fail"]:
                ctx.check(os.path.isdir(f) and load(f) == ((np.arange(4.0) + 10 * i).tolist(), i), "the container was lost", file=f)
                continue
            if inp["fail"] is not None and not os.path.exists(f + ".zip"):
                continue
            if inp["fail"] is None:
                ctx.check(load(f + ".zip") == ((np.arange(4.0) + 10 * i).tolist(), i), "the archive cannot be read back", file=f)
                ctx.check(os.path.exists(f) == (not inp["remove"]), "the original was wrongly kept or removed", file=f)
        ctx.check(all(os.path.isdir(b) for b in BYSTANDERS) and all(r.startswith("data/") for r in rms), "something else was removed", got=rms)
    finally:
        inp["scratch"].__exit__()


def refused(ctx):
    """What cannot be zipped is refused, and left alone."""
    from caput.config import CaputConfigError
    from caput.pipeline.exceptions import PipelineStopIteration
    from caput.pipeline.tasklib import io

    quiet()
    what = ctx.choose("what", ["suffix", "missing", "file", "no-7z", "name", "nothing"])
    with Scratch() as s:
        os.mkdir("a.zarrs")
        open("f.zarr", "w").close()
        if what == "no-7z":
            os.remove(f"{s.d}/bin/7z")
        try:
            if what == "name":
                t = io.SaveZarrZip._from_config({"output_name": ctx.choose("name", ["{tag}.zarr", "{tag}.h5", "{tag}.zip"])})
                t.setup()
            elif what == "nothing":
                t = io.WaitZarrZip._from_config({})
                t.finish()
            else:
                t = io.ZipZarrContainers._from_config({"containers": {"suffix": ["a.zarrs"], "missing": ["m.zarr"], "file": ["f.zarr"],
                                                                      "no-7z": []}[what]})
                t.setup()
                t.next()
            ok = True
        except (ValueError, RuntimeError, CaputConfigError, PipelineStopIteration) as e:
            ok = isinstance(e, PipelineStopIteration)
        ctx.check(ok == (what == "nothing"), "what cannot be zipped was accepted", what=what)
        ctx.check(sorted(os.listdir(".")) == ["a.zarrs", "f.zarr"] and s.calls() == ([], []), "files were touched", got=os.listdir("."))
    ctx.reach(what)


def ranks(setup, rank, final):
    """The ranks share a directory, so they are run by the simulation also for the replay."""

    def body(ctx):
        from vp import mpisim

        mpisim.install()
        inp = setup(ctx)
        final(ctx, mpisim.run(ctx.params["n"], lambda comm: rank(ctx, comm, inp)), inp)

    return body


def harnesses(tier):
    q = tier == "quick"
    out = [Harness("refused", refused, reach=["suffix", "missing", "file", "no-7z", "name", "nothing"], bounds="6 wrong arguments")]
    for n in (1, 2) if q else (1, 2, 3):
        out.append(Harness(f"zip-{n}", ranks(z_setup, z_rank, z_final), params={"n": n}, reach=["done", "failed"],
                           weight=4, bounds=f"{n} ranks on all hosts, 0-3 containers, failure of any, with partial archives"))
    for n in (1, 2) if q else (1, 2, 3):
        out.append(Harness(f"save-{n}", ranks(s_setup, s_rank, s_final), params={"n": n}, reach=["done", "failed"],
                           weight=6, bounds=f"{n} ranks on all hosts, up to 3 containers, 3 kinds of tags, failure of any"))
    return out
