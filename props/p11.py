"""P11: the lock file protocol: a file appears complete or not at all, whatever fails when."""

import builtins
import os
import shutil
import tempfile

from vp.harness import Harness

ASSUMPTIONS = [
    "a crash is modelled as the process doing nothing more from one file system operation on "
    "(create, write, rename, remove); rename is atomic, as POSIX guarantees",
    "the body writes the temporary file in two steps and may fail before, between or after them; "
    "directories are not removed concurrently",
]


class Crash(BaseException):
    """The process dies here."""


class BodyError(Exception):
    pass


class FS:
    """Counts the modifying file system calls below one directory, and dies at the k-th."""

    NAMES = ("rename", "replace", "remove", "unlink", "link", "symlink", "open", "mkdir",
             "makedirs", "rmdir", "truncate")

    def __init__(self, base, crash_at):
        self.base, self.crash_at, self.n = base, crash_at, 0
        self.dead = False
        self.log = []
        self.snap = []

    def step(self, what):
        if self.dead:
            raise Crash()
        self.snap.append(sorted(os.listdir(self.base)))
        if self.n == self.crash_at:
            self.dead = True
            raise Crash()
        self.n += 1
        self.log.append(what)

    def __enter__(self):
        self.saved = {n: getattr(os, n) for n in self.NAMES}
        self.bopen = builtins.open

        def wrap(n, f):
            def g(*a, **k):
                if a and isinstance(a[0], (str, bytes)) and os.fsdecode(a[0]).startswith(self.base):
                    if n != "open" or (len(a) > 1 and a[1] & (os.O_WRONLY | os.O_RDWR)):
                        self.step((n, a))
                return f(*a, **k)

            return g

        for n, f in self.saved.items():
            setattr(os, n, wrap(n, f))

        def bopen(f, mode="r", *a, **k):
            if isinstance(f, (str, bytes)) and os.fsdecode(f).startswith(self.base) and (
                set(mode) & set("wax+")
            ):
                self.step(("create", f))
            return self.bopen(f, mode, *a, **k)

        builtins.open = bopen
        return self

    def __exit__(self, *a):
        builtins.open = self.bopen
        for n, f in self.saved.items():
            setattr(os, n, f)


class Comm:
    def __init__(self, rank, size):
        self.rank, self.size = rank, size


OLD, NEW = "old contents", "new contents, complete"


def body(ctx):
    from caput.memdata import lock_file

    base = tempfile.mkdtemp(prefix="p11-", dir=os.environ.get("VP_SCRATCH") or None)
    try:
        sub = ctx.choose("name", ["f.h5", "sub.d/f", ".hidden", "a b.zarr"])
        final = os.path.join(base, sub)
        os.makedirs(os.path.dirname(final), exist_ok=True)
        had_old = bool(ctx.bool("had_old"))
        if had_old:
            with open(final, "w") as f:
                f.write(OLD)
        preserve = bool(ctx.bool("preserve"))
        who = ctx.choose("comm", ["none", "rank0", "rank1"])
        comm = {"none": None, "rank0": Comm(0, 2), "rank1": Comm(1, 2)}[who]
        active = who != "rank1"
        # what the body does: fail before creating, half way, at the end, or succeed
        what = ctx.choose("body", ["before", "half", "end", "ok", "kbd"])
        crash = ctx.concretize(ctx.int("crash", 0, ctx.params["crash"])) - 1
        lk = lock_file(final, preserve=preserve, comm=comm)
        tmp, lock = lk.tmpfile, lk.lockfile
        ctx.check(len({final, tmp, lock}) == 3, "the files are distinct")
        ctx.check(os.path.dirname(tmp) == os.path.dirname(final),
                  "the temporary file is beside the final one")
        stage = {"n": 0}
        seen = {}
        out = None
        err = BodyError("x") if what != "kbd" else KeyboardInterrupt()
        with FS(base, crash if crash >= 0 else None) as fs:
            try:
                with lk as fn:
                    seen["fn"] = fn
                    seen["lock"] = os.path.exists(lock)
                    if what == "before":
                        raise err
                    if active:
                        with open(fn, "w") as f:
                            f.write("part")
                            stage["n"] = 1
                            f.flush()
                            if what in ("half", "kbd"):
                                raise err
                            fs.step(("write", fn))
                            f.seek(0)
                            f.write(NEW)
                        stage["n"] = 2
                    if what != "ok":
                        raise err
                out = "ok"
            except Crash:
                out = "crash"
            except BaseException as e:
                out = e
        # -------- what is left
        now = {}
        for n, p in (("final", final), ("tmp", tmp), ("lock", lock)):
            if os.path.exists(p):
                with open(p) as f:
                    now[n] = f.read()
        old = OLD if had_old else None
        if "fn" in seen:
            ctx.check(seen["fn"] == tmp, "the body writes to the temporary file")
            ctx.check(seen["lock"] == active, "the lock is held while the body runs, by the "
                      "writing process only")
        # the final file is the old one or the complete new one, always
        f = now.get("final")
        ctx.check(f == old or (active and stage["n"] == 2 and f == NEW),
                  "the final file is untouched or complete", got=f, stage=stage["n"])
        if not active:
            ctx.check(not fs.log and f == old and "lock" not in now,
                      "other processes leave the files alone", log=fs.log)
        if out == "crash":
            ctx.check(fs.dead, "crash injected")
            # a temporary file is never left without its lock, unless the block had failed and
            # was told to keep it
            if "tmp" in now and not (preserve and what != "ok"):
                ctx.check("lock" in now, "a partial file is marked by its lock")
            ctx.reach("crash")
            return
        ctx.check(not fs.dead, "a crash is not swallowed")
        if what == "ok":
            if active:
                ctx.check(out == "ok", "success", got=repr(out))
                ctx.check(f == NEW, "the file is moved into place")
                ctx.check("tmp" not in now, "no temporary file is left")
                ctx.reach("ok")
        else:
            ctx.check(out is err, "the error of the body is passed on", got=repr(out))
            ctx.check(f == old, "a failed block leaves the final file as it was")
            if active:
                ctx.check(("tmp" in now) == (preserve and stage["n"] > 0),
                          "a failed block removes its temporary file, unless told otherwise",
                          got=sorted(now))
                ctx.reach("failed")
        ctx.check("lock" not in now, "the lock is released")
    finally:
        shutil.rmtree(base, ignore_errors=True)


def missing(ctx):
    """The block ends without having written anything: an error, and the lock is released."""
    from caput.memdata import lock_file

    base = tempfile.mkdtemp(prefix="p11-", dir=os.environ.get("VP_SCRATCH") or None)
    try:
        final = os.path.join(base, "f")
        had = bool(ctx.bool("had_old"))
        if had:
            with open(final, "w") as f:
                f.write(OLD)
        pres = bool(ctx.bool("preserve"))
        lk = lock_file(final, preserve=pres)
        try:
            with lk:
                pass
            ctx.fail("a block that wrote nothing cannot succeed")
        except FileNotFoundError:
            pass
        ctx.check(os.path.exists(final) == had, "the final file is left alone")
        ctx.check(not os.path.exists(lk.lockfile), "the lock is released")
        # and the name can be used again
        with lock_file(final) as fn:
            with open(fn, "w") as f:
                f.write(NEW)
        with open(final) as f:
            ctx.check(f.read() == NEW, "a later attempt succeeds")
        ctx.reach("missing")
    finally:
        shutil.rmtree(base, ignore_errors=True)


def harnesses(tier):
    return [
        Harness("protocol", body, reach=["crash", "ok", "failed"], params=dict(crash=8),
                bounds="every crash point (up to 8 file system operations), every body outcome, "
                       "old file or none, both preserve settings, three roles", samples=6),
        Harness("missing", missing, reach=["missing"], bounds="a block that writes nothing"),
    ]
