"""A deterministic simulation of an MPI communicator for N ranks in one process.

Each rank runs in its own thread, but only the rank holding the baton runs; the baton moves
only when a rank blocks in a communication call, so a run is a deterministic function of
the decisions recorded by the engine.  Two nondeterministic aspects that the MPI standard
leaves open are parameters (symbolic choices of the harness):

* ``rendezvous``: a standard-mode blocking send may or may not wait for its receiver;
* ``late``: the buffer of a nonblocking send is read either at the call or only when the
  transfer is completed (so that reusing it before Wait is visible), and the buffer of a
  nonblocking receive is filled only when the receive is completed.

Collectives synchronise all ranks and check that every rank calls the same operation.
"""

from __future__ import annotations

import copy as _copy
import pickle
import threading
import time

import numpy as np
from mpi4py import MPI

from . import engine


class Deadlock(Exception):
    pass


class MPISimError(Exception):
    """An MPI call that a real MPI library would reject (truncation, mismatch)."""


class _Abort(engine.Steer):
    pass


def _raw(buf):
    """A flat uint8 view of the memory of a contiguous buffer."""
    if isinstance(buf, np.ndarray):
        a = buf.view(np.ndarray)
        if not a.flags.forc:
            raise ValueError("ndarray is not contiguous")
        if not a.flags.c_contiguous:
            a = a.T
        if a.dtype.hasobject:
            raise ValueError("cannot send object arrays as buffers")
        return a.reshape(-1).view(np.uint8)
    m = memoryview(buf)
    return np.frombuffer(m, dtype=np.uint8)


class Buf:
    """Interpretation of an mpi4py buffer specification."""

    def __init__(self, spec):
        self.counts = None
        self.displs = None
        self.count = None
        self.dt = None
        if isinstance(spec, (list, tuple)):
            parts = list(spec)
            buf = parts[0]
            rest = parts[1:]
            for p in rest:
                if isinstance(p, MPI.Datatype):
                    self.dt = p
                elif isinstance(p, str):
                    self.dt = MPI._typedict[p]
                elif isinstance(p, (list, tuple, np.ndarray)):
                    if len(p) == 2 and isinstance(p[0], (list, tuple, np.ndarray)):
                        self.counts, self.displs = list(p[0]), list(p[1])
                    elif self.counts is None:
                        self.counts = list(p)
                    else:
                        self.displs = list(p)
                elif p is not None:
                    if self.count is None:
                        self.count = int(p)
        else:
            buf = spec
        self.buf = buf
        if self.dt is None:
            if isinstance(buf, np.ndarray):
                self.isize = buf.dtype.itemsize
            else:
                self.isize = 1
        else:
            self.isize = self.dt.Get_size()
        self.derived = self.dt is not None and not self.dt.is_predefined

    def raw(self):
        return _raw(self.buf)

    def read(self):
        if self.derived:
            src = self.raw()
            n = 1 if self.count is None else self.count
            nb = self.dt.Get_size() * n
            out = np.zeros(nb, np.uint8)
            if nb:
                self.dt.Pack([src, n, self.dt] if False else src, out, 0, MPI.COMM_SELF)
            return out
        r = self.raw()
        if self.count is not None:
            r = r[: self.count * self.isize]
        elif self.dt is not None:
            if self.isize and r.size % self.isize:
                raise MPISimError("message: buffer length not a multiple of datatype size")
        return r.copy()

    def write(self, data):
        if self.derived:
            dst = self.raw()
            if data.size > self.dt.Get_size() * (self.count or 1):
                raise MPISimError("message truncated")
            if data.size:
                self.dt.Unpack(data, 0, dst, MPI.COMM_SELF)
            return
        r = self.raw()
        if self.count is not None:
            r = r[: self.count * self.isize]
        if data.size > r.size:
            raise MPISimError("message truncated")
        if isinstance(self.buf, np.ndarray) and not self.buf.flags.writeable:
            raise ValueError("buffer is read-only")
        r[: data.size] = data

    # vector variants -------------------------------------------------------------
    def part(self, i, size):
        """Byte range of the i-th block for v-collectives."""
        if self.counts is None:
            r = self.raw()
            n = r.size // size if self.count is None else self.count * self.isize
            return i * n, n
        c = self.counts[i] * self.isize
        if self.displs is None:
            d = sum(self.counts[:i]) * self.isize
        else:
            d = self.displs[i] * self.isize
        return d, c


class Request:
    def __init__(self, world, rank, kind, msg=None, buf=None, match=None, obj=False):
        self.world, self.rank, self.kind = world, rank, kind
        self.msg, self.buf, self.match = msg, buf, match
        self.obj = obj
        self.done = False
        self.value = None

    def _ready(self):
        if self.done:
            return True
        if self.kind == "send":
            if self.msg["taken"] or not self.world.rendezvous:
                return True
            # a matching posted receive lets the transfer complete
            for p in list(self.world.posted):
                if not p.done and self.world.find(p) is self.msg:
                    self.world.deliver(p)
                    p.done = True
                    return True
            return False
        return self.world.find(self) is not None

    def _finish(self, status=None):
        if self.done:
            return self.value
        if self.kind == "recv":
            self.world.deliver(self, status)
        elif self.msg["data"] is None:
            # the send completes locally: its buffer may be reused from here on
            self.msg["data"] = self.msg["buf"].read()
        self.done = True
        return self.value

    def Wait(self, status=None):
        self.world.block(self.rank, self._ready)
        self._finish(status)
        return True

    def wait(self, status=None):
        self.world.block(self.rank, self._ready)
        return self._finish(status)

    def Test(self, status=None):
        self.world.yield_(self.rank)
        if self._ready():
            self._finish(status)
            return True
        return False

    def test(self, status=None):
        ok = self.Test(status)
        return ok, self.value

    def Free(self):
        pass

    def Cancel(self):
        self.done = True

    @classmethod
    def Waitall(cls, requests, statuses=None):
        for r in requests:
            r.Wait()
        return True

    @classmethod
    def waitall(cls, requests, statuses=None):
        return [r.wait() for r in requests]

    @classmethod
    def Waitany(cls, requests, status=None):
        for i, r in enumerate(requests):
            if not r.done:
                r.Wait()
                return i
        return -1


class World:
    def __init__(self, size, rendezvous=False, late=False):
        self.size = size
        self.rendezvous = rendezvous
        self.late = late
        self.cv = threading.Condition()
        self.turn = 0
        self.state = ["run"] * size  # run, block, done
        self.preds = [None] * size
        self.abort = None
        self.queue = []  # in-flight messages, in order
        self.coll = {}  # context -> dict
        self.deadlock = False
        self.seq = 0
        self.posted = []
        self.ncomm = 0

    # -- baton
    def _next(self, me):
        """Choose the next rank to run (baton held by caller)."""
        for k in range(1, self.size + 1):
            r = (me + k) % self.size
            if self.state[r] == "run":
                return r
            if self.state[r] == "block" and self.preds[r]():
                self.state[r] = "run"
                return r
        return None

    def _handover(self, me, r):
        self.turn = r
        self.cv.notify_all()

    def block(self, me, pred):
        if pred():
            return
        with self.cv:
            self.state[me] = "block"
            self.preds[me] = pred
            r = self._next(me)
            if r is None:
                self.deadlock = True
                self.abort = self.abort or Deadlock(
                    f"all ranks blocked: {self.state}"
                )
                self.cv.notify_all()
                raise self.abort if isinstance(self.abort, Deadlock) else _Abort()
            if r == me:
                return
            self._handover(me, r)
            self.cv.wait_for(lambda: self.turn == me or self.abort)
            if self.abort:
                raise _Abort()
            self.state[me] = "run"

    def yield_(self, me):
        with self.cv:
            r = self._next(me)
            if r is None or r == me:
                return
            self._handover(me, r)
            self.cv.wait_for(lambda: self.turn == me or self.abort)
            if self.abort:
                raise _Abort()

    def finish(self, me, err=None):
        with self.cv:
            self.state[me] = "done"
            if err is not None and self.abort is None:
                self.abort = err
                self.cv.notify_all()
                return
            r = self._next(me)
            if r is None:
                if any(s == "block" for s in self.state):
                    self.deadlock = True
                    self.abort = self.abort or Deadlock(
                        f"rank {me} finished while others wait: {self.state}"
                    )
                self.cv.notify_all()
                return
            self._handover(me, r)

    # -- point to point
    def post(self, ctxid, src, dst, tag, data, buf, obj):
        m = dict(ctx=ctxid, src=src, dst=dst, tag=tag, data=data, buf=buf, obj=obj,
                 taken=False)
        self.queue.append(m)
        return m

    def find(self, req):
        # MPI ordering: an earlier posted receive that matches the same message goes first
        ctxid, src, dst, tag, obj = req.match
        earlier = []
        for p in self.posted:
            if p is req:
                break
            if not p.done and p.match[0] == ctxid and p.match[2] == dst:
                earlier.append(p)
        reserved = set()
        for p in earlier:
            m = self._match(p, reserved)
            if m is not None:
                reserved.add(id(m))
        return self._match(req, reserved)

    def _match(self, req, reserved):
        ctxid, src, dst, tag, obj = req.match
        for m in self.queue:
            if m["taken"] or id(m) in reserved or m["ctx"] != ctxid or m["dst"] != dst:
                continue
            if src not in (MPI.ANY_SOURCE, m["src"]):
                continue
            if tag not in (MPI.ANY_TAG, m["tag"]):
                continue
            return m
        return None

    def deliver(self, req, status=None):
        m = self.find(req)
        m["taken"] = True
        self.queue.remove(m)
        if req in self.posted:
            self.posted.remove(req)
        data = m["data"]
        if data is None:
            data = m["buf"].read()
        if req.obj:
            req.value = pickle.loads(data) if isinstance(data, bytes) else data
        else:
            req.buf.write(data)
        if status is not None:
            try:
                status.source = m["src"]
                status.tag = m["tag"]
            except Exception:
                pass


class Comm:
    """The subset of mpi4py's Intracomm that the code under test can use."""

    def __init__(self, world, rank, size=None, ctxid=0, ranks=None):
        self.world = world
        self._rank = rank
        self._ranks = list(range(world.size)) if ranks is None else ranks
        self._size = len(self._ranks)
        self._ctx = ctxid

    @property
    def __class__(self):
        return MPI.Intracomm

    rank = property(lambda s: s._rank)
    size = property(lambda s: s._size)

    def Get_rank(self):
        return self._rank

    def Get_size(self):
        return self._size

    def __eq__(self, o):
        return type(o) is Comm and o._ctx == self._ctx and o._ranks == self._ranks

    def __ne__(self, o):
        return not self == o

    def __hash__(self):
        return hash((self._ctx, tuple(self._ranks)))

    def __bool__(self):
        return True

    def __deepcopy__(self, memo):
        return self

    def _g(self, r):
        return self._ranks[r]

    @property
    def _me(self):
        return self._ranks[self._rank]

    # -- nonblocking
    def Isend(self, buf, dest, tag=0):
        b = Buf(buf)
        data = None if self.world.late else b.read()
        if data is None:
            b.raw()
        m = self.world.post(self._ctx, self._rank, dest, tag, data, b, False)
        return Request(self.world, self._me, "send", msg=m)

    Issend = Ibsend = Irsend = Isend

    def Irecv(self, buf, source=MPI.ANY_SOURCE, tag=MPI.ANY_TAG):
        r = Request(self.world, self._me, "recv", buf=Buf(buf),
                    match=(self._ctx, source, self._rank, tag, False))
        self.world.posted.append(r)
        return r

    def isend(self, obj, dest, tag=0):
        m = self.world.post(self._ctx, self._rank, dest, tag, pickle_(obj), None, True)
        return Request(self.world, self._me, "send", msg=m)

    def irecv(self, buf=None, source=MPI.ANY_SOURCE, tag=MPI.ANY_TAG):
        r = Request(self.world, self._me, "recv",
                    match=(self._ctx, source, self._rank, tag, True), obj=True)
        self.world.posted.append(r)
        return r

    # -- blocking
    def Send(self, buf, dest, tag=0):
        self.Isend(buf, dest, tag).Wait()

    def Ssend(self, buf, dest, tag=0):
        r = self.Isend(buf, dest, tag)
        self.world.block(self._me, lambda: r.msg["taken"])

    def Recv(self, buf, source=MPI.ANY_SOURCE, tag=MPI.ANY_TAG, status=None):
        self.Irecv(buf, source, tag).Wait(status)

    def send(self, obj, dest, tag=0):
        self.isend(obj, dest, tag).wait()

    def recv(self, buf=None, source=MPI.ANY_SOURCE, tag=MPI.ANY_TAG, status=None):
        return self.irecv(source=source, tag=tag).wait(status)

    def Sendrecv(self, sendbuf, dest, sendtag=0, recvbuf=None, source=MPI.ANY_SOURCE,
                 recvtag=MPI.ANY_TAG, status=None):
        s = self.Isend(sendbuf, dest, sendtag)
        r = self.Irecv(recvbuf, source, recvtag)
        r.Wait(status)
        s.Wait()

    def sendrecv(self, sendobj, dest, sendtag=0, recvbuf=None, source=MPI.ANY_SOURCE,
                 recvtag=MPI.ANY_TAG, status=None):
        s = self.isend(sendobj, dest, sendtag)
        v = self.recv(source=source, tag=recvtag, status=status)
        s.wait()
        return v

    # -- collectives
    def _collective(self, name, value):
        """All ranks contribute value; returns the list of contributions."""
        w = self.world
        key = (self._ctx, tuple(self._ranks))
        st = w.coll.setdefault(key, {"n": [0] * self._size, "ops": {}})
        i = st["n"][self._rank]
        st["n"][self._rank] += 1
        op = st["ops"].setdefault(i, {"name": name, "vals": {}})
        if op["name"] != name:
            raise MPISimError(
                f"collective mismatch: rank {self._rank} calls {name}, others {op['name']}"
            )
        op["vals"][self._rank] = value
        w.block(self._me, lambda: len(op["vals"]) == self._size)
        return [op["vals"][r] for r in range(self._size)]

    def Barrier(self):
        self._collective("barrier", None)

    barrier = Barrier

    def allgather(self, obj=None):
        return [unpickle_(v) for v in self._collective("allgather", pickle_(obj))]

    def gather(self, obj=None, root=0):
        v = self._collective("gather", (pickle_(obj), root))
        self._same_root(v)
        return [unpickle_(x[0]) for x in v] if root == self._rank else None

    def bcast(self, obj=None, root=0):
        v = self._collective("bcast", (pickle_(obj) if self._rank == root else None, root))
        self._same_root(v)
        return unpickle_(v[root][0])

    def scatter(self, sendobj=None, root=0):
        v = self._collective(
            "scatter", (pickle_(sendobj) if self._rank == root else None, root)
        )
        self._same_root(v)
        return unpickle_(v[root][0])[self._rank]

    def alltoall(self, sendobj):
        v = self._collective("alltoall", pickle_(list(sendobj)))
        return [unpickle_(x)[self._rank] for x in v]

    def _same_root(self, v):
        if len({x[1] for x in v}) != 1:
            raise MPISimError("collective called with different roots")

    def _reduce(self, vals, op):
        out = vals[0]
        for v in vals[1:]:
            out = _apply_op(op, out, v)
        return out

    def allreduce(self, sendobj, op=MPI.SUM):
        v = [unpickle_(x) for x in self._collective("allreduce", pickle_(sendobj))]
        return self._reduce(v, op)

    def reduce(self, sendobj, op=MPI.SUM, root=0):
        v = [unpickle_(x) for x in self._collective("reduce", pickle_(sendobj))]
        return self._reduce(v, op) if root == self._rank else None

    def scan(self, sendobj, op=MPI.SUM):
        v = [unpickle_(x) for x in self._collective("scan", pickle_(sendobj))]
        return self._reduce(v[: self._rank + 1], op)

    def exscan(self, sendobj, op=MPI.SUM):
        v = [unpickle_(x) for x in self._collective("exscan", pickle_(sendobj))]
        return self._reduce(v[: self._rank], op) if self._rank else None

    def Bcast(self, buf, root=0):
        b = Buf(buf)
        v = self._collective("Bcast", (b.read() if self._rank == root else b.raw().size, root))
        self._same_root(v)
        if self._rank != root:
            data = v[root][0]
            b.write(data)

    def _npbuf(self, buf):
        b = Buf(buf)
        a = b.buf
        return b, a

    def Allreduce(self, sendbuf, recvbuf, op=MPI.SUM):
        rb = Buf(recvbuf)
        src = rb.buf if sendbuf is MPI.IN_PLACE else Buf(sendbuf).buf
        a = np.array(np.asarray(src).view(np.ndarray), copy=True)
        v = self._collective("Allreduce", a)
        if len({x.size for x in v}) != 1:
            raise MPISimError("Allreduce: buffer sizes differ between ranks")
        out = self._reduce([x.reshape(-1) for x in v], op)
        dst = np.asarray(rb.buf).view(np.ndarray)
        dst[...] = np.asarray(out).astype(dst.dtype).reshape(dst.shape)

    def Reduce(self, sendbuf, recvbuf, op=MPI.SUM, root=0):
        src = Buf(recvbuf).buf if sendbuf is MPI.IN_PLACE else Buf(sendbuf).buf
        a = np.array(np.asarray(src).view(np.ndarray), copy=True)
        v = self._collective("Reduce", a)
        if self._rank == root:
            out = self._reduce([x.reshape(-1) for x in v], op)
            dst = np.asarray(Buf(recvbuf).buf).view(np.ndarray)
            dst[...] = np.asarray(out).reshape(dst.shape)

    def Allgather(self, sendbuf, recvbuf):
        self.Allgatherv(sendbuf, recvbuf)

    def Allgatherv(self, sendbuf, recvbuf):
        rb = Buf(recvbuf)
        s = Buf(sendbuf).read()
        v = self._collective("Allgatherv", s)
        self._fill(rb, v)

    def _fill(self, rb, v):
        raw = rb.raw()
        for i, d in enumerate(v):
            o, n = rb.part(i, self._size)
            if d.size > n:
                raise MPISimError("message truncated")
            raw[o : o + d.size] = d

    def Gather(self, sendbuf, recvbuf, root=0):
        self.Gatherv(sendbuf, recvbuf, root)

    def Gatherv(self, sendbuf, recvbuf, root=0):
        s = Buf(sendbuf).read()
        v = self._collective("Gatherv", (s, root))
        self._same_root(v)
        if self._rank == root:
            self._fill(Buf(recvbuf), [x[0] for x in v])

    def Scatter(self, sendbuf, recvbuf, root=0):
        self.Scatterv(sendbuf, recvbuf, root)

    def Scatterv(self, sendbuf, recvbuf, root=0):
        if self._rank == root:
            sb = Buf(sendbuf)
            raw = sb.raw()
            parts = []
            for i in range(self._size):
                o, n = sb.part(i, self._size)
                parts.append(raw[o : o + n].copy())
        else:
            parts = None
        v = self._collective("Scatterv", (parts, root))
        self._same_root(v)
        Buf(recvbuf).write(v[root][0][self._rank])

    def Alltoall(self, sendbuf, recvbuf):
        self.Alltoallv(sendbuf, recvbuf)

    def Alltoallv(self, sendbuf, recvbuf):
        sb, rb = Buf(sendbuf), Buf(recvbuf)
        raw = sb.raw()
        parts = []
        for i in range(self._size):
            o, n = sb.part(i, self._size)
            parts.append(raw[o : o + n].copy())
        v = self._collective("Alltoallv", parts)
        self._fill(rb, [x[self._rank] for x in v])

    # -- communicator management
    def Split_type(self, split_type=None, key=0, info=None):
        self._collective("Split_type", None)
        return Comm(self.world, self._rank, ctxid=("node", self._ctx), ranks=self._ranks)

    def Split(self, color=0, key=0):
        v = self._collective("Split", (color, key))
        mine = sorted(
            [(k, i) for i, (c, k) in enumerate(v) if c == color]
        )
        ranks = [self._ranks[i] for _, i in mine]
        return Comm(self.world, ranks.index(self._me), ctxid=("split", self._ctx, color),
                    ranks=ranks)

    def Dup(self, info=None):
        self._collective("Dup", None)
        return Comm(self.world, self._rank, ctxid=("dup", self._ctx), ranks=self._ranks)

    Clone = Dup

    def Free(self):
        pass

    def Abort(self, errorcode=0):
        raise MPISimError("Abort called")

    def Get_name(self):
        return "sim"


def pickle_(o):
    """Objects are passed by value; symbolic scalars are kept as they are."""
    try:
        return ("p", pickle.dumps(o))
    except Exception:
        return ("c", _copy.deepcopy(o))


def unpickle_(v):
    if v is None:
        return None
    k, o = v
    return pickle.loads(o) if k == "p" else _copy.deepcopy(o)


def _apply_op(op, a, b):
    arr = isinstance(a, np.ndarray) or isinstance(b, np.ndarray)
    if op == MPI.SUM:
        return a + b
    if op == MPI.PROD:
        return a * b
    if op == MPI.MAX:
        return np.maximum(a, b) if arr else (b if b > a else a)
    if op == MPI.MIN:
        return np.minimum(a, b) if arr else (b if b < a else a)
    if op == MPI.LAND:
        return np.logical_and(a, b) if arr else bool(a) and bool(b)
    if op == MPI.LOR:
        return np.logical_or(a, b) if arr else bool(a) or bool(b)
    if op == MPI.BAND:
        return a & b
    if op == MPI.BOR:
        return a | b
    raise MPISimError(f"unsupported reduction {op}")


class _MPIProxy:
    """The real mpi4py.MPI module, with Request classes that know the simulation."""

    def __init__(self):
        class _Req(Request):
            pass

        self.Request = _Req
        self.Prequest = _Req

    def __getattr__(self, name):
        return getattr(MPI, name)

    @property
    def __dict__(self):
        d = dict(MPI.__dict__)
        d["Request"] = self.Request
        d["Prequest"] = self.Prequest
        return d


def install():
    """Make caput's MPI module alias accept simulated requests."""
    import caput.util.mpitools as mt

    mod = getattr(mt, "self_module", mt)
    mod.__dict__["MPI"] = _MPIProxy()


def run(size, rank_fn, rendezvous=False, late=False):
    """Run rank_fn(comm) on every rank.

    Returns a list of ("ok", value) / ("exc", exception) per rank; raises engine steering
    exceptions.  Deadlock is reported as ("exc", Deadlock) on every unfinished rank.
    """
    world = World(size, rendezvous, late)
    res = [None] * size
    steer = []
    owner = {}
    real_sleep = time.sleep
    polls = [0] * size

    def sleep(s):
        # waiting for something another rank does: let the others run
        r = owner.get(threading.get_ident())
        if r is None:
            return real_sleep(s)
        polls[r] += 1
        if polls[r] > 200:
            raise Deadlock("rank polls for ever")
        world.yield_(r)
        return None

    def runner(r):
        owner[threading.get_ident()] = r
        with world.cv:
            world.cv.wait_for(lambda: world.turn == r or world.abort)
        err = None
        try:
            if world.abort:
                raise _Abort()
            res[r] = ("ok", rank_fn(Comm(world, r)))
        except _Abort:
            res[r] = ("aborted", None)
        except engine.Steer as e:
            steer.append(e)
            err = e
        except engine.Inconclusive as e:
            steer.append(e)
            err = e
        except Exception as e:  # the rank died with an error; the others go on
            res[r] = ("exc", e)
        world.finish(r, err)

    ths = [threading.Thread(target=runner, args=(r,), daemon=True) for r in range(size)]
    time.sleep = sleep
    try:
        for t in ths:
            t.start()
        for t in ths:
            t.join()
    finally:
        time.sleep = real_sleep
    if steer:
        raise steer[0]
    if world.deadlock:
        for r in range(size):
            if res[r] is None or res[r][0] == "aborted":
                res[r] = ("exc", Deadlock("deadlock"))
    return res
