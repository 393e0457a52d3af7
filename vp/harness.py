"""Harness descriptions and how to execute them (symbolically or concretely)."""

from __future__ import annotations

import contextlib
import os
import sys
import time

from . import engine


class Harness:
    """One symbolic-execution job.

    Serial harness: ``body(ctx)``.
    MPI harness:    ``setup(ctx) -> inp``; ``rank(ctx, comm, inp) -> result`` on each of
    ``nranks`` ranks; ``final(ctx, results, inp)`` with results a list of ("ok", value) or
    ("exc", exception) per rank.
    ``patch``: context manager factory applied in symbolic mode only.
    ``reach``: witnesses that must be reached on some path (guard against vacuity).
    """

    def __init__(self, name, body=None, *, nranks=0, setup=None, rank=None, final=None,
                 params=None, patch=None, reach=(), bounds="", samples=3, weight=1.0,
                 known=None, concrete_sim=False, replay_body=None):
        self.name = name
        self.body = body
        self.nranks = nranks
        self.setup = setup
        self.rank = rank
        self.final = final
        self.params = params or {}
        self.patch = patch
        self.reach = set(reach)
        self.bounds = bounds
        self.samples = samples
        self.weight = weight
        self.known = known
        self.replay_body = replay_body

    # -- symbolic
    def sym_body(self):
        if not self.nranks:
            return self.body
        from . import mpisim

        mpisim.install()

        def body(ctx):
            ctx.params = self.params
            inp = self.setup(ctx)
            rendezvous = bool(ctx.bool("_rendezvous")) if self.params.get("async") else False
            late = bool(ctx.bool("_late")) if self.params.get("async") else False
            res = mpisim.run(
                self.nranks, lambda comm: self.rank(ctx, comm, inp), rendezvous, late
            )
            self.final(ctx, res, inp)

        return body

    def explore(self, deadline):
        st = engine.Stats()
        ex = engine.Explorer(
            self.sym_body(), params=self.params, stats=st, deadline=deadline,
            sample_every=1, max_samples=0,
        )
        # spread samples: keep up to `samples` path models at growing distances
        kept = []
        orig = ex.body
        nxt = [1, 1]

        def body(ctx):
            ctx.params = self.params
            orig(ctx)
            n = st.paths + 1
            if len(kept) < self.samples and n >= nxt[0]:
                if ex._model is None and ex._check():
                    ex._model = ex.model()
                if ex._model is not None:
                    kept.append(ex.inputs_from(ctx, ex._model))
                nxt[0] = n * 3 + 2

        ex.body = body
        patch = self.patch() if self.patch else contextlib.nullcontext()
        with patch:
            ex.run(stop_on_failure=True)
        return ex, kept


def isrepo(code, repo):
    return code.co_filename.startswith(repo + "/caput")


class FunctionCoverage:
    """Which functions of /repo were entered (sys.monitoring, one event per function)."""

    def __init__(self, repo):
        self.repo = repo
        self.seen = set()

    def __enter__(self):
        m = sys.monitoring
        m.use_tool_id(4, "vp")
        m.register_callback(4, m.events.PY_START, self._cb)
        m.set_events(4, m.events.PY_START)
        return self

    def _cb(self, code, off):
        if isrepo(code, self.repo):
            q = code.co_qualname
            if "<module>" not in q and "<lambda>" not in q and "<genexpr>" not in q:
                self.seen.add(f"{os.path.relpath(code.co_filename, self.repo)}:{q}")
        return sys.monitoring.DISABLE

    def __exit__(self, *a):
        sys.monitoring.set_events(4, 0)
        sys.monitoring.free_tool_id(4)


def run_concrete(h, inputs):
    """Run a serial harness on concrete values. Returns (status, message, detail)."""
    ctx = engine.ConcreteCtx(inputs, h.params)
    try:
        (h.replay_body or h.body)(ctx)
    except engine.PathInfeasible:
        return "infeasible", "", None
    except engine.PathDone:
        return "pass", "", None
    except engine.Failure as f:
        return "fail", f.msg, repr(f.detail)[:2000]
    except Exception as e:  # an exception the harness does not expect
        if engine.in_repo(e):
            return "fail", f"unexpected {type(e).__name__}: {e}", engine.describe(e)
        import traceback

        return "error", f"{type(e).__name__}: {e}", traceback.format_exc()[-1500:]
    return "pass", "", None


class TooLong(BaseException):
    pass


@contextlib.contextmanager
def cpu_limit(ctx, seconds, msg):
    """Fail when the body uses more CPU time than it possibly can when it terminates."""
    import signal

    def stop(*_):
        raise TooLong

    old = signal.signal(signal.SIGVTALRM, stop)
    signal.setitimer(signal.ITIMER_VIRTUAL, seconds)
    try:
        yield
    except TooLong:
        signal.setitimer(signal.ITIMER_VIRTUAL, 0)
        ctx.fail(msg)
    finally:
        signal.setitimer(signal.ITIMER_VIRTUAL, 0)
        signal.signal(signal.SIGVTALRM, old)
