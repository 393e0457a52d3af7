"""Task networks for the pipeline properties (P13, P14): real tasks, and the reference result.

A network is a list of task descriptions in configuration order; every key is produced by an
earlier task than the ones which consume it. Such a network computes streams: what a task sees
does not depend on the order in which the manager runs the tasks. The reference evaluates the
tasks one after the other.
"""

from vp.harness import cpu_limit


def ends(ctx):
    """The runs of these networks take milliseconds."""
    return cpu_limit(ctx, 10, "the pipeline does not end")


class Token:
    """A unique product."""

    def __init__(self, *what):
        self.what = what

    def __repr__(self):
        return "<" + " ".join(map(str, self.what)) + ">"


class Spec:
    """One task: keys, and behaviour.

    setup/finish: whether that stage emits a product. n: number of calls of next after which the
    task stops by itself (None: never; only allowed with inputs). drop: next gives nothing on
    every call whose number is in this set. limit: limit_outputs.
    """

    def __init__(self, ins=(), req=(), out=None, setup=False, finish=False, n=None, drop=(),
                 limit=None, prio=0, varargs=False, fail=None):
        self.ins, self.req, self.out = ins, req, out
        self.setup, self.finish, self.n = setup, finish, n
        self.drop, self.limit, self.prio = drop, limit, prio
        self.varargs = varargs
        self.fail = fail

    @property
    def outkeys(self):
        return [] if self.out is None else [self.out] if isinstance(self.out, str) else self.out

    def product(self, i, stage, j):
        """What a stage returns: per key a token."""
        toks = [Token(i, stage, j, k) for k in self.outkeys]
        return toks


def wrap(spec, toks, form):
    """The return value which stands for one token per key."""
    if not spec.outkeys:
        return Token("unused")
    if isinstance(spec.out, str):
        return (toks[0],) if form == "tuple" else toks[0]
    return list(toks) if form == "list" else tuple(toks)


def reference(specs):
    """Per task: list of (stage, argument names...) calls, evaluated task by task."""
    streams = {}
    calls = []
    for i, s in enumerate(specs):
        mine = []
        for k in s.outkeys:
            streams.setdefault(k, [])

        def emit(stage, j):
            for k in s.outkeys:
                streams[k].append((i, stage, j, k))

        reqs = [streams.get(k, []) for k in s.req]
        if any(len(r) > 1 for r in reqs):
            return None
        if all(reqs):
            mine.append(("setup", *[r[0] for r in reqs]))
            if s.setup:
                emit("setup", 0)
            j = outs = 0
            qs = [streams.get(k, []) for k in s.ins]
            while all(len(q) > j for q in qs):
                args = [q[j] for q in qs]
                mine.append(("next", *args))
                if s.n is not None and j >= s.n:
                    break
                if j not in s.drop:
                    emit("next", j)
                    outs += 1
                    if s.limit is not None and outs >= s.limit:
                        j += 1
                        break
                j += 1
                assert s.ins or s.n is not None or s.limit is not None
        mine.append(("finish",))
        if s.finish:
            emit("finish", 0)
        calls.append(mine)
    return calls


class Boom(Exception):
    pass


def build(specs, trace, form="plain", interactive=False, before=None):
    """The real manager with real tasks; trace receives (task, stage, args)."""
    from caput.pipeline import Manager, Task, exceptions

    m = Manager()
    tasks = []

    def make(i, s):
        nreq, nin = len(s.req), len(s.ins)

        class T(Task):
            base_priority = s.prio
            limit_outputs = s.limit
            count = 0
            spec = s
            index = i

            def finish(self):
                return stage("finish", 0, ())

        def stage(name, j, args):
            trace.append((i, name, *args))
            if before:
                before(m, tasks, i, name)
            if s.fail == (name, j):
                raise Boom(i, name, j)
            if name == "next":
                if s.n is not None and j >= s.n:
                    raise exceptions.PipelineStopIteration
                if j in s.drop:
                    return None
            elif not getattr(s, name):
                return None
            toks = s.product(i, name, j)
            return wrap(s, toks, form)

        def do_setup(*args):
            return stage("setup", 0, args)

        def do_next(self, *args):
            j = self.count
            self.count += 1
            return stage("next", j, args)

        if s.varargs:
            T.setup = lambda self, *a: do_setup(*a)
            T.next = lambda self, *a: do_next(self, *a)
        else:
            T.setup = [lambda self: do_setup(), lambda self, a: do_setup(a),
                       lambda self, a, b: do_setup(a, b)][nreq]
            T.next = [lambda self: do_next(self), lambda self, a: do_next(self, a),
                      lambda self, a, b: do_next(self, a, b),
                      lambda self, a, b, c: do_next(self, a, b, c)][nin]
        return T()

    for i, s in enumerate(specs):
        t = make(i, s)
        tasks.append(t)

        def fmt(k, force=False):
            k = list(k)
            return None if not k else k[0] if len(k) == 1 and not force else k

        m.add_task(t, {}, requires=fmt(s.req), in_=fmt(s.ins), out=s.out)
    return m, tasks


def observed(trace, n):
    """Per task, the calls with tokens turned into their names."""
    out = [[] for _ in range(n)]
    for i, stage, *args in trace:
        out[i].append((stage, *[getattr(a, "what", a) for a in args]))
    return out
