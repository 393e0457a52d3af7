"""Solver-driven symbolic execution of real Python code.

A harness is a Python function ``body(ctx)``.  It obtains its inputs from ``ctx``
(``ctx.int``, ``ctx.bool``, ``ctx.choose``), calls the real implementation imported from
/repo with them and states the property with ``ctx.check``.

In *symbolic* mode the inputs are proxies over z3 terms.  Arithmetic and comparison build
terms; every place where the interpreter needs a concrete truth value or machine integer
(``if``, ``range``, indexing, an allocation) is a decision point where z3 is asked which
alternatives are feasible under the path condition.  All feasible alternatives are
explored (depth first, by re-execution), so when exploration finishes the union of the
path conditions is the whole input space within the stated bounds.  ``ctx.check(c)`` asks
z3 for a model of (path condition and not c): ``unsat`` discharges the assertion for
every input on that path, ``sat`` gives a counterexample, ``unknown`` aborts the run as
inconclusive (never reported as success).

In *concrete* mode the same harness runs with plain Python values taken from a model, with
no proxies: that is how every counterexample is replayed on the real code, and how
sampled paths validate the encoding.
"""

from __future__ import annotations

import json
import os
import time
import traceback

import z3

Z = z3
_F = z3.BoolVal(False)
_T = z3.BoolVal(True)


ENCODED = set()  # compiled functions encoded by this process (for the evidence)


class Steer(BaseException):
    """Base of the exceptions that steer the engine (never caught by code under test)."""


class PathInfeasible(Steer):
    pass


class PathDone(Steer):
    pass


class Skip(Steer):
    """The code no longer has the shape this harness drives; another harness decides."""


class Inconclusive(Exception):
    """The solver returned unknown, or a bound of the engine was exceeded."""


class BudgetExceeded(Inconclusive):
    pass


class Failure(Steer):
    """An assertion failed (symbolic: with a model; concrete: as is)."""

    def __init__(self, msg, inputs=None, detail=None):
        super().__init__(msg)
        self.msg = msg
        self.inputs = inputs or {}
        self.detail = detail


def in_repo(e):
    """Was the exception raised while code of the repository was running?"""
    repo = os.environ.get("VP_REPO", "/repo") + "/caput"
    tb = e.__traceback__
    while tb is not None:
        f = tb.tb_frame.f_code.co_filename
        if f.startswith(repo) or f.endswith(".pyx"):
            return True
        tb = tb.tb_next
    return False


def describe(e):
    return "".join(traceback.format_exception(e))[-1500:]


class Stats:
    def __init__(self):
        self.paths = 0
        self.infeasible = 0
        self.decisions = 0
        self.queries = 0
        self.solver_s = 0.0
        self.checks = 0
        self.checks_symbolic = 0
        self.witness = {}
        self.realisations = 0


def _is_sym(x):
    return isinstance(x, (SymInt, SymBool, SymReal)) if True else False


# --------------------------------------------------------------------------------------
# proxies


class SymBase:
    __slots__ = ("t", "ctx")

    def __init__(self, ctx, t):
        object.__setattr__(self, "t", t)
        object.__setattr__(self, "ctx", ctx)

    def __repr__(self):
        if self.ctx.str_concretize:
            return repr(self.ctx.concretize(self))
        return "<sym>"

    __str__ = __repr__

    def __format__(self, spec):
        if self.ctx.str_concretize:
            return format(self.ctx.concretize(self), spec)
        return "<sym>"

    def __deepcopy__(self, memo):
        return self

    def __copy__(self):
        return self

    def __reduce__(self):
        raise TypeError("cannot pickle a symbolic value")


class SymBool(SymBase):
    __slots__ = ()

    @property
    def __class__(self):
        return bool

    def __bool__(self):
        return self.ctx.branch(self.t)

    def __hash__(self):
        return hash(bool(self))

    def __index__(self):
        return int(bool(self))

    __int__ = __index__

    def __float__(self):
        return float(bool(self))

    def _i(self):
        return SymInt(self.ctx, z3.If(self.t, z3.IntVal(1), z3.IntVal(0)))

    def __and__(self, o):
        o = _bterm(o)
        return NotImplemented if o is None else SymBool(self.ctx, z3.And(self.t, o))

    __rand__ = __and__

    def __or__(self, o):
        o = _bterm(o)
        return NotImplemented if o is None else SymBool(self.ctx, z3.Or(self.t, o))

    __ror__ = __or__

    def __xor__(self, o):
        o = _bterm(o)
        return NotImplemented if o is None else SymBool(self.ctx, z3.Xor(self.t, o))

    __rxor__ = __xor__

    def __eq__(self, o):
        b = _bterm(o)
        if b is not None:
            return SymBool(self.ctx, self.t == b)
        return self._i() == o

    def __ne__(self, o):
        b = _bterm(o)
        if b is not None:
            return SymBool(self.ctx, self.t != b)
        return self._i() != o

    def __add__(self, o):
        return self._i() + o

    __radd__ = __add__

    def __sub__(self, o):
        return self._i() - o

    def __rsub__(self, o):
        return o - self._i()

    def __mul__(self, o):
        return self._i() * o

    __rmul__ = __mul__

    def __lt__(self, o):
        return self._i() < o

    def __le__(self, o):
        return self._i() <= o

    def __gt__(self, o):
        return self._i() > o

    def __ge__(self, o):
        return self._i() >= o


def _bterm(o):
    to = type(o)
    if to is SymBool:
        return o.t
    if to is bool:
        return _T if o else _F
    if to.__name__ in ("bool_", "bool") and to.__module__ == "numpy":
        return _T if bool(o) else _F
    return None


def _iterm(o):
    """z3 Int term of an integer-like operand, or None."""
    to = type(o)
    if to is SymInt:
        return o.t
    if to is int or to is bool:
        return z3.IntVal(int(o))
    if to is SymBool:
        return z3.If(o.t, z3.IntVal(1), z3.IntVal(0))
    if to.__module__ == "numpy" and hasattr(o, "__index__") and getattr(o, "ndim", 0) == 0:
        try:
            return z3.IntVal(int(o.__index__()))
        except TypeError:
            return None
    return None


def _rterm(o):
    to = type(o)
    if to is SymReal:
        return o.t
    i = _iterm(o)
    if i is not None:
        return z3.ToReal(i)
    if to is float or (to.__module__ == "numpy" and to.__name__ in ("float64", "float32")):
        f = float(o)
        if f != f or f in (float("inf"), float("-inf")):
            return None
        from fractions import Fraction

        fr = Fraction(f)
        return z3.RealVal(f"{fr.numerator}/{fr.denominator}")
    return None


def _lowered(v):
    """Return plain python value if the term is a numeral."""
    return v


class SymInt(SymBase):
    __slots__ = ()

    @property
    def __class__(self):
        return int

    # --- realisation
    def __index__(self):
        return self.ctx.concretize(self)

    __int__ = __index__
    __trunc__ = __index__

    def __float__(self):
        return float(self.ctx.concretize(self))

    def __bool__(self):
        return self.ctx.branch(self.t != 0)

    def __hash__(self):
        return hash(self.ctx.concretize(self))

    def __floor__(self):
        return self

    __ceil__ = __floor__

    def __round__(self, n=None):
        return self

    def conjugate(self):
        return self

    @property
    def real(self):
        return self

    @property
    def imag(self):
        return 0

    @property
    def numerator(self):
        return self

    @property
    def denominator(self):
        return 1

    def bit_length(self):
        return self.ctx.concretize(self).bit_length()

    def to_bytes(self, *a, **k):
        return self.ctx.concretize(self).to_bytes(*a, **k)

    # --- arithmetic
    def _w(self, t):
        return SymInt(self.ctx, t)

    def __add__(self, o):
        i = _iterm(o)
        if i is not None:
            return self._w(self.t + i)
        r = _rterm(o)
        return NotImplemented if r is None else SymReal(self.ctx, z3.ToReal(self.t) + r)

    def __radd__(self, o):
        i = _iterm(o)
        if i is not None:
            return self._w(i + self.t)
        r = _rterm(o)
        return NotImplemented if r is None else SymReal(self.ctx, r + z3.ToReal(self.t))

    def __sub__(self, o):
        i = _iterm(o)
        if i is not None:
            return self._w(self.t - i)
        r = _rterm(o)
        return NotImplemented if r is None else SymReal(self.ctx, z3.ToReal(self.t) - r)

    def __rsub__(self, o):
        i = _iterm(o)
        if i is not None:
            return self._w(i - self.t)
        r = _rterm(o)
        return NotImplemented if r is None else SymReal(self.ctx, r - z3.ToReal(self.t))

    def __mul__(self, o):
        i = _iterm(o)
        if i is not None:
            return self._w(self.t * i)
        if isinstance(o, (list, tuple, str, bytes)):
            return o * self.ctx.concretize(self)
        r = _rterm(o)
        return NotImplemented if r is None else SymReal(self.ctx, z3.ToReal(self.t) * r)

    def __rmul__(self, o):
        i = _iterm(o)
        if i is not None:
            return self._w(i * self.t)
        if isinstance(o, (list, tuple, str, bytes)):
            return o * self.ctx.concretize(self)
        r = _rterm(o)
        return NotImplemented if r is None else SymReal(self.ctx, r * z3.ToReal(self.t))

    def __neg__(self):
        return self._w(-self.t)

    def __pos__(self):
        return self

    def __abs__(self):
        return self._w(z3.If(self.t < 0, -self.t, self.t))

    def __invert__(self):
        return self._w(-self.t - 1)

    def _divmod(self, a, b):
        c = self.ctx
        if z3.is_int_value(b):
            bv = b.as_long()
            if bv == 0:
                raise ZeroDivisionError("integer division or modulo by zero")
            pos = bv > 0
        else:
            if c.branch(b == 0):
                raise ZeroDivisionError("integer division or modulo by zero")
            pos = c.branch(b > 0)
        if pos:
            q = a / b
        else:
            q = (-a) / (-b)
        return q, a - q * b

    def __floordiv__(self, o):
        i = _iterm(o)
        return NotImplemented if i is None else self._w(self._divmod(self.t, i)[0])

    def __rfloordiv__(self, o):
        i = _iterm(o)
        return NotImplemented if i is None else self._w(self._divmod(i, self.t)[0])

    def __mod__(self, o):
        i = _iterm(o)
        return NotImplemented if i is None else self._w(self._divmod(self.t, i)[1])

    def __rmod__(self, o):
        if isinstance(o, str):
            return o % self.ctx.concretize(self)
        i = _iterm(o)
        return NotImplemented if i is None else self._w(self._divmod(i, self.t)[1])

    def __divmod__(self, o):
        i = _iterm(o)
        if i is None:
            return NotImplemented
        q, r = self._divmod(self.t, i)
        return self._w(q), self._w(r)

    def __rdivmod__(self, o):
        i = _iterm(o)
        if i is None:
            return NotImplemented
        q, r = self._divmod(i, self.t)
        return self._w(q), self._w(r)

    def __truediv__(self, o):
        return SymReal(self.ctx, z3.ToReal(self.t)) / o

    def __rtruediv__(self, o):
        return o / SymReal(self.ctx, z3.ToReal(self.t))

    def __pow__(self, o, mod=None):
        if type(o) is int and 0 <= o <= 4:
            r = z3.IntVal(1)
            for _ in range(o):
                r = r * self.t
            return self._w(r)
        return self.ctx.concretize(self) ** (o.__index__() if hasattr(o, "__index__") else o)

    def __rpow__(self, o):
        return o ** self.ctx.concretize(self)

    def __lshift__(self, o):
        return self * (1 << o.__index__())

    def __rlshift__(self, o):
        return o << self.ctx.concretize(self)

    def __rshift__(self, o):
        return self // (1 << o.__index__())

    def __rrshift__(self, o):
        return o >> self.ctx.concretize(self)

    def __and__(self, o):
        return self.ctx.concretize(self) & (o.__index__() if hasattr(o, "__index__") else o)

    __rand__ = __and__

    def __or__(self, o):
        return self.ctx.concretize(self) | (o.__index__() if hasattr(o, "__index__") else o)

    __ror__ = __or__

    def __xor__(self, o):
        return self.ctx.concretize(self) ^ (o.__index__() if hasattr(o, "__index__") else o)

    __rxor__ = __xor__

    # --- comparison
    def _cmp(self, o, f):
        i = _iterm(o)
        if i is not None:
            return SymBool(self.ctx, f(self.t, i))
        r = _rterm(o)
        if r is not None:
            return SymBool(self.ctx, f(z3.ToReal(self.t), r))
        return NotImplemented

    def __eq__(self, o):
        return self._cmp(o, lambda a, b: a == b)

    def __ne__(self, o):
        return self._cmp(o, lambda a, b: a != b)

    def __lt__(self, o):
        return self._cmp_inf(o, lambda a, b: a < b, -1)

    def __le__(self, o):
        return self._cmp_inf(o, lambda a, b: a <= b, -1)

    def __gt__(self, o):
        return self._cmp_inf(o, lambda a, b: a > b, 1)

    def __ge__(self, o):
        return self._cmp_inf(o, lambda a, b: a >= b, 1)

    def _cmp_inf(self, o, f, sign):
        r = self._cmp(o, f)
        if r is NotImplemented and isinstance(o, float):
            # infinities and nan: decided without the term
            if o != o:
                return False
            return (o > 0) == (sign < 0)
        return r


class SymReal(SymBase):
    """Exact rational arithmetic (used where the float computation is exact)."""

    __slots__ = ()

    @property
    def __class__(self):
        return float

    def __float__(self):
        v = self.ctx.concretize(self)
        return float(v)

    def __bool__(self):
        return self.ctx.branch(self.t != 0)

    def __hash__(self):
        return hash(self.ctx.concretize(self))

    def __int__(self):
        return self.ctx.concretize(self.__trunc__())

    def __trunc__(self):
        return SymInt(
            self.ctx, z3.If(self.t >= 0, z3.ToInt(self.t), -z3.ToInt(-self.t))
        )

    def __floor__(self):
        return SymInt(self.ctx, z3.ToInt(self.t))

    def __ceil__(self):
        return SymInt(self.ctx, -z3.ToInt(-self.t))

    # numpy object-dtype ufuncs look for these method names
    def floor(self):
        return SymReal(self.ctx, z3.ToReal(z3.ToInt(self.t)))

    def ceil(self):
        return SymReal(self.ctx, z3.ToReal(-z3.ToInt(-self.t)))

    def is_integer(self):
        return SymBool(self.ctx, z3.ToReal(z3.ToInt(self.t)) == self.t)

    def _w(self, t):
        return SymReal(self.ctx, t)

    def _bin(self, o, f):
        r = _rterm(o)
        return NotImplemented if r is None else self._w(f(r))

    def __add__(self, o):
        return self._bin(o, lambda r: self.t + r)

    __radd__ = __add__

    def __sub__(self, o):
        return self._bin(o, lambda r: self.t - r)

    def __rsub__(self, o):
        return self._bin(o, lambda r: r - self.t)

    def __mul__(self, o):
        return self._bin(o, lambda r: self.t * r)

    __rmul__ = __mul__

    def __truediv__(self, o):
        r = _rterm(o)
        if r is None:
            return NotImplemented
        if self.ctx.branch(r == 0):
            raise ZeroDivisionError("division by zero")
        return self._w(self.t / r)

    def __rtruediv__(self, o):
        r = _rterm(o)
        if r is None:
            return NotImplemented
        if self.ctx.branch(self.t == 0):
            raise ZeroDivisionError("division by zero")
        return self._w(r / self.t)

    def __floordiv__(self, o):
        q = self / o
        return q.floor()

    def __neg__(self):
        return self._w(-self.t)

    def __abs__(self):
        return self._w(z3.If(self.t < 0, -self.t, self.t))

    def _cmp(self, o, f, inf=None):
        r = _rterm(o)
        if r is None:
            if isinstance(o, float) and inf is not None:
                if o != o:
                    return False
                return (o > 0) == inf
            return NotImplemented
        return SymBool(self.ctx, f(r))

    def __eq__(self, o):
        return self._cmp(o, lambda r: self.t == r)

    def __ne__(self, o):
        return self._cmp(o, lambda r: self.t != r)

    def __lt__(self, o):
        return self._cmp(o, lambda r: self.t < r, True)

    def __le__(self, o):
        return self._cmp(o, lambda r: self.t <= r, True)

    def __gt__(self, o):
        return self._cmp(o, lambda r: self.t > r, False)

    def __ge__(self, o):
        return self._cmp(o, lambda r: self.t >= r, False)


def plain(x):
    """True if x is not a proxy."""
    return not isinstance_sym(x)


def isinstance_sym(x):
    return type(x) in (SymInt, SymBool, SymReal)


# --------------------------------------------------------------------------------------
# contexts


class BaseCtx:
    symbolic = False
    str_concretize = True

    def tracer(self, msg):
        pass


class ConcreteCtx(BaseCtx):
    """Run a harness on plain values (replay / encoding validation)."""

    symbolic = False

    def __init__(self, inputs, params=None):
        self.inputs = dict(inputs)
        self.params = params or {}
        self.used = {}
        self.witness = set()
        self.nchecks = 0

    def _get(self, name, default):
        v = self.inputs.get(name, default)
        self.used[name] = v
        return v

    def int(self, name, lo, hi):
        v = int(self._get(name, lo))
        if not lo <= v <= hi:
            raise PathInfeasible()
        return v

    def bool(self, name):
        return bool(self._get(name, False))

    def choose(self, name, options):
        options = list(options)
        return options[int(self._get(name, 0))]

    def bits(self, name, width):
        return int(self._get(name, 0)) % (1 << width)

    def real(self, name):
        from fractions import Fraction

        return Fraction(str(self._get(name, 0)))

    def checkpoint(self):
        pass

    def assume(self, c):
        if not c:
            raise PathInfeasible()

    def check(self, c, msg, **detail):
        self.nchecks += 1
        if not c:
            raise Failure(msg, dict(self.used), detail)

    def fail(self, msg, **detail):
        raise Failure(msg, dict(self.used), detail)

    def reach(self, name):
        self.witness.add(name)

    def concretize(self, x):
        return x

    def And(self, *a):
        return all(a)

    def Or(self, *a):
        return any(a)

    def Not(self, a):
        return not a

    def Implies(self, a, b):
        return (not a) or b

    def If(self, c, a, b):
        return a if c else b


class SymCtx(BaseCtx):
    symbolic = True
    str_concretize = False

    def __init__(self, ex):
        self.ex = ex
        self.vars = {}
        self.seen = {}
        self.params = ex.params

    # -- inputs
    def _new(self, name):
        if name in self.vars:
            raise RuntimeError(f"duplicate symbolic input {name}")

    def int(self, name, lo, hi):
        self._new(name)
        v = z3.Int(name)
        self.vars[name] = v
        if lo == hi:
            self.ex.add(v == lo)
            return lo
        self.ex.add(z3.And(v >= lo, v <= hi))
        return SymInt(self, v)

    def bool(self, name):
        self._new(name)
        v = z3.Bool(name)
        self.vars[name] = v
        return SymBool(self, v)

    def choose(self, name, options):
        options = list(options)
        if len(options) == 1:
            self.int(name, 0, 0)
            return options[0]
        i = self.int(name, 0, len(options) - 1)
        return options[self.concretize(i)]

    def bits(self, name, width):
        """A raw z3 bit vector, for code executed at the level of machine words."""
        self._new(name)
        self.vars[name] = z3.BitVec(name, width)
        return self.vars[name]

    def real(self, name):
        """A raw z3 real, for compiled code executed over exact arithmetic."""
        self._new(name)
        self.vars[name] = z3.Real(name)
        return self.vars[name]

    def checkpoint(self):
        """Leave the inputs of this path behind, in case the process dies in compiled code."""
        f = os.environ.get("VP_LAST")
        if not f:
            return
        ex = self.ex
        if ex._model is None:
            if not ex._check():
                raise PathInfeasible()
            ex._model = ex.model()
        with open(f, "w") as fh:
            json.dump(ex.inputs_from(self, ex._model), fh)

    def prove(self, assumptions, claim, msg, timeout_ms=120000, abstract_div=False, **detail):
        """One query on a solver of its own: bit vectors do badly in the incremental one.

        `abstract_div`: first try with every floating point quotient replaced by a fresh variable
        (what holds for any value of the quotients holds for the true ones)."""
        ex = self.ex
        if abstract_div:
            sub, seen, todo = [], set(), [claim]
            while todo:
                t = todo.pop()
                if t.get_id() in seen:
                    continue
                seen.add(t.get_id())
                if z3.is_fp(t) and t.decl().kind() == z3.Z3_OP_FPA_DIV:
                    sub.append((t, z3.FreshConst(t.sort(), "quot")))
                else:
                    todo.extend(t.children())
            s = z3.Solver()
            s.set("timeout", timeout_ms)
            t0 = time.perf_counter()
            s.add(*ex.solver.assertions(), *assumptions, z3.Not(z3.substitute(claim, *sub)))
            r = s.check()
            ex.stats.solver_s += time.perf_counter() - t0
            ex.stats.queries += 1
            if r == z3.unsat:
                ex.stats.checks += 1
                ex.stats.checks_symbolic += 1
                return
        s = z3.Solver()
        s.set("timeout", timeout_ms)
        s.add(*ex.solver.assertions())
        s.add(*assumptions)
        t0 = time.perf_counter()
        s.add(z3.Not(claim))
        r = s.check()
        ex.stats.solver_s += time.perf_counter() - t0
        ex.stats.queries += 1
        ex.stats.checks += 1
        ex.stats.checks_symbolic += 1
        if r == z3.sat:
            raise Failure(msg, ex.inputs_from(self, s.model()), detail)
        if r == z3.unknown:
            raise Skip(f"solver returned unknown: {s.reason_unknown()}")

    # -- logic
    def _b(self, c):
        t = type(c)
        if t is SymBool:
            return c.t
        if t is SymInt:
            return c.t != 0
        if isinstance(c, z3.BoolRef):
            return c
        return _T if c else _F

    def And(self, *a):
        return SymBool(self, z3.And(*[self._b(x) for x in a]))

    def Or(self, *a):
        return SymBool(self, z3.Or(*[self._b(x) for x in a]))

    def Not(self, a):
        return SymBool(self, z3.Not(self._b(a)))

    def Implies(self, a, b):
        return SymBool(self, z3.Implies(self._b(a), self._b(b)))

    def If(self, c, a, b):
        ai, bi = _iterm(a), _iterm(b)
        return SymInt(self, z3.If(self._b(c), ai, bi))

    def assume(self, c):
        t = self._b(c)
        if z3.is_true(t):
            return
        self.ex.assume(t)

    def branch(self, t):
        if not self.ex.lazy:
            return self.ex.branch(t)
        t = z3.simplify(t)
        known = self.seen.get(t.get_id())
        if known is None:
            v = self.ex.branch(t)
            n = z3.simplify(z3.Not(t))
            self.seen[t.get_id()], self.seen[n.get_id()] = (t, v), (n, not v)
            return v
        return known[1]

    def concretize(self, x):
        if not isinstance_sym(x):
            return x
        if type(x) is SymBool:
            return bool(x)
        return self.ex.concretize(x.t)

    def check(self, c, msg, **detail):
        self.ex.check(self, self._b(c), msg, detail)

    def fail(self, msg, **detail):
        self.ex.check(self, _F, msg, detail)

    def reach(self, name):
        self.ex.reached.add(name)


class Explorer:
    """Depth-first exploration of all feasible paths of a harness."""

    def __init__(self, body, params=None, stats=None, deadline=None, max_paths=10**7,
                 timeout_ms=60000, sample_every=0, max_samples=20):
        self.body = body
        self.params = params or {}
        self.stats = stats or Stats()
        self.deadline = deadline
        self.max_paths = max_paths
        self.solver = z3.Solver()
        self.solver.set("timeout", timeout_ms)
        self.reached = set()
        self.failures = []
        self.samples = []
        self.max_samples = max_samples
        self.sample_every = sample_every
        # decision stack: list of dict(level, term, alt, kind, value)
        self.stack = []
        self.pos = 0
        self._model = None
        self.lazy = False

    # -- solver access
    def _check(self, *assumptions):
        t0 = time.perf_counter()
        r = self.solver.check(*assumptions)
        self.stats.solver_s += time.perf_counter() - t0
        self.stats.queries += 1
        if r == z3.unknown:
            raise Inconclusive(f"solver returned unknown: {self.solver.reason_unknown()}")
        return r == z3.sat

    def model(self):
        return self.solver.model()

    def _model_says(self, t):
        """Try the cached model: True/False if it decides t, else None."""
        if self._model is None:
            return None
        v = self._model.eval(t, model_completion=True)
        if z3.is_true(v):
            return True
        if z3.is_false(v):
            return False
        return None

    # -- path constraint
    def add(self, t):
        """Add an input constraint (deterministic along the path)."""
        if self.pos < len(self.stack):
            # part of an already pushed frame
            d = self.stack[self.pos]
            if d["kind"] != "add":
                raise Inconclusive("non-deterministic harness: add expected " + d["kind"])
            self.pos += 1
            return
        self.solver.push()
        self.solver.add(t)
        self.stack.append({"kind": "add", "alt": None})
        self.pos += 1
        self._model = None

    def assume(self, t):
        if self.pos < len(self.stack):
            d = self.stack[self.pos]
            if d["kind"] != "assume":
                raise Inconclusive("non-deterministic harness: assume expected " + d["kind"])
            self.pos += 1
            return
        self.solver.push()
        self.solver.add(t)
        self.stack.append({"kind": "assume", "alt": None})
        self.pos += 1
        if self._model_says(t) is not True:
            if not self._check():
                raise PathInfeasible()
            self._model = self.model()

    def _tick(self):
        if self.deadline is not None and time.time() > self.deadline:
            raise BudgetExceeded("time budget exhausted before exploration finished")

    def branch(self, t):
        t = z3.simplify(t)
        if z3.is_true(t):
            return True
        if z3.is_false(t):
            return False
        if self.pos < len(self.stack):
            d = self.stack[self.pos]
            if d["kind"] != "branch":
                raise Inconclusive("non-deterministic harness: branch expected " + d["kind"])
            self.pos += 1
            return d["value"]
        self._tick()
        self.stats.decisions += 1
        if self.lazy:
            # both sides, feasible or not: only a failure asks the solver about its path
            self.solver.push()
            self.solver.add(t)
            self.stack.append({"kind": "branch", "alt": z3.Not(t), "value": True, "altmodel": None})
            self._model = None
            self.pos += 1
            return True
        says = self._model_says(t)
        if says is None:
            can_t = self._check(t)
            mt = self.model() if can_t else None
            can_f = self._check(z3.Not(t))
            mf = self.model() if can_f else None
        elif says:
            can_t, mt = True, self._model
            can_f = self._check(z3.Not(t))
            mf = self.model() if can_f else None
        else:
            can_f, mf = True, self._model
            can_t = self._check(t)
            mt = self.model() if can_t else None
        if not can_t and not can_f:
            raise PathInfeasible()
        value = bool(can_t)
        alt = can_t and can_f
        self.solver.push()
        self.solver.add(t if value else z3.Not(t))
        self.stack.append(
            {"kind": "branch", "alt": z3.Not(t) if alt else None, "value": value,
             "altmodel": mf if alt else None}
        )
        self._model = mt if value else mf
        self.pos += 1
        return value

    def concretize(self, t):
        t = z3.simplify(t)
        if z3.is_int_value(t):
            return t.as_long()
        if z3.is_rational_value(t):
            f = t.as_fraction()
            return float(f)
        if self.pos < len(self.stack):
            d = self.stack[self.pos]
            if d["kind"] != "value":
                raise Inconclusive("non-deterministic harness: value expected " + d["kind"])
            self.pos += 1
            return d["value"]
        self._tick()
        self.stats.decisions += 1
        self.stats.realisations += 1
        if self._model is None:
            if not self._check():
                raise PathInfeasible()
            self._model = self.model()
        v = self._model.eval(t, model_completion=True)
        alt = self._check(t != v)
        am = self.model() if alt else None
        self.solver.push()
        self.solver.add(t == v)
        pv = v.as_long() if z3.is_int_value(v) else float(v.as_fraction())
        self.stack.append(
            {"kind": "value", "value": pv, "term": t, "seen": [v],
             "alt": True if alt else None, "altmodel": am}
        )
        self.pos += 1
        return pv

    def _backtrack(self):
        """Move to the next unexplored alternative; False when there is none."""
        while self.stack:
            d = self.stack.pop()
            self.solver.pop()
            if d.get("alt") is None:
                continue
            if d["kind"] == "branch":
                self.solver.push()
                self.solver.add(d["alt"])
                self.stack.append({"kind": "branch", "alt": None, "value": not d["value"]})
                self._model = d["altmodel"]
            else:
                v = d["altmodel"].eval(d["term"], model_completion=True)
                seen = d["seen"] + [v]
                more = self._check(*[d["term"] != s for s in seen])
                am = self.model() if more else None
                self.solver.push()
                self.solver.add(d["term"] == v)
                pv = v.as_long() if z3.is_int_value(v) else float(v.as_fraction())
                self.stack.append(
                    {"kind": "value", "value": pv, "term": d["term"], "seen": seen,
                     "alt": True if more else None, "altmodel": am}
                )
                self._model = d["altmodel"]
            return True
        return False

    # -- assertions
    def inputs_from(self, ctx, m):
        out = {}
        for k, v in ctx.vars.items():
            e = m.eval(v, model_completion=True)
            if z3.is_int_value(e):
                out[k] = e.as_long()
            elif z3.is_bv_value(e):
                out[k] = e.as_long()
            elif z3.is_bool(e):
                out[k] = bool(z3.is_true(e))
            else:
                out[k] = str(e)
        return out

    def check(self, ctx, t, msg, detail):
        self.stats.checks += 1
        t = z3.simplify(t)
        if z3.is_true(t):
            return
        if z3.is_false(t):
            if not self._check():
                raise PathInfeasible()
            raise Failure(msg, self.inputs_from(ctx, self.model()), detail)
        self.stats.checks_symbolic += 1
        if self._check(z3.Not(t)):
            raise Failure(msg, self.inputs_from(ctx, self.model()), detail)
        # implied by the path condition: no need to add it

    # -- main loop
    def run(self, stop_on_failure=True):
        first = True
        while True:
            self._tick()
            self.pos = 0
            ctx = SymCtx(self)
            completed = False
            try:
                self.body(ctx)
                completed = True
            except PathDone:
                completed = True
            except PathInfeasible:
                self.stats.infeasible += 1
            except Failure as f:
                self.failures.append(f)
                self.stats.paths += 1
                if stop_on_failure:
                    return self.failures
            except Inconclusive:
                raise
            except Exception as e:
                if not in_repo(e):
                    raise
                self.stats.paths += 1
                if self._check():
                    self.failures.append(
                        Failure(f"unexpected {type(e).__name__}",
                                self.inputs_from(ctx, self.model()), describe(e))
                    )
                    if stop_on_failure:
                        return self.failures
            if completed:
                if self.pos != len(self.stack):
                    raise Inconclusive("non-deterministic harness: prefix not consumed")
                self.stats.paths += 1
                n = self.stats.paths
                if self.sample_every and len(self.samples) < self.max_samples and (
                    n % self.sample_every == 1 or self.sample_every == 1
                ):
                    if self._model is None and self._check():
                        self._model = self.model()
                    if self._model is not None:
                        self.samples.append(self.inputs_from(ctx, self._model))
            if self.stats.paths > self.max_paths:
                raise BudgetExceeded("path bound exceeded")
            if not self._backtrack():
                return self.failures
