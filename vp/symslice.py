"""A slice whose fields may be symbolic, for code that handles slice objects.

``slice`` is looked up as a module global by code under test; a harness puts ``SymSlice`` in
its place so that ``isinstance(x, slice)``, ``slice(...)`` and ``.indices`` keep the fields
symbolic (the builtin would realise them one value at a time).
"""

import contextlib

from . import engine


class _Meta(type):
    def __instancecheck__(cls, o):
        return type(o) in (SymSlice, slice)


class SymSlice(metaclass=_Meta):
    def __init__(self, *a):
        if len(a) == 1:
            a = (None, a[0], None)
        elif len(a) == 2:
            a = (*a, None)
        self.start, self.stop, self.step = a

    def __repr__(self):
        return "slice(sym)"

    def indices(self, length):
        return indices(self, length)

    def __eq__(self, o):
        if type(o) not in (SymSlice, slice):
            return NotImplemented
        return all(
            (a is None) == (b is None) and (a is None or a == b)
            for a, b in zip(
                (self.start, self.stop, self.step), (o.start, o.stop, o.step)
            )
        )

    __hash__ = None


def indices(s, length):
    """Documented semantics of slice.indices, on possibly symbolic values."""
    step = 1 if s.step is None else s.step
    if step == 0:
        raise ValueError("slice step cannot be zero")
    neg = bool(step < 0)
    lower = -1 if neg else 0
    upper = length - 1 if neg else length

    def norm(v, default):
        if v is None:
            return default
        if v < 0:
            v = v + length
            return lower if v < lower else v
        return upper if v > upper else v

    start = norm(s.start, upper if neg else lower)
    stop = norm(s.stop, lower if neg else upper)
    return start, stop, step


def contains(ctx, s, length, x):
    """Condition: x is one of range(*s.indices(length)) (step must be concrete)."""
    a, b, st = indices(s, length)
    if st > 0:
        return ctx.And(x >= a, x < b, (x - a) % st == 0)
    return ctx.And(x <= a, x > b, (a - x) % (-st) == 0)


@contextlib.contextmanager
def patched(*modules):
    """Put SymSlice in place of ``slice`` in the given modules."""
    old = []
    for m in modules:
        old.append((m, m.__dict__.get("slice", engine)))
        m.__dict__["slice"] = SymSlice
    try:
        yield
    finally:
        for m, o in old:
            if o is engine:
                del m.__dict__["slice"]
            else:
                m.__dict__["slice"] = o
