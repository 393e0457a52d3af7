"""P32: times convert between all their forms exactly, alone or in arrays.

The conversion of unix times to calendar dates runs on a symbolic time, for all seconds of many
years, and the solver shows that the date it gives is the day the time lies in. The real conversions
between unix times, datetimes, strings and Skyfield times run on symbolically chosen dates (at the
boundaries of days, months, leap years and leap seconds), time zones and containers, and are compared
with one another; the decorators which handle scalars and sequences are compared with the function
applied to each element, on symbolic values.
"""

import datetime as D
import warnings

import numpy as np

from vp import engine
from vp.engine import SymInt
from vp.harness import Harness

ASSUMPTIONS = [
    "times between 1901 and 2099 (calendar: between 1697 and 2514); the leap seconds and Earth orientation shipped in the repository",
    "the calendar arithmetic of Skyfield and datetime are executed, not modelled; sequences of at most 3 times, in one dimension",
    "positions and events of sources are outside of this claim (see P34)",
]

UTC = D.timezone.utc
EPOCH = D.datetime(1970, 1, 1, tzinfo=UTC)


def quiet():
    warnings.simplefilter("ignore")


# ------------------------------------------------------------------ the calendar


class Whole(SymInt):
    """A symbolic integer which may be divided by whole floats."""

    @staticmethod
    def _i(o):
        return int(o) if isinstance(o, float) and o.is_integer() else o

    def __divmod__(self, o):
        return super().__divmod__(self._i(o))

    def __floordiv__(self, o):
        return super().__floordiv__(self._i(o))

    def __mod__(self, o):
        return super().__mod__(self._i(o))

    def __sub__(self, o):
        return super().__sub__(self._i(o))

    def __add__(self, o):
        return super().__add__(self._i(o))


def calendar(ctx):
    """The date of a time is that of the day it lies in, and the seconds are those since its start."""
    quiet()
    from caput.astro import skyfield as csf

    got = []

    class Scale:
        def utc(self, year, month=1, day=1, hour=0, minute=0, second=0.0):
            got.append((year, month, day, hour * 3600 + minute * 60 + second if hour or minute else second))
            return "time"

    f = getattr(csf.unix_to_skyfield_time, "func", None)
    if f is None:
        raise engine.Skip("the function is not accessible")
    x = ctx.int("time", ctx.params["lo"], ctx.params["hi"])
    t = Whole(ctx, x.t) if isinstance(x, SymInt) else x
    w, old = csf.skyfield_wrapper, csf.skyfield_wrapper._timescale
    w._timescale = Scale()
    try:
        try:
            f(t)
        except (TypeError, AttributeError) as e:
            raise engine.Skip(f"not encodable: {e}") from None
    finally:
        w._timescale = old
    if len(got) != 1 or any(isinstance(v, np.ndarray) for v in got[0]):
        raise engine.Skip("not encodable")
    y, m, d, s = got[0]
    day = x // 86400
    ctx.check(s >= 0 and s < 86400, "the seconds are not those of a day")
    ctx.check(s == x - day * 86400, "other seconds since the start of the day")
    ctx.check(m >= 1 and m <= 12 and d >= 1 and d <= 31, "no such date")
    # the number of days of a date, in years which start in March
    late = m > 2
    yy = y if late else y - 1
    era = yy // 400
    yoe = yy - era * 400
    doy = (153 * (m - 3 if late else m + 9) + 2) // 5 + d - 1
    n = era * 146097 + yoe * 365 + yoe // 4 - yoe // 100 + doy - 719468
    ctx.check(n == day, "the date is that of another day")
    ctx.reach("late" if late else "early")


# ------------------------------------------------------------------ conversions


DATES = [(1970, 1, 1), (1969, 12, 31), (1999, 12, 31), (2000, 2, 29), (2016, 12, 31), (2017, 1, 1), (2023, 3, 1), (2038, 1, 19)]
SECS = [0, 1, 43200, 86399]
ZONES = [None, UTC, D.timezone(D.timedelta(hours=5, minutes=30)), D.timezone(-D.timedelta(hours=8))]


def pack(form, xs):
    if form == "scalar":
        return xs[0]
    if form == "list":
        return list(xs)
    if form == "tuple":
        return tuple(xs)
    a = np.empty(len(xs), dtype=object) if not isinstance(xs[0], (int, float, str)) else np.array(xs)
    a[:] = xs
    return a.reshape(()) if form == "0-d" else a


def unpack(ctx, form, got, n, what):
    if form in ("scalar", "0-d"):
        ctx.check(not isinstance(got, np.ndarray) or got.ndim == 0, "a scalar became an array", what=what, got=repr(got))
        return [got if not isinstance(got, np.ndarray) else got.item()]
    ctx.check(isinstance(got, np.ndarray) and got.shape == (n,), "a sequence has another length", what=what, got=repr(got))
    return list(got)


def conversions(ctx):
    """Every form of a time gives the same unix time, and the other way round."""
    quiet()
    from caput.astro import skyfield as csf
    from caput.astro import time as ct

    zone = ctx.params["zone"]
    form = ctx.choose("form", ["scalar", "list", "tuple", "array", "0-d"])
    n = 1 if form in ("scalar", "0-d") else 2
    pick = ctx.choose("date", list(range(len(DATES))))
    sec = ctx.choose("second", SECS)
    us = ctx.choose("micro", [0, 1, 250000, 999999])
    tz = ZONES[zone]
    dts, unix = [], []
    for i in range(n):
        u = D.datetime(*DATES[(pick + 3 * i) % len(DATES)], tzinfo=UTC) + D.timedelta(seconds=sec, microseconds=us)
        dts.append(u.replace(tzinfo=None) if tz is None else u.astimezone(tz))
        unix.append((u - EPOCH).total_seconds())
    what = ctx.choose("what", ["datetime", "string", "skyfield", "day", "naive"])
    if what == "datetime":
        for f in (ct.datetime_to_unix, ct.ensure_unix):
            got = unpack(ctx, form, f(pack(form, dts)), n, f.__name__)
            ctx.check([float(g) for g in got] == unix, "another unix time", got=got, want=unix, zone=str(tz))
        back = unpack(ctx, form, ct.unix_to_datetime(pack(form, unix)), n, "unix_to_datetime")
        ctx.check(all(b.tzinfo is not None and b.utcoffset() == D.timedelta(0) and abs((b - EPOCH).total_seconds() - u) < 2e-6
                      for b, u in zip(back, unix)), "another datetime", got=back, want=unix)
        same = unpack(ctx, form, ct.ensure_unix(pack(form, unix)), n, "ensure_unix")
        ctx.check([float(g) for g in same] == unix, "a unix time was changed", got=same)
        whole = [int(u // 1) for u in unix]
        same = unpack(ctx, form, ct.ensure_unix(pack(form, whole)), n, "ensure_unix")
        ctx.check([float(g) for g in same] == [float(x) for x in whole], "a unix time was changed", got=same)
    elif what == "string":
        s = unpack(ctx, form, ct.datetime_to_timestr(pack(form, dts)), n, "datetime_to_timestr")
        want = [(EPOCH + D.timedelta(seconds=int(u // 1))).strftime("%Y%m%dT%H%M%SZ") for u in unix]
        ctx.check([str(x) for x in s] == want, "another string", got=s, want=want, zone=str(tz))
        back = unpack(ctx, form, ct.timestr_to_datetime(pack(form, want)), n, "timestr_to_datetime")
        ctx.check([b.replace(tzinfo=UTC) for b in back] == [EPOCH + D.timedelta(seconds=int(u // 1)) for u in unix], "another datetime", got=back)
        got = unpack(ctx, form, ct.ensure_unix(pack(form, want)), n, "ensure_unix")
        ctx.check([float(g) for g in got] == [float(u // 1) for u in unix], "another unix time", got=got)
    elif what == "skyfield":
        t = csf.unix_to_skyfield_time(pack(form, unix))
        for f in (csf.skyfield_time_to_unix, ct.ensure_unix):
            got = f(t)
            got = unpack(ctx, form, got, n, f.__name__)
            ctx.check(all(abs(float(g) - u) < 2e-3 for g, u in zip(got, unix)), "another unix time", got=got, want=unix)
    elif what == "day":
        for x in (pack(form, unix), pack(form, dts)):
            got = unpack(ctx, form, ct.time_of_day(x), n, "time_of_day")
            ctx.check(all(abs(float(g) - (u % 86400)) < 2e-6 for g, u in zip(got, unix)), "another time of the day", got=got, want=unix)
    else:
        got = unpack(ctx, form, ct.naive_datetime_to_utc(pack(form, dts)), n, "naive_datetime_to_utc")
        ctx.check([(g - EPOCH).total_seconds() for g in got] == unix and [g.replace(tzinfo=None) for g in got] == [d.replace(tzinfo=None) for d in dts],
                  "another time", got=got)
    ctx.reach(what)


def empty(ctx):
    """No times give no times."""
    quiet()
    from caput.astro import skyfield as csf
    from caput.astro import time as ct

    f = ctx.choose("f", ["datetime_to_unix", "unix_to_datetime", "ensure_unix", "datetime_to_timestr", "timestr_to_datetime", "unix_to_era",
                         "naive_datetime_to_utc", "time_of_day", "leap_seconds_between", "unix_to_skyfield_time"])
    form = ctx.choose("form", ["list", "tuple", "array"])
    x = {"list": [], "tuple": (), "array": np.array([])}[form]
    g = getattr(ct, f, None) or getattr(csf, f)
    r = g(x, x) if f == "leap_seconds_between" else g(x)
    ctx.check(isinstance(r, np.ndarray) and r.shape == (0,), "not empty", f=f, got=repr(r))
    ctx.reach("done")


LEAPS = [(1999, 1, 1), (2006, 1, 1), (2009, 1, 1), (2012, 7, 1), (2015, 7, 1), (2017, 1, 1)]


def leaps(ctx):
    """The leap seconds between two times are those introduced between them."""
    quiet()
    from caput.astro import time as ct

    ls = [(D.datetime(*d, tzinfo=UTC) - EPOCH).total_seconds() for d in LEAPS]
    ts = [883612800.0, *(x + d for x in ls for d in (-1.0, 0.0, 3600.0)), 1609459200.0]
    a = ctx.choose("a", ts)
    b = ctx.choose("b", ts)
    want = sum(a < x <= b for x in ls) - sum(b < x <= a for x in ls)
    got = ct.leap_seconds_between(a, b)
    ctx.check(int(got) == want, "another number of leap seconds", a=a, b=b, got=int(got), want=want)
    got = ct.leap_seconds_between(np.array([a, a]), np.array([b, a]))
    ctx.check(list(got) == [want, 0], "another number of leap seconds", a=a, b=b, got=list(got), want=want)
    ctx.reach("some" if want else "none")


def angles(ctx):
    """The time of a rotation angle after a given time is the time with that angle."""
    quiet()
    from caput.astro import time as ct

    ls = [(D.datetime(*d, tzinfo=UTC) - EPOCH).total_seconds() for d in LEAPS]
    t0 = ctx.choose("start", [x + d for x in (ls[4], ls[5], 1.6e9) for d in (-86000.0, -40000.0, -100.0, 0.0, 500.25)])
    dt = ctx.choose("later", [0.5, 60.0, 3600.0, 43000.0, 86000.0])
    form = ctx.choose("form", ["scalar", "list", "array"])
    t = t0 + dt
    era = ct.unix_to_era(t)
    ctx.check(0 <= float(era) < 360.0 + 1e-9, "no angle", got=era)
    got = ct.era_to_unix(pack(form, [era] if form == "scalar" else [era, era]), t0)
    got = [got] if form == "scalar" else list(got)
    ctx.check(all(abs(float(g) - t) < 5e-3 for g in got), "another time", got=got, want=t, start=t0)
    arr = ct.unix_to_era(np.array([t, t0]))
    ctx.check(abs(float(arr[0]) - float(era)) < 1e-9 and abs(float(arr[1]) - float(ct.unix_to_era(t0))) < 1e-9, "arrays give other angles")
    ctx.reach("done")


# ------------------------------------------------------------------ decorators


def decorated(ctx):
    """A decorated function or method gives, for every element, what it gives for that element."""
    quiet()
    from caput.util import arraytools as at

    kind = ctx.choose("kind", ["vectorize", "scalarize", "listize", "both"])
    method = bool(ctx.bool("method"))
    dec = {"vectorize": [at.vectorize(otypes=[object])], "scalarize": [at.scalarize()], "listize": [at.listize()],
           "both": [at.listize(), at.scalarize()]}[kind]
    form = [ctx.choose(f"form{i}", ["scalar", "list", "tuple", "array"] + (["0-d"] if kind != "both" else [])) for i in range(2)]
    k = ctx.concretize(ctx.int("length", 1, 3))
    pos = bool(ctx.bool("keyword"))
    xs = [[ctx.int(f"x{i}{j}", -9, 9) for j in range(k if form[i] in ("list", "tuple", "array") else 1)] for i in range(2)]
    calls = []

    def f(a, b, c=0):
        """Doc."""
        calls.append((a, b))
        return a - b + c

    def g(self, a, b, c=0):
        """Doc."""
        return f(a, b, c) + self.off

    h = g if method else f
    for d in reversed(dec):
        h = d(h)
    ctx.check(h.__name__ == ("g" if method else "f") and h.__doc__ == "Doc.", "the name or documentation is lost")
    if method:
        obj = type("C", (), {"h": h, "off": 100})()
        h = obj.h
    args = [pack(form[i], xs[i]) for i in range(2)]
    if kind == "listize" and any(isinstance(a, np.ndarray) and a.ndim == 0 for a in args):
        return
    r = h(*args, **({"c": 1000} if pos else {}))
    off = (100 if method else 0) + (1000 if pos else 0)
    scalars = all(x in ("scalar", "0-d") for x in form)
    n = 1 if scalars else k
    want = [xs[0][j if len(xs[0]) > 1 else 0] - xs[1][j if len(xs[1]) > 1 else 0] + off for j in range(n)]
    if scalars:
        ctx.check(not isinstance(r, np.ndarray), "a scalar became an array", kind=kind, got=repr(r))
        r = [r]
    else:
        ctx.check(isinstance(r, np.ndarray) and r.shape == (n,), "another shape", kind=kind, got=repr(r))
    for a, b in zip(r, want):
        ctx.check(a == b, "another value", kind=kind)
    ctx.reach(kind)


def harnesses(tier):
    q = tier == "quick"
    out = []
    lim = 2 ** 33 if q else 2 ** 34
    step = lim // 4
    for i in range(-4, 4 if q else 8):
        out.append(Harness(f"calendar{i:+d}", calendar, params={"lo": i * step, "hi": (i + 1) * step - 1}, weight=4,
                           reach=["late", "early"], bounds=f"every second from {i * step} to {(i + 1) * step - 1}"))
    for z in range(4):
        out.append(Harness(f"conversions-{z}", conversions, params={"zone": z}, weight=3,
                           reach=["datetime", "string", "skyfield", "day", "naive"],
                           bounds="8 dates, 4 times of the day, 4 fractions, 5 forms"))
    out.append(Harness("empty", empty, reach=["done"], bounds="10 functions"))
    out.append(Harness("leaps", leaps, reach=["some", "none"], bounds="around 6 leap seconds"))
    out.append(Harness("angles", angles, reach=["done"], bounds="around 2 leap seconds, within a day"))
    out.append(Harness("decorated", decorated, reach=["vectorize", "scalarize", "listize", "both"], weight=2,
                       bounds="2 arguments in 5 forms, lengths 1-3, all values"))
    return out
