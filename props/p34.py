"""P34: stellar days and times convert into one another; every rise, set and transit is found once.

The search for events runs on functions whose roots are symbolic real numbers: for all positions of the
roots (further apart than the search step, on the points of the search grid too) the solver shows that
the search returns each root in the interval once, in order and with its direction. The real observer
then works on a sky of fixed and moving bodies, of which the events are found independently on a fine
grid, for symbolically chosen places, sources, intervals and steps; and converts times to stellar days
and angles, and back.
"""

import datetime as D
import warnings
from fractions import Fraction

import numpy as np

from vp import engine
from vp.harness import Harness

ASSUMPTIONS = [
    "the positions come from Skyfield with bodies of the check (no ephemeris is available here); its time scales and frames are executed, not modelled",
    "roots are further apart than the search step, and cross zero; scipy's brentq finds the one root between its ends (executed in the other harnesses)",
    "events are compared to 0.2 s, stellar days to 1e-7 (about 10 ms); events within 2 s of the ends of an interval may or may not be in it",
]


def quiet():
    warnings.simplefilter("ignore")


# ------------------------------------------------------------------ the search


def search(ctx):
    """All roots, each once, for all positions of the roots."""
    quiet()
    from caput.astro import observer

    solve = getattr(observer, "_solve_all", None)
    if solve is None or not hasattr(observer, "brentq"):
        raise engine.Skip("the search is not accessible")
    x0, x1, dx = ctx.params["grid"]
    n = ctx.params["n"]
    rs = [ctx.real(f"r{i}") for i in range(n)]
    rs = [r if isinstance(r, Fraction) else engine.SymReal(ctx, r) for r in rs]
    ctx.assume(rs[0] > x0 - 1)
    ctx.assume(rs[-1] < x1 + 1)
    for a, b in zip(rs, rs[1:]):
        ctx.assume(b - a > dx * 1.001)
    up = ctx.choose("up", [True, False])
    skip_up = ctx.choose("skip_up", [False, True])
    skip_down = ctx.choose("skip_down", [False, True])
    asked = []

    def value(x):
        asked.append(x)
        if len(asked) > 300:
            raise engine.Skip("the search is not encodable")
        s = -1.0 if up else 1.0
        for r in rs:
            if r == x:
                return 0.0
            if x < r:
                return s
            s = -s
        return s

    def f(x):
        if np.ndim(x) == 0:
            return value(float(x))
        return np.array([value(float(v)) for v in np.ravel(x)]).reshape(np.shape(x))

    def brentq(g, a, b, *args, **kw):
        ctx.check(f(a) * f(b) <= 0, "a root is searched between values of the same sign")
        for i, r in enumerate(rs):
            if r >= float(a) and r <= float(b):
                return float(i)
        raise RuntimeError("no root")

    old = observer.brentq
    observer.brentq = brentq
    try:
        roots, rising = solve(f, x0, x1, dx, skip_increasing=skip_up, skip_decreasing=skip_down)
    finally:
        observer.brentq = old
    want = []
    for i, r in enumerate(rs):
        inside = r >= x0 and r <= x1
        inc = up == (i % 2 == 0)
        if inside and not (skip_up if inc else skip_down):
            want.append((i, inc))
    got = [(int(i), bool(p)) for i, p in zip(roots, rising)]
    ctx.check(len(roots) == len(rising), "as many directions as roots")
    ctx.check([i for i, _ in got] == [i for i, _ in want], "other roots than those in the interval", got=got, want=want)
    ctx.check(got == want, "another direction of a root", got=got, want=want)
    ctx.reach("some" if want else "none")


# ------------------------------------------------------------------ the sky


def sky():
    from caput.astro import skyfield as csf
    from skyfield.vectorlib import VectorFunction

    class Body(VectorFunction):
        """A body which stands still, or goes round the pole once in some days."""

        def __init__(self, target, pos, days=None):
            self.center, self.target, self.pos, self.days = 0, target, pos, days

        def _at(self, t):
            tt = np.asarray(t.tt, dtype=float)
            p = np.zeros((3, *tt.shape))
            x, y, z = self.pos
            w = 0 * tt if self.days is None else 2 * np.pi * (tt - 2451545.0) / self.days
            p[0] = x * np.cos(w) - y * np.sin(w)
            p[1] = x * np.sin(w) + y * np.cos(w)
            p[2] = z
            return p, np.zeros_like(p), None, None

    class Wrapper:
        timescale = csf.skyfield_wrapper.timescale
        ephemeris = {
            "earth": Body(399, (0.0, 0.0, 0.0)),
            "sun": Body(10, (0.9, 0.1, 0.2), 365.25),
            "moon": Body(301, (-0.5, 0.3, 0.1), 27.3),
        }

    return Wrapper()


def hourangle(obs, w, source, unix):
    from caput.astro import skyfield as csf

    t = csf.unix_to_skyfield_time(unix)
    ra = obs.at(t).observe(source).radec(epoch=t)[0]._degrees
    return t.gast * 15 + w.lon - ra


def altitude(obs, w, source, unix):
    """The altitude of a source, from its place in the frame of the date."""
    from caput.astro import skyfield as csf

    t = csf.unix_to_skyfield_time(unix)
    ra, dec, _ = obs.at(t).observe(source).radec(epoch=t)
    ha = np.radians(t.gast * 15 + w.lon) - ra.radians
    la = np.radians(w.lat)
    return np.degrees(np.arcsin(np.sin(la) * np.sin(dec.radians) + np.cos(la) * np.cos(dec.radians) * np.cos(ha)))


def crossings(f, a, b):
    """The times at which a function crosses zero, and the directions."""
    n = int((b - a) / 300) + 2
    x = np.linspace(a, b, n)
    y = f(x)
    out = []
    for i in np.flatnonzero((y[:-1] > 0) != (y[1:] > 0)):
        lo, hi, s = x[i], x[i + 1], y[i] > 0
        if abs(y[i] - y[i + 1]) > 180:
            continue
        for _ in range(40):
            mid = (lo + hi) / 2
            if (f(np.array([mid]))[0] > 0) == s:
                lo = mid
            else:
                hi = mid
        out.append((hi, not s))
    return out


DAY = 86400.0


def setting(ctx):
    from caput.astro import observer
    from skyfield.api import Topos

    lon, lat = ctx.params["place"]
    w = sky()
    o = observer.Observer(lon, lat, 300.0, sf_wrapper=w)
    obs = w.ephemeris["earth"] + Topos(latitude_degrees=lat, longitude_degrees=lon, elevation_m=300.0)
    w.lon, w.lat = lon, lat
    t0 = ctx.choose("t0", [1.5e9, 1435708800.0 - 30000, 951782400.0 + 7.5])
    span, step = ctx.choose("span", ctx.params["spans"])
    return w, o, obs, t0, span, step


def compare(ctx, got, want, a, b, what):
    got = [float(g) for g in np.ravel(got)]
    near = [g for g in want if min(abs(g - a), abs(g - b)) < 2]
    core = [g for g in want if g not in near]
    rest = list(got)
    for g in core:
        hit = [r for r in rest if abs(r - g) < 0.2]
        ctx.check(len(hit) == 1, "an event is missing" if not hit else "an event is given twice", what=what, event=g, got=got)
        rest.remove(hit[0])
    ctx.check(all(any(abs(r - g) < 0.2 for g in near) for r in rest), "an event which does not happen", what=what, got=got, want=want)
    ctx.check(got == sorted(got), "the events are not in order", what=what)


def transits(ctx):
    """The transits of a source in an interval."""
    quiet()
    from caput.astro import skyfield as csf

    w, o, obs, t0, span, step = setting(ctx)
    if step is not None and step > 0.45:
        return
    which = ctx.choose("source", ["star", "ra", "sun", "moon"])
    lower = ctx.choose("lower", [False, True])
    dec = ctx.choose("dec", [False, True])
    t1 = None if span is None else t0 + span * DAY
    end = t0 + 0.99727 * DAY if span is None else t1
    kw = {"step": step, "lower": lower, "return_dec": dec}
    if which in ("sun", "moon"):
        src = w.ephemeris[which]
        got = getattr(o, {"sun": "solar_transit", "moon": "lunar_transit"}[which])(t0, t1, **kw)
    else:
        src = csf.skyfield_star_from_ra_dec(33.0, 0.0 if which == "ra" else 20.0)
        got = o.transit_times(33.0 if which == "ra" else src, t0, t1, **kw)
    if dec:
        got, decs = got
        ctx.check(len(decs) == len(got), "as many declinations as transits")
    shift = 180.0 if lower else 0.0
    want = [x for x, inc in crossings(lambda t: (hourangle(obs, w, src, t) - shift + 180) % 360 - 180, t0, end) if inc]
    compare(ctx, got, want, t0, end, which)
    if dec and len(got):
        t = csf.unix_to_skyfield_time(np.asarray(got))
        d = obs.at(t).observe(src).radec(epoch=t)[1].degrees
        ctx.check(np.allclose(decs, d, atol=1e-3), "another declination", got=list(decs), want=list(d))
    ctx.reach("some" if want else "none")


def horizon(ctx):
    """The rises and sets of a source in an interval."""
    quiet()
    from caput.astro import skyfield as csf

    w, o, obs, t0, span, step = setting(ctx)
    which = ctx.choose("source", ["star", "high", "sun", "moon"])
    size = 100.0 / 60 if which in ("sun", "moon") else ctx.choose("size", [0.0, 3.0, -6.0])
    t1 = None if span is None else t0 + span * DAY
    end = t0 + 0.99727 * DAY if span is None else t1
    if which in ("sun", "moon"):
        src = w.ephemeris[which]
        name = {"sun": "solar", "moon": "lunar"}[which]
        rise, fall = (getattr(o, f"{name}_{k}")(t0, t1, step) for k in ("rising", "setting"))
    else:
        src = csf.skyfield_star_from_ra_dec(200.0, 10.0 if which == "star" else 85.0)
        rise, fall = (getattr(o, f"{k}_times")(src, t0, t1, step, diameter=size) for k in ("rise", "set"))
    both, up = o.rise_set_times(src, t0, t1, step, diameter=size)
    full = crossings(lambda t: altitude(obs, w, src, t) + size / 2, t0 - DAY, end + DAY)
    used = step if step is not None else min(0.2, (end - t0) / DAY / 5)
    if any(b[0] - a[0] < used * DAY * 1.01 for a, b in zip(full, full[1:])):
        return
    want = [x for x in full if t0 - 2 < x[0] < end + 2]
    compare(ctx, rise, [x for x, inc in want if inc], t0, end, "rise")
    compare(ctx, fall, [x for x, inc in want if not inc], t0, end, "set")
    compare(ctx, both, [x for x, _ in want], t0, end, "both")
    ctx.check(len(up) == len(both), "as many directions as events")
    for x, inc in zip(both, up):
        near = [i for e, i in want if abs(e - x) < 0.2]
        ctx.check(near == [bool(inc)], "a rise is given as a set, or the other way round", at=float(x))
    ctx.reach("some" if want else "none")


def intervals(ctx):
    """Intervals and steps which make no sense are refused, the others accepted in all forms of time."""
    quiet()
    from caput.astro import observer

    w = sky()
    o = observer.Observer(-119.62, 49.32, 300.0, sf_wrapper=w)
    t0 = 1.5e9
    forms = [lambda t: t, lambda t: D.datetime.fromtimestamp(t, D.timezone.utc), lambda t: D.datetime.fromtimestamp(t, D.timezone.utc).strftime("%Y%m%dT%H%M%SZ")]
    f = forms[ctx.choose("form", [0, 1, 2])]
    g = forms[ctx.choose("other", [0, 1, 2])]
    length = ctx.choose("length", [-86400, 0, 3600, 43200, 86400, 172800])
    step = ctx.choose("step", [None, 0.1, 0.4, 1.0, 2.0])
    call = ctx.choose("call", ["transit", "rise"])
    kw = {"step": step} if step is not None else {}
    run = (lambda a, b: o.transit_times(77.0, a, b, **kw)) if call == "transit" else (lambda a, b: o.solar_rising(a, b, **kw))
    bad = length <= 0 or (step is not None and step * DAY >= length)
    try:
        got = run(f(t0), g(t0 + length))
    except ValueError:
        ctx.check(bad, "a good interval is refused")
        ctx.reach("refused")
        return
    ctx.check(not bad, "an interval which makes no sense is accepted")
    ref = run(t0, t0 + length)
    ctx.check(np.shape(got) == np.shape(ref) and np.allclose(got, ref, rtol=0, atol=0.01), "the form of a time changes the events", got=list(np.ravel(got)), want=list(np.ravel(ref)))
    ctx.reach("accepted")


# ------------------------------------------------------------------ stellar days


def days(ctx):
    """Times, stellar days and stellar angles convert into one another."""
    quiet()
    from caput.astro import observer
    from caput.astro import time as ct

    lon = ctx.choose("lon", [-180.0, -119.62, 0.0, 77.5, 180.0])
    start = ctx.choose("start", [None, D.datetime(2013, 11, 15, tzinfo=D.timezone.utc), 1.0e9])
    o = observer.Observer(lon, 10.0, lsd_start=start)
    zero = float(np.ravel(o.lsd_zero())[0])
    s0 = {None: 946727936.0}.get(start, start if isinstance(start, float) else None)
    s0 = s0 if s0 is not None else start.timestamp()
    ctx.check(-1.5 < zero - s0 < 86165.5, "day zero starts more than a day after the start", zero=zero, start=s0)

    def angle(a, b=0.0):
        return abs((a - b + 180) % 360 - 180)

    ctx.check(angle(float(np.ravel(o.unix_to_lsa(zero))[0])) < 1e-4, "day zero does not start at angle zero")
    ctx.check(abs(float(np.ravel(o.unix_to_lsd(zero))[0])) < 1e-6, "day zero is another one", got=float(np.ravel(o.unix_to_lsd(zero))[0]))

    base = ctx.choose("base", [zero, 0.9e9, 1.1e9, 1.36e9, 1435708800.0, 1483228800.0, 1.6e9, 1.7e9])
    off = ctx.choose("off", [-40000.0, -3.0, 3.0, 0.37 * DAY, 50000.5])
    t = base + off
    later = t + ctx.choose("later", [10.0, 43000.0, 86164.0905, 40 * 86164.0905])
    form = ctx.choose("form", ["scalar", "array"])
    ts = np.array([t, later])
    conv = (lambda f: np.array([float(np.ravel(f(x))[0]) for x in ts])) if form == "scalar" else (lambda f: np.asarray(f(ts.copy())))
    lsd, lsa = conv(o.unix_to_lsd), conv(o.unix_to_lsa)
    ctx.check(lsd.shape == (2,) and lsa.shape == (2,), "another number of values")
    ctx.check(((lsa >= 0) & (lsa < 360)).all(), "an angle is out of range", lsa=list(lsa))
    # the Earth has turned by as much as the time between them, leap seconds included
    leaps = int(np.ravel(ct.leap_seconds_between(t, later))[0])
    turned = (later - t + leaps) / 86164.0989
    ctx.check(abs(lsd[1] - lsd[0] - turned) < 2e-6, "the days do not follow the turns of the Earth", lsd=list(lsd), want=turned)
    era = np.array([float(np.ravel(ct.unix_to_era(x))[0]) for x in ts])
    for k in range(2):
        ctx.check(angle(lsa[k], era[k] + lon) < 1e-6, "the angle is not that of the Earth and the longitude")
        ctx.check(angle(lsd[k] * 360, lsa[k]) < 1e-4, "the fraction of the day is not the angle", lsd=lsd[k], lsa=lsa[k])
    n = np.rint(lsd[0] - (t - zero + int(np.ravel(ct.leap_seconds_between(zero, t))[0])) / 86164.0989)
    ctx.check(n == 0, "another number of days since day zero", lsd=lsd[0], off=float(n))
    # and back; within a second of a leap second both are right
    def leap(x):
        return any(abs(x - s) < 1.5 for s in (1136073600, 1230768000, 1341100800, 1435708800, 1483228800))

    back = np.asarray(o.lsd_to_unix(lsd if form == "array" else lsd[0])).reshape(-1)
    for k, x in enumerate(back):
        if not leap(ts[k]):
            ctx.check(abs(x - ts[k]) < 0.01, "a stellar day gives another time", got=float(x), want=ts[k])
    x = float(np.ravel(o.lsa_to_unix(lsa[1], t))[0])
    ctx.check(-0.01 <= x - t < 86164.2 + 1, "the angle is not reached within the next turn", got=x, t=t)
    if not leap(x):
        ctx.check(angle(float(np.ravel(o.unix_to_lsa(x))[0]), lsa[1]) < 1e-4, "the angle is another one at that time")
    ctx.reach(form)


SPANS = [(None, None), (0.3, None), (0.95, None), (2.0, None), (1.0, 0.45), (0.7, 0.3), (3.05, 0.2)]


def harnesses(tier):
    q = tier == "quick"
    grids = [((0.0, 1.0, 0.3), 2), ((0.0, 1.0, 0.45), 2), ((2.0, 3.0, 0.26), 2), ((0.0, 2.0, 0.5), 1)]
    if not q:
        grids += [((0.0, 1.0, 0.2), 3), ((-1.0, 1.5, 0.6), 3), ((0.0, 1.0, 0.1), 2)]
    out = [
        Harness(f"search-{i}", search, params={"grid": g, "n": n}, reach=["some", "none"], weight=2,
                bounds=f"{n} roots anywhere in and 1 around [{g[0]}, {g[1]}], step {g[2]}, all directions")
        for i, (g, n) in enumerate(grids)
    ]
    places = [(-119.62, 49.32), (0.0, -30.0), (180.0, 5.0)]
    for i, p in enumerate(places):
        out += [
            Harness(f"transits-{i}", transits, params={"spans": SPANS, "place": p}, reach=["some", "none"], weight=3,
                    bounds="3 dates, 7 intervals, 4 sources"),
            Harness(f"horizon-{i}", horizon, params={"spans": SPANS, "place": p}, reach=["some"], weight=3,
                    bounds="3 dates, 7 intervals, 4 sources, 3 sizes"),
        ]
    return out + [
        Harness("intervals", intervals, reach=["refused", "accepted"], bounds="6 lengths, 5 steps, 3 forms"),
        Harness("days", days, reach=["scalar", "array"], weight=3, bounds="5 longitudes, 3 starts, 40 times of 2000-2024, around leap seconds"),
    ]
