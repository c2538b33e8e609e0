"""C40: the sun (elevation, terminator, day/night mask, clear sky radiation, UV) and interpolation in time."""
import itertools
import math

from mc import Section, Violation, expect, expect_close, expect_same, main, raises

PROPERTY = "C40"
ATT = {"title": "T", "source": "S", "institution": "I", "mosg__model_configuration": "uk_det"}
MID = "mosg__model_configuration"
H = 3600
Y, X = "projection_y_coordinate", "projection_x_coordinate"


# ------------------------------------------------------------ reference astronomy
def decl(day):
    return -23.5 * math.cos(math.radians(0.9856 * day + 9.3))


def soltime(lon, day, hour):
    th = 2 * math.pi * day / 365.0
    eqt = 7.5e-5 + 0.001868 * math.cos(th) - 0.032077 * math.sin(th) - 0.014615 * math.cos(2 * th) - 0.040849 * math.sin(2 * th)
    return hour + 24.0 * lon / 360.0 + eqt * 12 / math.pi


def sinel(lat, lon, day, hour):
    d, l = math.radians(decl(day)), math.radians(lat)
    return math.sin(d) * math.sin(l) + math.cos(d) * math.cos(l) * math.cos(math.radians(15 * (soltime(lon, day, hour) - 12)))


def dayhour(sec):
    """Day of the year from 0 and hour of the day, to the nearest minute, of seconds since 1970."""
    import datetime

    t = datetime.datetime(1970, 1, 1) + datetime.timedelta(seconds=sec)
    day = (t.date() - datetime.date(t.year, 1, 1)).days
    m = t.hour * 60 + t.minute + (1 if t.second >= 30 else 0)
    return day, m / 60.0


LATS = [-90.0, -67.0, -45.0, -23.5, -1.0, 0.0, 10.0, 36.0, 51.5, 66.0, 80.0, 90.0]
LONS = [-180.0, -150.0, -90.0, -3.2, 0.0, 15.0, 90.0, 179.0, 270.0, 359.0]


def c_sun(tier):
    for day in range(0, 366, 5 if tier == "quick" else 1):
        yield ("formulae", day)
    yield ("formulae", 365)
    for y in (2000, 2001, 2019, 2020):
        yield ("dates", y)
    yield ("limits", 0)


def sun(case, cov):
    import datetime
    import numpy as np
    from improver.utilities import solar as S

    kind, a = case
    if kind == "limits":
        n = 0
        for f in (lambda d, h: S.calc_solar_time(0.0, d, h), lambda d, h: S.calc_solar_hour_angle(0.0, d, h), lambda d, h: S.calc_solar_elevation(np.array([50.0]), np.array([0.0]), d, h), lambda d, h: S.daynight_terminator(np.array([0.0]), d, h)):
            for d, h, bad in ((-1, 5, True), (366, 5, True), (0, -0.1, True), (0, 24.1, True), (0, 0, False), (365, 24, False)):
                expect(bool(raises(lambda: f(d, h))) == bad, "dates and hours out of range are refused, others not", got=(d, h))
                n += 1
        for lats, bad in (([-91.0, 0], True), ([0, 90.5], True), ([-90.0, 90.0], False)):
            expect(bool(raises(lambda: S.calc_solar_elevation(np.array(lats), np.array([0.0, 0.0]), 5, 5))) == bad, "latitudes out of range are refused", got=lats)
            n += 1
        cov.step(n)
        return "limits"
    if kind == "dates":
        import calendar

        n = 0
        for doy in range(366 if calendar.isleap(a) else 365):
            d = datetime.date(a, 1, 1) + datetime.timedelta(days=doy)
            for h, m, s, mu in ((0, 0, 0, 0), (23, 59, 29, 0), (23, 59, 30, 0), (12, 34, 59, 5), (6, 5, 10, 0)):
                t = datetime.datetime(d.year, d.month, d.day, h, m, s, mu)
                expect(S.get_day_of_year(t) == doy, "day of the year from 0", got=t)
                want = (h * 60 + m + (1 if s >= 30 else 0)) / 60
                expect(abs(S.get_hour_of_day(t) - want) < 1e-9, "hour of the day to the nearest minute", got=(t, S.get_hour_of_day(t)), expected=want)
                n += 2
        cov.step(n)
        return "dates"
    la, lo = np.meshgrid(LATS, LONS, indexing="ij")
    expect_close(S.calc_solar_declination(a), decl(a), "declination", atol=1e-9)
    n = 1
    for h in [x / 2 for x in range(49)]:
        want = np.array([[sinel(y, x, a, h) for x in LONS] for y in LATS])
        expect_close(S.calc_solar_elevation(la, lo, a, h, return_sine=True), want, "sine of the solar elevation", atol=1e-9)
        el = S.calc_solar_elevation(la, lo, a, h)
        expect_close(el, np.degrees(np.arcsin(want)), "solar elevation", atol=1e-5)
        st = np.array([soltime(x, a, h) for x in LONS])
        expect_close(S.calc_solar_time(np.array(LONS), a, h), st, "solar time", atol=1e-9)
        ns = S.calc_solar_time(np.array(LONS), a, h, normalise=True)
        expect((ns >= 0).all() and (ns < 24).all(), "normalised solar time is within a day", got=ns)
        expect_close(((ns - st) / 24), np.round((ns - st) / 24), "normalised solar time is the solar time modulo 24", atol=1e-9)
        expect_close(S.calc_solar_hour_angle(np.array(LONS), a, h), (st - 12) * 15, "hour angle", atol=1e-8)
        tl = S.daynight_terminator(np.array(LONS), a, h)
        for y, x in zip(tl, LONS):
            expect(abs(sinel(float(y), x, a, h)) < 1e-9, "on the terminator the sun is on the horizon", got=(y, x))
        n += 6
    cov.step(n)
    return "sun"


# ------------------------------------------------------------ day night mask
KINDS = ["latlon", "wide", "equalarea", "spot", "spotgrid"]


def make(kind, times, bounds=None, lead=(), name="air_temperature", units="K", data=None, order=None):
    """A cube with these validity times (one: scalar)."""
    import cubes
    import numpy as np

    f = np.float32
    ld = [("realization", [0, 1], "1") if l == "r" else ("height", [2.0, 10.0, 100.0], "m") for l in lead]
    n = [len(l[1]) for l in ld]
    if kind.startswith("spot"):
        from improver.spotdata.build_spotdata_cube import build_spotdata_cube
        from iris.coords import AuxCoord, DimCoord

        la = np.array([-89.0, -60.0, 0.0, 20.0, 51.5, 70.0, 89.0], f)
        lo = np.array([-170.0, 100.0, 0.0, 10.0, -3.0, 179.0, 45.0], f)
        dims = []
        for nm, p, u in ld:
            dims.append(DimCoord(np.array(p, np.int32 if nm == "realization" else f), long_name=nm, units=u))
        sc = []
        if len(times) > 1:
            dims.append(DimCoord(np.array(times, np.int64), "time", units=cubes.EPOCH, bounds=bounds))
        else:
            sc.append(AuxCoord(np.int64(times[0]), "time", units=cubes.EPOCH, bounds=None if bounds is None else bounds[0]))
        sh = n + ([len(times)] if len(times) > 1 else []) + [7]
        c = build_spotdata_cube(np.zeros(sh, f) if data is None else data, name, units, np.zeros(7, f), la, lo, ["%05d" % i for i in range(7)], scalar_coords=sc, additional_dims=dims)
        c.attributes.update(ATT)
        return c
    kw = dict(latlon=dict(spatial="latlon", spacing=(20.0, 35.0), origin=(-75.0, -150.0)), wide=dict(spatial="latlon", spacing=(7.0, 11.0), origin=(30.0, -20.0)), equalarea=dict(spacing=(200000.0, 250000.0), origin=(-700000.0, -600000.0)))[kind]
    ny, nx = (8, 9) if kind == "latlon" else (5, 4)
    l2 = list(ld)
    tkw = {}
    if len(times) > 1:
        l2.append(("time", times, cubes.EPOCH))
        tkw = dict(frt=min(times) - 6 * H)
    else:
        tkw = dict(time=times[0], frt=times[0] - 6 * H, time_bounds=None if bounds is None else bounds[0])
    sh = n + ([len(times)] if len(times) > 1 else []) + [ny, nx]
    c = cubes.grid(np.zeros(sh, f) if data is None else data, name=name, units=units, leading=l2, attributes=ATT, **tkw, **kw)
    if len(times) > 1 and bounds is not None:
        c.coord("time").bounds = np.array(bounds, np.int64)
    return c


def latlon_of(c, kind):
    import numpy as np
    from improver.utilities.spatial import transform_grid_to_lat_lon

    if kind == "equalarea":
        la, lo = transform_grid_to_lat_lon(next(c.slices([Y, X])))
    else:
        la, lo = c.coord("latitude").points, c.coord("longitude").points
        if not kind.startswith("spot"):
            la, lo = np.meshgrid(la, lo, indexing="ij")
    return np.asarray(la, float), np.asarray(lo, float)


def sines(la, lo, sec):
    import numpy as np

    d, h = dayhour(sec)
    return np.array([sinel(a, b, d, h) for a, b in zip(la.flat, lo.flat)]).reshape(la.shape)


DATES = [1510272000, 1497571200, 1584662400, 1609459200 - H]  # 10 Nov 2017, 16 Jun 2017, 20 Mar 2020, 31 Dec 2020 23:00


def c_mask(tier):
    for kind in KINDS[:4]:
        for d in range(len(DATES)):
            for off in (0, 5 * H + 40 * 60, 12 * H, 18 * H + 45):
                for nt in (1, 2, 3):
                    for b in (0, 1):
                        for lead in ("", "r", "rh"):
                            if tier == "quick" and lead == "rh" and (d + nt + b) % 2:
                                continue
                            yield ("one", kind, [d, off, nt], [b, lead])
    for x in itertools.product(KINDS[:4], repeat=3):
        yield ("history", list(x), 0, 0)


def mask(case, cov):
    import numpy as np
    import cubes
    from improver.utilities.solar import DayNightMask

    kind, k, a, b = case

    def judge(pl, k, times, bounds, lead):
        c = make(k, times, bounds, lead)
        with cubes.Unchanged(c):
            m = pl.process(c)
        cov.step()
        la, lo = latlon_of(c, k)
        sp = ["spot_index"] if k == "spot" else [c.coord(axis="y").name(), c.coord(axis="x").name()]
        g = cubes.arr(m, *((["time"] if len(times) > 1 else []) + sp))
        g = g if len(times) > 1 else g[None]
        for i, t in enumerate(times):
            mid = t if bounds is None else (bounds[i][0] + bounds[i][1]) // 2
            s = sines(la, lo, mid)
            use = np.abs(s) > 1e-4
            expect_same(g[i][use], (s > 0)[use].astype(np.int32), "1 where the sun is up, 0 where not (time %d)" % i)
        expect(m.name() == "day_night_mask" and str(m.units) == "1" and m.data.dtype == np.int32 and m.attributes["title"] == "Day-Night mask" and not m.coords("realization") and not m.coords("height"), "description", got=(m.name(), m.attributes))
        expect_same(m.coord("time").points, c.coord("time").points, "times of the mask")

    if kind == "history":
        pl = DayNightMask()
        for i, q in enumerate(k):
            judge(pl, q, [DATES[i] + 9 * H], None, "")
        return "history"
    d, off, nt = a
    bd, lead = b
    times = [DATES[d] + off + i * 7 * H for i in range(nt)]
    bounds = [[t - 5 * H, t] for t in times] if bd else None
    judge(DayNightMask(), k, times, bounds, lead)
    return "mask"


# ------------------------------------------------------------ interpolation in time
DIV = {1: [15, 30, 20], 3: [60, 90, 15], 6: [180, 60], 24: [360, 720], 30: [600, 900], 48: [1440, 480]}


def c_interp(tier):
    for hrs in DIV:
        for m in DIV[hrs]:
            for lead in ("", "r", "rh"):
                for what in ("linear", "degrees", "acc", "max", "min", "daynight", "solar"):
                    for kind in ("latlon", "equalarea"):
                        if tier == "quick" and lead == "rh" and (hrs in (6, 30) or kind == "latlon"):
                            continue
                        yield ("every", [hrs, m], [lead, what], kind)
    T = (0, 1, 2, 3, 4)
    for n in (1, 2, 3):
        for sub in itertools.permutations(T, n):
            for what in ("linear", "acc", "solar", "daynight", "max"):
                if what in ("acc", "max") and 0 in sub:
                    continue
                yield ("times", list(sub), ["r" if n == 2 else "", what], "equalarea")
    for k in range(19):
        yield ("bad", k, 0, 0)
    for w in ("linear", "acc", "daynight", "solar", "degrees", "max"):
        for t in (0, 1):
            yield ("reuse", w, t, 0)


def tiny(what, lead):
    """Some accumulations are very small."""
    return 1e-7 if what == "acc" and lead == "r" else 1.0


def field(kind, lead, k, what):
    import numpy as np

    ny, nx = (8, 9) if kind == "latlon" else (5, 4)
    n = [2 if l == "r" else 3 for l in lead]
    sh = n + [ny, nx]
    N = int(np.prod(sh))
    i = np.arange(N)
    if what == "degrees":
        v = (i * 37 + k * 110) % 360
    elif what in ("acc", "max", "min"):
        Q = np.array([0, 0, 1.0, 2.5, 0.5, 4.0, 0])
        v = Q[(i + 3 * k + (i // 7) * (k + 1)) % 7] * tiny(what, lead)
    else:
        v = (i * (3 + 4 * k) + k) % 23 - (9 if what == "daynight" else 0)
    return v.reshape(sh).astype(np.float32)


def plugin(what, **kw):
    from improver.utilities.temporal_interpolation import TemporalInterpolation

    if what in ("solar", "daynight"):
        kw["interpolation_method"] = what
    if what in ("acc", "max", "min"):
        kw[{"acc": "accumulation"}.get(what, what)] = True
    return TemporalInterpolation(**kw)


def pair(kind, lead, what, t0, t1, days=0, swap=0):
    u, n = ("degrees", "solar_azimuth_angle" if lead == "r" else "wind_from_direction") if what == "degrees" else ("m", "lwe_thickness_of_precipitation_amount") if what == "acc" else ("K", "air_temperature")
    per = t1 - t0 if what in ("acc", "max", "min") else None
    r = []
    for k, t in enumerate((t0, t1)):
        c = make(kind, [t], None if per is None else [[t - per, t]], lead, n, u, field(kind, lead, k ^ swap, what))
        # one forecast: the same reference time
        c.coord("forecast_reference_time").points = [t0 - 6 * H]
        fp = c.coord("forecast_period")
        import numpy as np
        fp.points = np.array([t - t0 + 6 * H], np.int32)
        if per is not None:
            fp.bounds = np.array([[t - t0 + 6 * H - per, t - t0 + 6 * H]], np.int32)
        r.append(c)
    return r


def want_of(cs, kind, what, t0, t1, ts):
    """The expected data at the times ts (the last of which is t1 for periods), with a mask of points judged."""
    import numpy as np

    a, b = (c.data.astype(float) for c in cs)
    w = [(t - t0) / (t1 - t0) for t in ts]
    lin = [a * (1 - x) + b * x for x in w]
    ok = [np.ones(a.shape, bool) for _ in ts]
    if what == "degrees":
        z = [np.exp(1j * np.radians(a)) * (1 - x) + np.exp(1j * np.radians(b)) * x for x in w]
        lin = [np.degrees(np.angle(q)) % 360 for q in z]
        ok = [np.abs(q) > 0.05 for q in z]
    elif what == "max":
        lin = [np.minimum(b, x) for x in lin]
    elif what == "min":
        lin = [np.maximum(b, x) for x in lin]
    elif what == "acc":
        edges = [a] + lin
        per = np.diff([t0] + list(ts))
        amt = [(p + q) / 2 * d for p, q, d in zip(edges[:-1], edges[1:], per)]
        tot = sum(amt)
        lin = [np.where(tot > 0, x * b / np.where(tot > 0, tot, 1), 0) for x in amt]
    elif what in ("daynight", "solar"):
        la, lo = latlon_of(cs[0], kind)
        s0, s1 = sines(la, lo, t0), sines(la, lo, t1)
        for i, t in enumerate(ts):
            s = sines(la, lo, t)
            if what == "daynight":
                lin[i] = np.where(s > 0, lin[i], 0)
                ok[i] = ok[i] & (np.abs(s) > 1e-4)
            else:
                p = a / s0
                lin[i] = np.where(s > 0, s * (p + (b / s1 - p) * w[i]), 0)
                ok[i] = ok[i] & (np.abs(s) > 1e-4) & (np.abs(s0) > 0.02) & (np.abs(s1) > 0.02)
    return lin, ok


def judge(pl, kind, lead, what, t0, t1, ts, cov, swap=0):
    import numpy as np
    import cubes

    cs = pair(kind, lead, what, t0, t1, swap=swap)
    keep = [c.copy() for c in cs]
    with cubes.Unchanged(*cs):
        r = pl.process(*cs)
    cov.step()
    expect(len(r) == len(ts), "one cube per time", got=len(r), expected=len(ts))
    if ts == [t1]:
        cubes.expect_cube(r[0], keep[1], "nothing to interpolate: the final cube")
        return
    lin, ok = want_of(keep, kind, what, t0, t1, ts)
    names = ["realization" if l == "r" else "height" for l in lead] + [keep[0].coord(axis="y").name(), keep[0].coord(axis="x").name()]
    prev = t0
    for c, t, v, o in zip(r, ts, lin, ok):
        g = cubes.arr(c, *names).astype(float) / tiny(what, lead)
        v = v / tiny(what, lead)
        if what == "degrees":
            d = np.abs((g - v + 180) % 360 - 180)
            expect((d[o] < 0.02).all() and (g >= 0).all() and (g < 360.001).all(), "direction at %d" % (t - t0), got=g[o][d[o] >= 0.02][:5], expected=v[o][d[o] >= 0.02][:5])
        else:
            expect_close(g[o], v[o], "value %d s after the start" % (t - t0), rtol=2e-4 if what == "solar" else 3e-6, atol=2e-5 * (1 + abs(v[o]).max() if o.any() else 1))
        expect(np.isfinite(g).all(), "no missing values appear", got=int((~np.isfinite(g)).sum()))
        expect(c.data.dtype == np.float32 and c.name() == keep[0].name() and c.units == keep[0].units and c.attributes == keep[0].attributes, "description", got=(c.name(), str(c.data.dtype), str(c.units)))
        for nm, val, dt in (("time", t, np.int64), ("forecast_period", t - t0 + 6 * H, np.int32), ("forecast_reference_time", t0 - 6 * H, np.int64)):
            q = c.coord(nm)
            expect(q.points.tolist() == [val] and q.points.dtype == dt, nm, got=(q.points, str(q.points.dtype)), expected=val)
            if what in ("acc", "max", "min") and nm != "forecast_reference_time":
                bd = [val - (t - prev), val]
                expect(q.bounds is not None and q.bounds.tolist() == [bd] and q.bounds.dtype == dt, "bounds of " + nm, got=q.bounds, expected=bd)
            else:
                expect(q.bounds is None, "no bounds of " + nm, got=q.bounds)
        prev = t
    if what == "acc":
        z = tiny(what, lead)
        expect_close(sum(c.data.astype(float) / z for c in r), keep[1].data.astype(float) / z, "the parts add up to the whole", rtol=1e-5, atol=1e-6)


def interp(case, cov):
    import datetime
    import numpy as np
    import cubes

    mode, a, b, kind = case
    dt = lambda s: datetime.datetime(1970, 1, 1) + datetime.timedelta(seconds=s)
    if mode == "every":
        (hrs, m), (lead, what) = a, b
        t0 = DATES[0 if hrs != 24 else 1] + 7 * H
        t1 = t0 + hrs * H
        judge(plugin(what, interval_in_minutes=m), kind, lead, what, t0, t1, list(range(t0 + m * 60, t1 + 1, m * 60)), cov)
        return "every " + what
    t0 = DATES[0] + 7 * H
    if mode == "times":
        lead, what = b
        t1 = t0 + 4 * H
        ts = sorted(set(t0 + x * H for x in a) | {t1})
        tl = [dt(t0 + x * H) for x in a]
        k = list(tl)
        judge(plugin(what, times=tl), kind, lead, what, t0, t1, ts, cov)
        expect(tl == k, "the list of times is the caller's", got=tl)
        return "times " + what
    if mode == "reuse":
        # a plugin is used for one pair of cubes after the other
        pl = plugin(a, times=[dt(t0 + 2 * H)]) if b else plugin(a, interval_in_minutes=60)
        for lead, kind, t1, sw in (("", "equalarea", t0 + 4 * H, 0), ("r", "latlon", t0 + 4 * H, 0), ("", "equalarea", t0 + 4 * H, 1), ("", "equalarea", t0 + 3 * H, 0)):
            judge(pl, kind, lead, a, t0, t1, [t0 + 2 * H, t1] if b else list(range(t0 + H, t1 + 1, H)), cov, swap=sw)
        return "reuse"
    from improver.utilities.temporal_interpolation import TemporalInterpolation as TI

    def run(what="linear", hrs=4, pre=None, **kw):
        pl = plugin(what, **(kw or {"interval_in_minutes": 60}))
        c = pair("equalarea", "", "acc" if pre == "bounds" or what in ("acc", "max", "min") and pre != "nobounds" else "linear", t0, t0 + hrs * H)
        if pre == "mixed":
            c[0] = pair("equalarea", "", "acc", t0, t0 + hrs * H)[0]
        if pre == "swap":
            c = c[::-1]
        if pre == "overlap":
            c[1].coord("time").bounds = np.array([[t0 - H, t0 + hrs * H]], np.int64)
        if pre == "list":
            c[0] = [c[0]]
        if pre == "multi":
            c[0] = make("equalarea", [t0, t0 + H])
        if pre == "notime":
            c[0].remove_coord("time")
        return pl.process(*c)

    tests = [lambda: TI(), lambda: TI(interval_in_minutes=60, times=[dt(t0)]), lambda: TI(interval_in_minutes=60, interpolation_method="cubic"), lambda: TI(interval_in_minutes=60, accumulation=True, max=True), lambda: TI(interval_in_minutes=60, min=True, max=True),
             lambda: TI(interval_in_minutes=60, accumulation=True, interpolation_method="solar"), lambda: TI(interval_in_minutes=60, max=True, interpolation_method="daynight"), lambda: run(pre="bounds"), lambda: run("acc", pre="nobounds"), lambda: run(pre="mixed"), lambda: run(pre="swap"),
             lambda: run("acc", pre="overlap"), lambda: run(pre="list"), lambda: run(pre="multi"), lambda: run(pre="notime"), lambda: run(interval_in_minutes=50), lambda: run(hrs=24, interval_in_minutes=50), lambda: run(hrs=25, interval_in_minutes=50 * 7), lambda: run(times=[dt(t0 - 60)])]
    expect(raises(tests[a]), "unusable options or cubes are refused", got=a)
    if a == 18:
        expect(raises(lambda: run(times=[dt(t0 + 60), dt(t0 + 5 * H)])), "times after the end are refused", got=a)
    cov.step()
    return "refused"


# ------------------------------------------------------------ radiation
def c_rad(tier):
    for kind in ("latlon", "equalarea"):
        for d in range(4):
            for h in (0, 6, 12, 21):
                yield ("time", kind, [d, h], 0)
                for per, sp in ((3, 30), (1, 20), (24, 60), (2, 120)):
                    for alt in range(3):
                        for turb in range(2):
                            if tier == "quick" and (d + h + alt + turb) % 2:
                                continue
                            yield ("sky", kind, [d, h, per, sp], [alt, turb])
    for k in range(3):
        yield ("skybad", k, 0, 0)
    for sc in (None, 1.0, 2.5):
        for u in range(2):
            for mid in (False, True):
                yield ("uv", sc, u, mid)
    for k in range(3):
        yield ("uvbad", k, 0, 0)


def rad(case, cov):
    import datetime
    import numpy as np
    import cubes
    from improver.generate_ancillaries.generate_derived_solar_fields import GenerateClearskySolarRadiation, GenerateSolarTime
    from improver.uv_index import calculate_uv_index

    mode, kind, a, b = case
    f = np.float32
    if mode == "uv":
        d = np.array([[0.0, 0.1, 1.0], [2.0, 0.01, 0.3]])
        u, k = [("W m-2", 1), ("mW m-2", 1000)][a]
        c = cubes.grid((d * k).astype(f), name="surface_downwelling_ultraviolet_flux_in_air", units=u, attributes=ATT)
        kw = {} if kind is None else dict(scale_factor=kind)
        with cubes.Unchanged(c):
            g = calculate_uv_index(c, model_id_attr=MID if b else None, **kw)
        cov.step()
        expect_close(g.data, d * (3.6 if kind is None else kind), "UV index", rtol=1e-5)
        expect(g.name() == "ultraviolet_index" and str(g.units) == "1" and g.attributes == {x: y for x, y in ATT.items() if b or x != MID} and g.data.dtype == f, "description", got=(g.name(), str(g.data.dtype)))
        return "uv"
    if mode == "uvbad":
        n = 0
        for i in range(6):
            d = np.ones((2, 3), f)
            if kind < 2:
                d.flat[i] = [-0.001, np.nan][kind]
            c = cubes.grid(d, name="surface_downwelling_ultraviolet_flux_in_air" if kind < 2 else "x", units="W m-2")
            expect(raises(lambda: calculate_uv_index(c)), "negative, missing or other data are refused", got=kind)
            n += 1
        cov.step(n)
        return "refused"
    if mode == "skybad":
        c = make("equalarea", [DATES[0]])
        t = datetime.datetime(2020, 6, 1, 12)
        o = cubes.grid(np.ones((5, 4), f), name="surface_altitude", units="m")
        z = [dict(surface_altitude=o), dict(linke_turbidity=o), dict(temporal_spacing=50)][kind]
        expect(raises(lambda: GenerateClearskySolarRadiation().process(c, t, 3, **z)), "other grids or spacings are refused", got=kind)
        cov.step()
        return "refused"
    d, h = a[:2]
    sec = DATES[d] // 86400 * 86400 + h * H
    t = datetime.datetime(1970, 1, 1) + datetime.timedelta(seconds=sec)
    c = make(kind, [DATES[0]])
    la, lo = latlon_of(c, kind)
    sp = [c.coord(axis="y").name(), c.coord(axis="x").name()]
    title = ["new title", None][(d + h) % 2]
    att = dict({x: ATT[x] for x in ("institution",)}, source="IMPROVER")
    if title:
        att["title"] = title
    if mode == "time":
        with cubes.Unchanged(c):
            g = GenerateSolarTime().process(c, t, title)
        cov.step()
        want = np.array([soltime(x, *dayhour(sec)) % 24 for x in lo.flat]).reshape(lo.shape)
        dif = np.abs(cubes.arr(g, *sp) - want)
        expect((np.minimum(dif, 24 - dif) < 1e-4).all(), "local solar time", got=dif.max())
        expect(g.name() == "local_solar_time" and str(g.units) == "hours" and g.attributes == att and g.coord("time").points.tolist() == [sec], "description", got=(g.name(), g.attributes, g.coord("time").points))
        return "solar time"
    per, spc = a[2:]
    alt, turb = b
    A = [None, np.zeros(la.shape), (np.arange(la.size).reshape(la.shape) * 37) % 2000.0][alt]
    L = [None, 1.0 + (np.arange(la.size).reshape(la.shape) % 5)][turb]
    mk = lambda v, n, u: None if v is None else c.copy(v.astype(f))
    ac, lc = mk(A, "surface_altitude", "m"), mk(L, "linke_turbidity", "1")
    with cubes.Unchanged(c, ac, lc):
        g = GenerateClearskySolarRadiation().process(c, t, per, surface_altitude=ac, linke_turbidity=lc, temporal_spacing=spc, new_title=title)
    cov.step()
    A = np.zeros(la.shape) if A is None else A
    L = np.full(la.shape, 3.0) if L is None else L
    ghi = []
    for k in range(per * 60 // spc + 1):
        s = sec - per * H + k * spc * 60
        day, hour = dayhour(s)
        zen = 90 - np.degrees(np.arcsin(sines(la, lo, s)))
        ext = 1367.7 * (1 + 0.033 * math.cos(2 * math.pi * day / 365))
        up = zen < 90
        zz = np.where(up, zen, 0)
        am = np.where(up, 1 / (np.cos(np.radians(zz)) + 0.50572 * (96.07995 - zz) ** -1.6364), 0)
        v = (5.09e-5 * A + 0.868) * ext * np.maximum(np.cos(np.radians(zen)), 0) * np.exp(-(3.92e-5 * A + 0.0387) * am * (np.exp(-A / 8000) + np.exp(-A / 1250) * (L - 1)))
        ghi.append(np.minimum(v, ext))
    want = sum((p + q) / 2 for p, q in zip(ghi[:-1], ghi[1:])) * spc * 60
    expect_close(cubes.arr(g, *sp), want, "clear sky radiation accumulated over the period", rtol=1e-4, atol=1.0)
    expect(g.name() == "integral_of_surface_downwelling_shortwave_flux_in_air_assuming_clear_sky_wrt_time" and str(g.units) == "W s m-2" and g.attributes == att and g.data.dtype == f, "description", got=(g.name(), g.attributes))
    q = g.coord("time")
    expect(q.points.tolist() == [sec] and q.bounds.tolist() == [[sec - per * H, sec]], "time and period", got=(q.points, q.bounds))
    expect(bool(g.coords("altitude" if alt < 2 else "height")) and not g.coords("height" if alt < 2 else "altitude"), "vertical coordinate", got=[x.name() for x in g.coords()])
    return "clear sky"


SECTIONS = [Section("sun", c_sun, sun), Section("mask", c_mask, mask), Section("interpolation", c_interp, interp), Section("radiation", c_rad, rad)]

if __name__ == "__main__":
    main(globals())
