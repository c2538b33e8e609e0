"""C31: times: lead times, cycles, lagged ensembles, extraction and periods."""
import itertools

from mc import Section, Violation, expect, expect_close, expect_same, main, raises

PROPERTY = "C31"
H = 3600
ATT = {"title": "T", "source": "S", "institution": "I"}


def make(times, frts, bounds=0, blend=None, lead="time", fp=True, real=None, tdim=0, seconds=0, fill=None):
    """Times and reference times in hours from T0; lists of length one are scalar coordinates unless lead says otherwise."""
    import cubes
    import numpy as np
    from iris.coords import AuxCoord, DimCoord
    from iris.cube import Cube

    n = max(len(times), len(frts))
    r = real or []
    shape = ([n] if n > 1 else []) + ([len(r)] if len(r) > 1 else []) + [2, 2]
    d = np.arange(int(np.prod(shape)), dtype=np.float32).reshape(shape) + (fill or 0)
    lead_ = ([("height", list(range(n)), "m")] if n > 1 else []) + ([("realization", r, "1")] if len(r) > 1 else [])
    c = cubes.grid(d, name="air_temperature", units="K", leading=lead_, time=None, attributes=ATT)
    if n > 1:
        c.remove_coord("height")

    def put(coord, m):
        if m > 1:
            if (len(times) > 1) == (coord.name() == "time") and coord.name() in ("time", "forecast_reference_time") and not [q for q in c.coords(dim_coords=True) if c.coord_dims(q) == (0,)]:
                c.add_dim_coord(coord, 0)
            else:
                c.add_aux_coord(AuxCoord(coord.points, standard_name=coord.standard_name, long_name=coord.long_name, units=coord.units, bounds=coord.bounds), 0)
        else:
            c.add_aux_coord(coord)

    t = np.array([cubes.T0 + h * H + seconds for h in times], np.int64)
    f = np.array([cubes.T0 + h * H for h in frts], np.int64)
    tb = np.stack([t - bounds * H, t], axis=1) if bounds else None
    K = (lambda x: DimCoord) if True else None
    mono = lambda v: all(a < b for a, b in zip(v, v[1:])) or all(a > b for a, b in zip(v, v[1:]))
    put((DimCoord if mono(list(t)) else AuxCoord)(t, "time", units=cubes.EPOCH, bounds=tb), len(t))
    put((DimCoord if mono(list(f)) else AuxCoord)(f, "forecast_reference_time", units=cubes.EPOCH), len(f))
    if blend is not None:
        q = DimCoord(np.int64(cubes.T0 + blend * H), long_name="blend_time", units=cubes.EPOCH)
        c.add_aux_coord(q)
    if fp:
        p = (np.broadcast_to(t, (n,)) - f).astype(np.int32)
        pb = (np.broadcast_to(tb, (n, 2)) - f[:, None]).astype(np.int32) if bounds else None
        if n == 1:
            c.add_aux_coord(DimCoord(p, "forecast_period", units="seconds", bounds=pb, attributes={"note": "n"} if fp == 2 else None))
        else:
            c.add_aux_coord(AuxCoord(p, "forecast_period", units="seconds", bounds=pb, attributes={"note": "n"} if fp == 2 else None), 0)
    if len(r) == 1:
        c.add_aux_coord(DimCoord(np.int32(r[0]), "realization", units="1"))
    return c


# ------------------------------------------------------------ lead times
def c_lead(tier):
    hours = (0, 3, 4, 27)
    for times in [(a,) for a in hours] + list(itertools.combinations(hours, 2)) + [(3, 4, 27), (27, 4, 3)]:
        for frts in [(a,) for a in (-12, 0, 2, 5)] + [(-12, 0), (2, 0), (-6, 0, 2)]:
            if len(times) > 1 and len(frts) > 1 and len(times) != len(frts):
                continue
            for bounds in (0, 1, 3):
                for fp in (0, 1, 2):
                    for force in (False, True):
                        yield (list(times), list(frts), bounds, fp, force, 0)
                yield (list(times), list(frts), bounds, 2, True, 1)
                yield (list(times), list(frts), bounds, 1, True, 2)
                for how in (3, 4, 5):
                    yield (list(times), list(frts), bounds, 1, True, how)


def lead(case, cov):
    """forecast_period_coord: time less reference time, or the coordinate that is there."""
    import cubes
    import numpy as np
    from improver.metadata.forecast_times import forecast_period_coord
    from iris.exceptions import CoordinateNotFoundError

    times, frts, bounds, fp, force, how = case
    c = make(times, frts, bounds, fp=fp, seconds={3: 1, 4: -59, 5: 61}.get(how, 1800 if bounds == 3 else 0))
    n = max(len(times), len(frts))
    t = np.broadcast_to(np.array(c.coord("time").points), (n,))
    f = np.broadcast_to(np.array(c.coord("forecast_reference_time").points), (n,))
    if how == 1:  # a wrong forecast period is replaced only when forced
        c.coord("forecast_period").points = c.coord("forecast_period").points + np.int32(60)
        with cubes.Unchanged(c):
            r = forecast_period_coord(c)
            cov.step()
            expect(list(r.points) == list(c.coord("forecast_period").points), "the coordinate that is there", got=r.points)
    if how == 2:
        c.remove_coord("forecast_reference_time")
        with cubes.Unchanged(c):
            e = raises(forecast_period_coord, c, force_lead_time_calculation=True)
            cov.step()
            expect(isinstance(e, CoordinateNotFoundError), "must be refused", got=e)
        if len(frts) == 1:
            c.add_aux_coord(make(times, frts).coord("forecast_reference_time"))
            c.coord("forecast_reference_time").rename("blend_time")
    import warnings

    with cubes.Unchanged(c), warnings.catch_warnings(record=True) as caught:
        warnings.simplefilter("always")
        if how == 2 and len(frts) > 1:
            return "refused"
        r = forecast_period_coord(c, force_lead_time_calculation=force)
        before = r.points.copy()
        keep = r.copy()
        r.points = r.points + np.int32(7)  # the result is the caller's
        r.attributes["edited"] = "yes"
        r = keep
    cov.step()
    want = t - f
    if force or not fp:
        expect(any("negative values" in str(w.message) for w in caught) == bool((want < 0).any()), "a warning where a lead time is negative", expected=want, got=[str(w.message) for w in caught])
    expect(list(r.points) == list(want) and r.points.dtype == np.int32, "forecast period", expected=want, got=r.points)
    expect(r.name() == "forecast_period" and str(r.units) == "seconds", "name", got=r)
    if bounds:
        wb = np.stack([want - bounds * H, want], axis=1)
        expect(r.bounds is not None and r.bounds.shape == wb.shape and (r.bounds == wb).all() and r.bounds.dtype == np.int32, "bounds", expected=wb, got=r.bounds)
    else:
        expect(r.bounds is None, "bounds", got=r.bounds)
    if fp == 2:
        expect(dict(r.attributes) == {"note": "n"}, "attributes", got=r.attributes)
    return "negative" if (want < 0).any() else "positive"


# ------------------------------------------------------------ cycles and lagged ensembles
def c_cycles(tier):
    reals = [[0], [1], [0, 1], [1, 2], [2, 0], [0, 1, 2]]
    for frts in itertools.product((-6, 0, -1), repeat=2):
        for r1, r2 in itertools.product(reals, repeat=2):
            for bounds in (0, 1):
                yield ("lag", list(frts), [r1, r2], bounds, 0)
    for frts in itertools.permutations((-6, -3, 0)):
        for rs in itertools.product(([0, 1], [0], [2, 3], [4]), repeat=3):
            yield ("lag", list(frts), [list(r) for r in rs], 0, 0)
    for frts in itertools.product((-6, 0, -1, -30), repeat=3):
        for bounds in (0, 3):
            for cyc in (None, -3, 0, -33):
                for fp in (0, 1):
                    yield ("cycle", list(frts), cyc, bounds, fp)
    for f in (-6, 0):
        for cyc in (-3, 0, 1):
            for bounds in (0, 1):
                for fp in (True, False):
                    yield ("cycle", [f], cyc, bounds, fp)  # one forecast alone
    for times in ((3, 4), (4, 6, 9)):
        for f in (-6, 0):
            for cyc in (None, -3, 1):
                for bounds in (0, 1):
                    yield ("cycletimes", list(times), cyc, bounds, f)
    for b in (-3, 0, 2):
        yield ("blend", b, 0, 0, 0)
    for k in range(3):
        yield ("refuse", k, 0, 0, 0)


def stamp(h):
    import cubes
    from datetime import datetime

    return datetime.utcfromtimestamp(cubes.T0 + h * H).strftime("%Y%m%dT%H%MZ")


def lead_of(c, cyc, bounds, times):
    import cubes
    import numpy as np

    q = c.coord("forecast_reference_time")
    expect(list(q.points) == [cubes.T0 + cyc * H] and q.bounds is None and q.points.dtype == np.int64 and c.coord_dims(q) == (), "reference time", expected=cyc, got=q.points - cubes.T0)
    p = c.coord("forecast_period")
    expect(list(p.points) == [(t - cyc) * H for t in times] and p.points.dtype == np.int32, "forecast period", expected=[t - cyc for t in times], got=p.points)
    expect((p.bounds is not None) == bool(bounds) and (not bounds or [list(b) for b in p.bounds] == [[(t - cyc - bounds) * H, (t - cyc) * H] for t in times]), "forecast period bounds", got=p.bounds)
    expect(c.coord_dims(p) == c.coord_dims("time"), "forecast period dimension", got=c.coord_dims(p))
    expect(list(c.coord("time").points) == [cubes.T0 + t * H for t in times], "time", got=c.coord("time").points)


def cycles(case, cov):
    import cubes
    import numpy as np
    from improver.metadata.forecast_times import add_blend_time, rebadge_forecasts_as_latest_cycle, unify_cycletime
    from improver.utilities.time_lagging import GenerateTimeLaggedEnsemble
    from iris.cube import CubeList

    kind, a1, a2, a3, a4 = case
    if kind == "lag":
        frts, reals, bounds = a1, a2, a3
        cl = CubeList([make([12], [f], bounds, real=r, fill=100 * i) for i, (f, r) in enumerate(zip(frts, reals))])
        with cubes.Unchanged(*cl):
            r = GenerateTimeLaggedEnsemble().process(cl)
        cov.step()
        flat = [q for rs in reals for q in rs]
        unique = len(set(flat)) == len(flat)
        labels = flat if unique else list(range(len(flat)))
        slices = [c.data if c.ndim == 2 else c.data[i] for c, rs in zip(cl, reals) for i in range(len(rs))]
        want = dict(zip(labels, slices))
        got = list(r.coord("realization").points)
        expect(sorted(got) == sorted(labels) and r.coord("realization").points.dtype == np.int32, "realizations", expected=labels, got=got)
        for i, q in enumerate(got):
            expect_same(r.data[i], want[q], "realization %d" % q)
        lead_of(r, max(frts), bounds, [12])
        expect(r.attributes == ATT, "attributes", got=r.attributes)
        return "unique" if unique else "renumbered"
    if kind in ("cycle", "cycletimes"):
        if kind == "cycle":
            cl = CubeList([make([h], [f], a3, fp=a4, fill=10 * i) for i, (h, f) in enumerate(zip((3, 5, 4), a1))])
            times = [[3], [5], [4]]
            top = max(a1)
        else:
            cl = CubeList([make(a1, [a4], a3), make([2], [a4 - 1], a3)])
            times = [a1, [2]]
            top = a4
        cyc = top if a2 is None else a2
        with cubes.Unchanged(*cl):
            r = rebadge_forecasts_as_latest_cycle(cl, *([stamp(a2)] if a2 is not None else []))
            from improver.utilities.temporal import cycletime_to_datetime

            r2 = unify_cycletime(cl, cycletime_to_datetime(stamp(cyc)))
        cov.step(2)
        for rr in (r, r2):
            expect(len(rr) == len(cl), "cubes", got=len(rr))
            for c, o, t in zip(rr, cl, times):
                lead_of(c, cyc, a3, t)
                expect_same(c.data, o.data, "data")
                expect(c.attributes == o.attributes and c.name() == o.name(), "description", got=c.attributes)
        return "cycle"
    if kind == "units":
        cl = CubeList([make([3 + i], [f], fill=10 * i) for i, f in enumerate(a1)])
        for i, c in enumerate(cl):
            if a2 >> i & 1:
                c.coord("forecast_reference_time").convert_units("hours since 1970-01-01 00:00:00")
        with cubes.Unchanged(*cl):
            r = rebadge_forecasts_as_latest_cycle(cl)
        cov.step()
        for i, c in enumerate(r):
            lead_of(c, max(a1), 0, [3 + i])
        return "units"
    if kind == "blend":
        c = make([3], [0])
        add_blend_time(c, stamp(a1))
        cov.step()
        q = c.coord("blend_time")
        expect(list(q.points) == [cubes.T0 + a1 * H] and q.points.dtype == np.int64 and str(q.units) == cubes.EPOCH and q.bounds is None, "blend time", got=q)
        c.remove_coord("blend_time")
        cubes.expect_cube(c, cubes.describe(make([3], [0])), "the rest")
        return "blend"
    if a1 == 0:
        c = make([3, 4], [0, 1])
        e = raises(rebadge_forecasts_as_latest_cycle, CubeList([c, make([3], [0])]))
    elif a1 == 1:
        from improver.metadata.forecast_times import forecast_period_coord

        e = raises(forecast_period_coord, make([3], [0], blend=1), True)
    else:
        from improver.cli.time_lagged_ensembles import process

        while hasattr(process, "__wrapped__"):
            process = process.__wrapped__
        e = raises(process, make([3], [0], real=[0, 1]), make([4], [0], real=[2, 3]))
    cov.step()
    expect(isinstance(e, ValueError), "must be refused", got=e)
    return "refused"


# ------------------------------------------------------------ the nearest time
def c_nearest(tier):
    for times in ((0, 1), (0, 1, 2), (0, 3, 12), (12, 3, 0), (5,)):
        for lay in (0, 1):
            for off in range(-2 * 3600, 14 * 3600, 900 if tier == "quick" else 300):
                for allowed in (0, 600, 1800, 5400):
                    if lay and off % 1800:
                        continue
                    yield ("time", list(times), lay, off, allowed)
    for off in (-3600, -60, 0, 60):
        for allowed in (0, 60, 59):
            yield ("forecast_reference_time", [5], 0, off, allowed)
    yield ("forecast_period", [5], 0, 0, 0)


def nearest(case, cov):
    import cubes
    import numpy as np
    from datetime import datetime
    from improver.utilities.temporal import extract_nearest_time_point

    name, times, lay, off, allowed = case
    c = make(times, [0], real=[0, 1] if lay else None)
    if lay and len(times) > 1:
        c.transpose([1, 0, 2, 3])
    dt = datetime.utcfromtimestamp(cubes.T0 + off)
    pts = [h * H for h in times] if name == "time" else [0]
    d = [abs(p - off) for p in pts]
    with cubes.Unchanged(c):
        if name == "forecast_period" or min(d) > allowed:
            e = raises(extract_nearest_time_point, c, dt, time_name=name, allowed_dt_difference=allowed)
            cov.step()
            expect(isinstance(e, ValueError), "must be refused", got=e)
            return "refused"
        r = extract_nearest_time_point(c, dt, time_name=name, allowed_dt_difference=allowed)
    cov.step()
    ok = [p for p, q in zip(pts, d) if q == min(d)]
    got = int(r.coord(name).points[0] - cubes.T0)
    expect(got in ok and len(r.coord(name).points) == 1, "the nearest time", expected=ok, got=got)
    if len(times) > 1:
        expect_same(r.data, np.take(c.data, pts.index(got), axis=c.coord_dims("time")[0]), "data")
    else:
        expect_same(r.data, c.data, "data")
    return "found"


# ------------------------------------------------------------ periods
def c_period(tier):
    for period in (1, 2, 3, 24):
        for h in (0, 3, 5):
            for bounds in (0, 1, 6):
                yield ("relabel", period, h, bounds)
    for p in (None, 0, -1):
        yield ("relabel bad", p, 0, 0)
    for times in ((4,), (4, 5), (4, 5, 8), (8, 5, 4)):
        for bounds in (0, 1, 3):
            for lay in range(4):
                for mask in (0, 1):
                    for name in (None, "rain"):
                        yield ("integrate", list(times), bounds, [lay, mask, name])
    for per in itertools.product((1, 2, 24, 30), repeat=3):
        yield ("uneven", list(per), 0, 0)


def period(case, cov):
    import cf_units
    import cubes
    import numpy as np
    from improver.utilities.temporal import integrate_time, relabel_to_period
    from iris.coords import CellMethod

    kind, a1, a2, a3 = case
    if kind == "relabel bad":
        e = raises(relabel_to_period, make([3], [0]), a1)
        cov.step()
        expect(isinstance(e, ValueError), "must be refused", got=e)
        return "refused"
    if kind == "relabel":
        c = make([a2], [-1], a3)
        r = relabel_to_period(c, a1)
        cov.step()
        want = make([a2], [-1], a1)
        cubes.expect_cube(r, cubes.describe(want), "relabelled")
        for q, dt in (("time", np.int64), ("forecast_period", np.int32)):
            expect(r.coord(q).points.dtype == dt and r.coord(q).bounds.dtype == dt, "types of " + q, got=(r.coord(q).points.dtype, r.coord(q).bounds.dtype))
        return "relabelled"
    if kind == "integrate":
        times, bounds, (lay, mask, name) = a1, a2, a3
        c = make(times, [0], bounds, real=[3, 5] if lay else None)
        if lay == 2 and len(times) > 1:
            c.transpose([1, 0, 2, 3])
        if lay == 3 and len(times) > 1:
            c.transpose([2, 3, 1, 0])
        widths = [bounds * H] * len(times)
    else:
        times = [4, 40, 90]
        c = make(times, [0], 1)
        b = np.array([[cubes.T0 + (t - p) * H, cubes.T0 + t * H] for t, p in zip(times, a1)], np.int64)
        c.coord("time").bounds = b
        c.coord("forecast_period").bounds = (b - cubes.T0).astype(np.int32)
        widths, name, mask, bounds = [p * H for p in a1], None, 0, 1
    c.rename("precipitation_rate")
    c.units = "kg m-2 s-1"
    if mask:
        m = np.zeros(c.shape, bool)
        m[..., 0] = True
        c.data = np.ma.masked_array(c.data, m)
    c.add_cell_method(CellMethod("mean", coords="time"))
    c.add_cell_method(CellMethod("mean", coords="realization"))
    with cubes.Unchanged(c):
        if not bounds:
            e = raises(integrate_time, c, name)
            cov.step()
            expect(isinstance(e, ValueError), "must be refused", got=e)
            return "refused"
        r = integrate_time(c, name)
    cov.step()
    got_t = [int(v) for v in (r.coord("time").points - cubes.T0) // H]
    expect(sorted(got_t) == sorted(times), "times", got=got_t)
    for i, t in enumerate(times):
        f = (lambda q: q.data) if len(times) == 1 else (lambda q: np.ma.take(q.data, [int(v) for v in (q.coord("time").points - cubes.T0) // H].index(t), axis=q.coord_dims("time")[0]))
        src = c if len(times) == 1 else c
        a, b = f(r), f(src)
        # dimensions other than time keep their order
        order = lambda q: [n.name() for n in q.coords(dim_coords=True) if n.name() != "time"]
        expect(order(r) == order(c), "order of dimensions", expected=order(c), got=order(r))
        expect((np.ma.getmaskarray(a) == np.ma.getmaskarray(b)).all(), "mask", got=a)
        k = np.ma.getmaskarray(b)
        expect_close(np.where(k, 0, np.ma.getdata(a)), np.where(k, 0, np.ma.getdata(b).astype(float) * widths[i]), "integral at time %d" % t, rtol=1e-6)
        expect(a.dtype == np.float32, "type", got=a.dtype)
    expect(r.units == cf_units.Unit("kg m-2") and r.name() == (name or "precipitation_rate"), "units and name", got=(r.units, r.name()))
    expect(list(r.cell_methods) == [CellMethod("sum", coords=["time"]), CellMethod("mean", coords="realization")], "cell methods", got=r.cell_methods)
    expect({q.name() for q in r.coords()} == {q.name() for q in c.coords()}, "coordinates", got=[q.name() for q in r.coords()])
    return kind


# ------------------------------------------------------------ conversions
def c_convert(tier):
    for k in range(0, 366 * 24, 7 if tier == "quick" else 1):
        yield ("cycle", k)
    for year in (1970, 1971, 1999, 2000, 2017, 2024, 2038, 2100):
        for md in ((1, 1), (2, 28), (3, 1), (12, 31)):
            for hm in ((0, 0), (0, 1), (23, 59), (12, 30)):
                yield ("date", [year, *md, *hm])
    for bad in ("20171110T0000", "201711100000Z", "20171310T0000Z", "", "20171110T2500Z"):
        yield ("bad", bad)
    for h in range(24):
        for m in (1, 5, 24):
            yield ("constraint", h, m)


def convert(case, cov):
    import cubes
    import numpy as np
    from datetime import datetime, timedelta
    from improver.utilities import temporal as T
    from iris.cube import CubeList

    kind, k = case[:2]
    if kind == "bad":
        e = raises(T.cycletime_to_datetime, k)
        cov.step()
        expect(isinstance(e, ValueError), "must be refused", got=e)
        return "refused"
    if kind in ("cycle", "date"):
        dt = datetime(2016, 1, 1) + timedelta(hours=k, minutes=7 * (k % 8)) if kind == "cycle" else datetime(*k)
        s = "%04d%02d%02dT%02d%02dZ" % (dt.year, dt.month, dt.day, dt.hour, dt.minute)
        expect(T.cycletime_to_datetime(s) == dt and T.datetime_to_cycletime(dt) == s, "cycle time", expected=s, got=T.datetime_to_cycletime(dt))
        secs = int((dt - datetime(1970, 1, 1)).total_seconds())
        expect_close(T.cycletime_to_number(s), secs / 3600, "hours", rtol=1e-12)
        expect(round(float(T.cycletime_to_number(s, time_unit="seconds since 1970-01-01 00:00:00"))) == secs, "seconds", got=T.cycletime_to_number(s))
        v = T.datetime_to_iris_time(dt)
        expect(v == secs and v.dtype == np.int64, "seconds from the epoch", expected=secs, got=v)
        cov.step(5)
        from iris.coords import DimCoord

        c = DimCoord(np.array([secs - 60, secs], np.int64), "time", units="seconds since 1970-01-01 00:00:00", bounds=np.array([[secs - 120, secs - 60], [secs - 60, secs]], np.int64))
        h = c.copy()
        h.convert_units("minutes since 1990-01-01 00:00:00")
        for q in (c, h):
            pts, bds = T.iris_time_to_datetime(q), T.iris_time_to_datetime(q, point_or_bound="bound")
            one = timedelta(minutes=1)
            expect([str(p)[:19] for p in pts] == [str(dt - one), str(dt)], "datetimes", expected=dt, got=pts)
            expect([[str(x)[:19] for x in b] for b in bds] == [[str(dt - 2 * one), str(dt - one)], [str(dt - one), str(dt)]], "datetimes of bounds", expected=dt, got=bds)
            expect(T.datetime_to_iris_time(pts[1]) == secs, "there and back", got=pts)
            for extra in (1, 30, 59):
                q2 = c[1:].copy()
                q2.bounds = None
                q2.points = q2.points + np.int64(extra)
                p2 = T.iris_time_to_datetime(q2)[0]
                for v2 in (p2, dt + timedelta(seconds=extra)):
                    expect(T.datetime_to_iris_time(v2) == secs + extra, "there and back with seconds", expected=secs + extra, got=T.datetime_to_iris_time(v2))
                try:
                    from cftime import DatetimeGregorian as DG
                except ImportError:
                    continue
                g = DG(dt.year, dt.month, dt.day, dt.hour, dt.minute, extra)
                expect(T.datetime_to_iris_time(g) == secs + extra, "seconds of a cftime datetime", expected=secs + extra, got=T.datetime_to_iris_time(g))
        expect(str(h.units).startswith("minutes"), "the coordinate is left alone", got=h.units)
        return kind
    h, m = case[1:]
    times = [0, 1, 5, 6, 23, 24, 29]
    c = make(times, [0])
    lo = datetime.utcfromtimestamp(cubes.T0 + h * H)
    hi = lo + timedelta(hours=m)
    r = c.extract(T.datetime_constraint(lo, hi))
    want = [t for t in times if h <= t < h + m]
    got = [] if r is None else [int(v) for v in (r.coord("time").points - cubes.T0) // H]
    expect(got == want, "times from %d below %d" % (h, h + m), expected=want, got=got)
    one = T.extract_cube_at_time(CubeList([c]), lo, T.datetime_constraint(lo))
    cov.step(2)
    if h in times:
        expect(one is not None and int(one.coord("time").points[0] - cubes.T0) == h * H, "the cube at the time", got=one)
        expect_same(one.data, c.data[times.index(h)], "data")
    else:
        expect(one is None, "no cube at the time", got=one)
    return "constraint"


SECTIONS = [Section("lead times", c_lead, lead), Section("cycles", c_cycles, cycles), Section("nearest", c_nearest, nearest), Section("periods", c_period, period), Section("conversions", c_convert, convert)]

if __name__ == "__main__":
    main(globals())
