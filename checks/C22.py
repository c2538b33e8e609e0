"""C22: simple bias correction and height difference rescaling."""
import itertools
import math

from mc import Section, Violation, expect, expect_close, expect_same, main, raises

PROPERTY = "C22"
HOUR = 3600
ATT = {"source": "IMPROVER", "title": "UK forecast", "institution": "Met Office"}


def mkmask(mode, t, shape, nt):
    import numpy as np

    m = np.zeros(shape, bool)
    if mode == 1:
        m[0, 0] = m[1, 2] = True
    elif mode == 2:
        m[0, t] = True
    elif mode == 3 and t == nt - 1:
        m[1, :2] = True
    return m


def hist(values, masks, times, frts, truth, lead=None, latlon=False):
    import cubes
    import numpy as np
    from iris.cube import CubeList

    out = CubeList()
    for v, m, t, f in zip(values, masks, times, frts):
        d = np.ma.masked_array(v, m) if m is not None else v
        kw = {}
        if lead == "percentile":
            kw["scalars"] = [("percentile", 50.0, "%")]
        elif lead == "realization":
            kw["scalars"] = [("realization", 0, "1", np.int32)]
        c = cubes.grid(d, name="air_temperature", units="K", time=t, frt=f, attributes=dict(ATT, title="Truth" if truth else ATT["title"]), **kw)
        if truth:
            c.remove_coord("forecast_period")
        out.append(c)
    return out.merge_cube() if len(out) > 1 else out[0]


def c_calc(tier):
    for nt in (1, 2, 3):
        for fm in (None, 0, 1, 2, 3):
            for tm in (None, 0, 1, 2, 3):
                for lead in (None, "percentile", "realization"):
                    for extra in (0, 1, 2):  # unmatched forecast time, unmatched truth time
                        if lead and (extra or fm in (2, 3)):
                            continue
                        yield (nt, fm, tm, lead, extra)


def calc(case, cov):
    """The bias is the mean over the matched times of forecast minus truth where both are present."""
    import cubes
    import numpy as np
    from improver.calibration.simple_bias_correction import CalculateForecastBias as P

    nt, fm, tm, lead, extra = case
    shape = (2, 3)
    F = [np.array([[280 + ((t * 5 + r * 3 + c * 7) % 11) / 4 for c in range(3)] for r in range(2)], np.float32) for t in range(nt + 1)]
    O = [np.array([[281 + ((t * 3 + r * 7 + c * 2) % 9) / 8 for c in range(3)] for r in range(2)], np.float32) for t in range(nt + 1)]
    MF = [None if fm is None else mkmask(fm, t % 3, shape, nt) for t in range(nt + 1)]
    MO = [None if tm is None else mkmask(tm, (t + 1) % 3, shape, nt) for t in range(nt + 1)]
    times = [cubes.T0 + t * 86400 for t in range(nt + 1)]
    nf, no = nt + (extra == 1), nt + (extra == 2)
    fc = hist(F[:nf], MF, times, [t - 3 * HOUR for t in times], False, lead)
    tr = hist(O[:no], MO, times, times, True)
    with cubes.Unchanged(fc, tr):
        r = P().process(fc, tr)
    cov.step()
    want, wm = np.zeros(shape), np.zeros(shape, bool)
    for ix in np.ndindex(*shape):
        v = [float(F[t][ix]) - float(O[t][ix]) for t in range(nt) if not ((fm is not None and MF[t][ix]) or (tm is not None and MO[t][ix]))]
        wm[ix] = not v
        want[ix] = sum(v) / len(v) if v else 0
    expect(r.shape == shape and r.dtype == np.float32, "shape and type", got=(r.shape, str(r.dtype)))
    expect_same(np.ma.getmaskarray(r.data), wm, "masked where there is no pair")
    expect_close(np.ma.getdata(r.data)[~wm], want[~wm], "the mean error over the matched times", atol=2e-5)
    expect(r.name() == "forecast_error_of_air_temperature" and str(r.units) == "K", "name", got=r.name())
    expect(r.attributes == dict(ATT, title="Forecast bias data"), "attributes", got=r.attributes)
    expect(not r.coords("time"), "time must be removed")
    frt = r.coord("forecast_reference_time")
    fr = [t - 3 * HOUR for t in times[:nt]]
    expect(list(frt.points) == [max(fr)], "reference time", got=frt.points)
    if nt > 1:
        expect(frt.bounds is not None and list(frt.bounds[0]) == [min(fr), max(fr)], "reference time bounds", got=frt.bounds)
    expect(list(r.coord("forecast_period").points) == [3 * HOUR], "forecast period")
    return nt


def c_refuse(tier):
    for k in ("probability", "percentiles", "realizations", "periods", "nothing matched"):
        yield (k,)


def refuse(case, cov):
    import cubes
    import numpy as np
    from improver.calibration.simple_bias_correction import CalculateForecastBias as P

    (k,) = case
    t = cubes.T0
    d = np.full((2, 3), 280, np.float32)
    tr = hist([d, d], [None] * 2, [t, t + 86400], [t, t + 86400], True)
    if k == "probability":
        fc = cubes.prob(np.full((1, 2, 3), 0.5, np.float32), [280.0], diag="air_temperature", tunits="K", time=t, frt=t - HOUR, attributes=ATT)
    elif k == "percentiles":
        fc = cubes.grid(np.stack([d, d]), name="air_temperature", units="K", leading=[("percentile", [20.0, 50.0], "%")], time=t, frt=t - HOUR, attributes=ATT)
    elif k == "realizations":
        fc = cubes.grid(np.stack([d, d]), name="air_temperature", units="K", leading=[("realization", [0, 1], "1")], time=t, frt=t - HOUR, attributes=ATT)
    elif k == "periods":
        fc = hist([d, d], [None] * 2, [t, t + 86400], [t - HOUR, t + 86400 - 2 * HOUR], False)
    else:
        fc = hist([d], [None], [t + HOUR], [t - HOUR], False)
    e = raises(P().process, fc, tr)
    cov.step()
    expect(isinstance(e, ValueError), "must be refused: " + k, got=e)
    return k


# -------------------------------------------------------------- apply
def mkbias(v, m, frt, fp, bounds=None):
    import cubes
    import numpy as np

    c = cubes.grid(np.ma.masked_array(v, m) if m is not None else v, name="forecast_error_of_air_temperature", units="K", time=frt + fp, frt=frt,
                   attributes=dict(ATT, title="Forecast bias data"))
    c.remove_coord("time")
    if bounds is not None:
        c.coord("forecast_reference_time").bounds = np.array(bounds, np.int64)
    return c


def c_apply(tier):
    for n in (1, 2, 3):
        for mode in (None, 0, 1, 2):
            for fill in (False, True):
                for lo, hi in ((None, None), (279.5, None), (None, 281.0), (279.5, 281.0), (0.0, None), (None, 0.0)):
                    for form in (0, 1, 2):  # plain, realizations, masked realizations
                        for order in ((0,) if n == 1 else (0, 1)):
                            yield (n, mode, fill, lo, hi, form, order)


def apply(case, cov):
    """Each value less the mean bias of its point, within the bounds."""
    import cubes
    import numpy as np
    from iris.cube import CubeList
    from improver.calibration.simple_bias_correction import ApplyBiasCorrection as P

    n, mode, fill, lo, hi, form, order = case
    t = cubes.T0
    shape = (2, 3)
    B = [np.array([[((k * 5 + r * 3 + c * 7) % 11 - 5) / 4 for c in range(3)] for r in range(2)], np.float32) for k in range(n)]
    M = [None if mode is None else mkmask(mode, k % 3, shape, n) for k in range(n)]
    bc = [mkbias(B[k], M[k], t - (k + 1) * 86400, 3 * HOUR, [t - 5 * 86400, t - 86400] if n == 1 and order == 0 else None) for k in range(n)]
    nr = 2 if form else 1
    base = 0 if lo == 0 or hi == 0 else 280
    V = np.array([[[base + ((m * 7 + r * 5 + c * 3) % 13) / 8 for c in range(3)] for r in range(2)] for m in range(nr)], np.float32)
    fmask = None
    if form == 2:
        fmask = np.zeros(V.shape, bool)
        fmask[0, 1, 1] = fmask[:, 0, 2] = True
    d = np.ma.masked_array(V, fmask) if form == 2 else V
    if form == 0:
        fc = cubes.grid(d[0], name="air_temperature", units="K", time=t + 3 * HOUR, frt=t, attributes=ATT)
    else:
        fc = cubes.grid(d, name="air_temperature", units="K", leading=[("realization", list(range(nr)), "1")], time=t + 3 * HOUR, frt=t, attributes=ATT)
    args = [fc] + (bc[::-1] if order else bc)
    args = args[1:] + args[:1] if order else args
    with cubes.Unchanged(*args):
        r = P(lo, hi, fill).process(CubeList(args))
    cov.step()
    gm, got = np.ma.getmaskarray(r.data).reshape(V.shape), np.ma.getdata(r.data).reshape(V.shape)
    for ix in np.ndindex(*V.shape):
        p = ix[1:]
        have = [float(B[k][p]) for k in range(n) if not (mode is not None and M[k][p])]
        masked = (fmask is not None and fmask[ix]) or (not have and not fill)
        expect(bool(gm[ix]) == bool(masked), "mask at %s" % (ix,), expected=masked, got=gm[ix])
        if masked:
            continue
        w = float(V[ix]) - (sum(have) / len(have) if have else 0.0)
        w = max(w, lo) if lo is not None else w
        w = min(w, hi) if hi is not None else w
        expect(abs(float(got[ix]) - w) < 1e-4, "corrected value at %s" % (ix,), expected=w, got=got[ix])
    expect(r.dtype == np.float32, "type", got=r.dtype)
    cubes.expect_cube(r, cubes.describe(fc), "metadata", ignore=("data", "masked"))
    return form


def c_check(tier):
    for h in (0, 1, 48, 49, -23):
        for p in (3, 4, 0, -3):
            for n in (1, 2):
                for b in (0, 1):
                    for at in range(n):
                        yield (h, p, n, b, at)
    yield "none"


def check(case, cov):
    """Bias of another cycle hour or forecast period, or several biases with reference time bounds, are refused."""
    import cubes
    import numpy as np
    from iris.cube import CubeList
    from improver.calibration.simple_bias_correction import ApplyBiasCorrection as P

    t = cubes.T0
    V = np.full((2, 3), 280, np.float32)
    fc = cubes.grid(V, name="air_temperature", units="K", time=t + 3 * HOUR, frt=t, attributes=ATT)
    if case == "none":
        r = P(285.0, None).process(CubeList([fc.copy()]))
        cov.step()
        expect_same(r.data, V, "unchanged")
        expect("comment" in r.attributes and "Warning" in r.attributes["comment"], "warning comment", got=r.attributes)
        return "none"
    h, p, n, b, at = case
    bias = [mkbias(V * 0 + 1, None, t - 86400 * (k + 2) + (h * HOUR if k == at else 0), (p if k == at else 3) * HOUR, [t - 5 * 86400, t - 86400 * (k + 2)] if b else None) for k in range(n)]
    e = raises(P().process, CubeList([fc] + bias))
    cov.step()
    good = h % 24 == 0 and p == 3 and not (n > 1 and b)
    expect((e is None) == good if good else isinstance(e, ValueError), "cycle hour %+d, period %d, %d biases, bounds %d" % (h, p, n, b), got=e)
    return good


# -------------------------------------------------------------- dz rescaling
def sites(ids, extra=()):
    import numpy as np
    from iris.coords import AuxCoord, DimCoord

    n = len(ids)
    return [(DimCoord(np.arange(n, dtype=np.int32), long_name="spot_index", units="1"))], [
        AuxCoord(np.array([10.0 * int(i) for i in ids], np.float32), "altitude", units="m"),
        AuxCoord(np.array([50.0 + int(i) for i in ids], np.float32), "latitude", units="degrees"),
        AuxCoord(np.array([float(i) for i in ids], np.float32), "longitude", units="degrees"),
        AuxCoord(["%05d" % int(i) for i in ids], long_name="wmo_id", units="no_unit"),
        AuxCoord(["9%05d" % int(i) for i in ids], long_name="met_office_site_id", units="no_unit"),
    ]


def spot(data, ids, name, units, leading=(), time=None, frt=None, scalars=()):
    import cubes
    import numpy as np
    from iris.coords import AuxCoord, DimCoord
    from iris.cube import Cube

    data = np.asarray(data, np.float32)
    c = Cube(data, long_name=name, units=units, attributes=dict(ATT))
    for i, (nm, pts, un) in enumerate(leading):
        k = DimCoord(np.array(pts, np.float32), units=un)
        k.rename(nm)
        c.add_dim_coord(k, i)
    d, a = sites(ids)
    c.add_dim_coord(d[0], data.ndim - 1)
    for x in a:
        c.add_aux_coord(x, data.ndim - 1)
    if time is not None:
        c.add_aux_coord(DimCoord(np.int64(time), "time", units=cubes.EPOCH))
    if frt is not None:
        c.add_aux_coord(DimCoord(np.int64(frt), "forecast_reference_time", units=cubes.EPOCH))
        if time is not None:
            c.add_aux_coord(DimCoord(np.int32(time - frt), "forecast_period", units="seconds"))
    for nm, pt, un in scalars:
        x = AuxCoord(np.array(pt) if not isinstance(pt, str) else pt, units=un)
        x.rename(nm)
        c.add_aux_coord(x)
    return c


def neighbours(dz, ids):
    """[method, key, site]: two neighbour methods, three grid attributes, of which one is the vertical displacement."""
    import numpy as np
    from iris.coords import AuxCoord, DimCoord
    from iris.cube import Cube

    n = len(ids)
    d = np.zeros((2, 3, n), np.float32)
    d[0, :, :] = 77
    d[1, :, :] = -77
    d[0, 2] = dz
    d[1, 2] = np.array(dz) * -2 + 5
    c = Cube(d, long_name="grid_neighbours", units="1", attributes=dict(ATT, model_grid_hash="abc"))
    c.add_dim_coord(DimCoord(np.arange(2, dtype=np.int32), long_name="neighbour_selection_method", units="1"), 0)
    c.add_aux_coord(AuxCoord(["nearest", "nearest_land_minimum_dz"], long_name="neighbour_selection_method_name", units="no_unit"), 0)
    c.add_dim_coord(DimCoord(np.arange(3, dtype=np.int32), long_name="grid_attributes", units="1"), 1)
    c.add_aux_coord(AuxCoord(["x_index", "y_index", "vertical_displacement"], long_name="grid_attributes_key", units="no_unit"), 1)
    s, a = sites(ids)
    c.add_dim_coord(s[0], 2)
    for x in a:
        c.add_aux_coord(x, 2)
    return c


def c_est(tier):
    orders = [(0, 1, 2), (0, 2, 1), (1, 0, 2), (1, 2, 0), (2, 0, 1), (2, 1, 0)]
    for nt in (1, 2):
        for o in orders:
            for which in ("forecast", "truth", "neighbour"):
                for zero in (0, 1):
                    yield ("order", nt, o, which, zero, (None, None), (0, 0), "wmo_id", 1)
    for nt in (1, 2, 3):
        for lo, hi in ((None, None), (-40.0, None), (None, 100.0), (-40.0, 100.0), (-500.0, 500.0), (-60.0, 70.0), (-20.0, 150.0)):
            for method in ((0, 0), (1, 1)):
                for idc in ("wmo_id", "met_office_site_id"):
                    for zero in (0, 1, 2, 3):  # a zero forecast, zero truth, both
                        for slope in (1, 0, -1):
                            yield ("bounds", nt, (0, 1, 2), "none", zero, (lo, hi), method, idc, slope)


def est(case, cov):
    """exp(-s dz) at every site, with s the least-squares slope of log(forecast / truth) over the matched sites and times."""
    import cubes
    import numpy as np
    from iris.cube import CubeList
    from improver.calibration.dz_rescaling import EstimateDzRescaling as P

    kind, nt, order, which, zero, (lo, hi), method, idc, slope = case
    ids = [11, 12, 13, 14, 15]
    dz0 = {11: -60.0, 12: -20.0, 13: 15.0, 14: 70.0, 15: 150.0, 16: 33.0}
    extra = {"forecast": [], "truth": [], "neighbour": []}
    base = {k: list(ids) for k in extra}
    base["forecast"] = ids + [16]
    base["truth"] = [10] + ids
    base["neighbour"] = ids + [16]
    if which in base:
        b = base[which]
        base[which] = [b[i] for i in order] + b[3:]
    t0 = cubes.T0
    times = [t0 + k * 86400 for k in range(nt)]

    def fcst(t, i):
        k = times.index(t)
        if zero in (1, 3) and i == 12 and k == 0:
            return 0.0
        return tru(t, i, True) * math.exp(slope * 0.002 * dzof(i) + (((i * 3 + k * 5) % 7) - 3) / 50 * abs(slope))

    def tru(t, i, raw=False):
        k = times.index(t)
        if zero in (2, 3) and i == 14 and k == nt - 1 and not raw:
            return 0.0
        return 4.0 + ((i * 7 + k * 3) % 5) / 2

    def dzof(i):
        return float(np.float32(dz0[i])) if method == (0, 0) else float(np.float32(dz0[i] * -2 + 5))

    fl, tl = CubeList(), CubeList()
    for t in times:
        fl.append(spot([[fcst(t, i) - 1 for i in base["forecast"]], [fcst(t, i) for i in base["forecast"]], [fcst(t, i) + 2 for i in base["forecast"]]],
                       base["forecast"], "wind_speed", "m s-1", [("percentile", [20.0, 50.0, 80.0], "%")], t, t - 9 * HOUR))
        tl.append(spot([tru(t, i) if i != 10 else 99.0 for i in base["truth"]], base["truth"], "wind_speed", "m s-1", (), t, t))
    fc, tr = fl.merge_cube(), tl.merge_cube()
    if nt > 1:
        fc.transpose([fc.coord_dims("percentile")[0], fc.coord_dims("time")[0], fc.ndim - 1])
    nb = neighbours([dz0[i] for i in base["neighbour"]], base["neighbour"])
    with cubes.Unchanged(fc, tr, nb):
        r = P(9, lo, hi, land_constraint=bool(method[0]), similar_altitude=bool(method[1]), site_id_coord=idc).process(fc, tr, nb)
    cov.step()
    xs, ys = [], []
    L, H = (-math.inf if lo is None else lo), (math.inf if hi is None else hi)
    for t in times:
        for i in ids:
            f, o, d = np.float32(fcst(t, i)), np.float32(tru(t, i)), dzof(i)
            if f != 0 and o != 0 and L <= d <= H:
                xs.append(d)
                ys.append(math.log(float(f) / float(o)))
    if len(set(xs)) < 2:
        return "too few points"
    mx, my = sum(xs) / len(xs), sum(ys) / len(ys)
    s = sum((x - mx) * (y - my) for x, y in zip(xs, ys)) / sum((x - mx) ** 2 for x in xs)
    want = [math.exp(-s * min(max(dzof(i), L), H)) for i in base["neighbour"]]
    expect_close(r.data, want, "the scaling of each site", rtol=1e-4)
    expect(r.name() == "scaled_vertical_displacement" and str(r.units) == "1", "name", got=r.name())
    expect(list(r.coord("wmo_id").points) == ["%05d" % i for i in base["neighbour"]], "sites")
    expect(list(r.coord("forecast_period").points) == [9 * HOUR] and list(r.coord("forecast_reference_time_hour").points) == [15 * HOUR], "period and hour", got=(r.coord("forecast_period").points, r.coord("forecast_reference_time_hour").points))
    return kind


def c_dzapply(tier):
    for fp in (1, 3, 6, 7, 12, 13, 24, 25, 40):
        for hour in (0, 1, 2, 3, 4, 12, 14, 22, 23):
            for len_ in (0, 1, 2):
                for form in (0, 1):
                    for hs in range(4):
                        if hs == 0 or (fp in (3, 12, 40) and form == 0):
                            yield (fp, hour, len_, form, hs)
    for k in range(5):
        yield ("sites", k)


def dzapply(case, cov):
    """Every percentile is multiplied by the scaling of its site for the next forecast period and the nearest allowed cycle hour."""
    import cubes
    import numpy as np
    from iris.cube import CubeList
    from improver.calibration.dz_rescaling import ApplyDzRescaling as P

    fps, hours = [6, 12, 24], [[1, 4, 12, 23], [4, 11, 12, 23], [0, 2, 3, 14], [3, 4, 13, 22]][case[4] if len(case) == 5 else 0]
    ids = [11, 12, 13]

    def val(f, h, i):
        return 1 + (fps.index(f) * 16 + hours.index(h) * 4 + ids.index(i)) / 64

    cl = CubeList()
    for f in fps:
        for h in hours:
            cl.append(spot([val(f, h, i) for i in ids], ids, "scaled_vertical_displacement", "1", scalars=[("forecast_period", np.int32(f * HOUR), "seconds"), ("forecast_reference_time_hour", np.int32(h * HOUR), "seconds")]))
    sc = cl.merge_cube()
    frt = cubes.T0
    if case[0] == "sites":
        other = [[11, 12], [11, 12, 14], [12, 11, 13], [11, 12, 13, 14], [13, 12, 11]][case[1]]
        fc = spot([[1.0] * len(other)], other, "wind_speed", "m s-1", [("percentile", [50.0], "%")], frt + 6 * HOUR + HOUR, frt + HOUR)
        e = raises(P().process, fc, sc)
        cov.step()
        expect(isinstance(e, ValueError), "other sites must be refused", got=e)
        return "sites"
    fp, hour, len_, form, _ = case
    frt += hour * HOUR
    V = np.array([[3 + r + i / 2 for i in range(3)] for r in range(3)], np.float32)
    fc = spot(V if form else V[:1], ids, "wind_speed", "m s-1", [("percentile", [20.0, 50.0, 80.0][:3 if form else 1], "%")], frt + fp * HOUR, frt)
    ref = fc.copy()
    f = next((x for x in fps if x >= fp), fps[-1])
    best = [d for d in sorted(range(-len_, len_ + 1), key=abs) if (hour + d) % 24 in hours]
    p = P(frt_hour_leniency=len_)
    cov.step()
    if not best:
        expect(isinstance(raises(p.process, fc, sc), ValueError), "no such cycle hour: must be refused")
        return "refused"
    same_dist = [d for d in best if abs(d) == abs(best[0])]
    with cubes.Unchanged(sc):
        r = p.process(fc, sc)
    ok = False
    for d in same_dist:
        w = np.array([[float(V[k, i]) * val(f, (hour + d) % 24, ids[i]) for i in range(3)] for k in range(r.shape[0])])
        ok = ok or np.allclose(r.data, w, rtol=1e-5)
    expect(ok, "scaled values", got=r.data.tolist())
    cubes.expect_cube(r, cubes.describe(ref), "metadata", ignore=("data",))
    return "applied"


SECTIONS = [
    Section("bias", c_calc, calc, "1-3 times x masks of forecasts and truths x scalar coordinates x unmatched times"),
    Section("bias_refused", c_refuse, refuse),
    Section("bias_apply", c_apply, apply, "1-3 bias cubes in two orders x masks x filling x bounds x forms of the forecast"),
    Section("bias_check", c_check, check, "cycle hours x periods x number of cubes x bounds"),
    Section("dz_estimate", c_est, est, "site orders, zero values, bounds of the height difference, neighbour methods, identifiers, slopes"),
    Section("dz_apply", c_dzapply, dzapply, "periods x cycle hours x leniency, other sites"),
]

if __name__ == "__main__":
    main(globals())
