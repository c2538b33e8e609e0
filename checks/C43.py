"""C43: lightning (from CAPE and precipitation, multivariate, nowcast) and feels like temperature."""
import itertools
import math

from mc import Section, Violation, expect, expect_close, expect_same, main, raises
import C38 as P38

PROPERTY = "C43"
ATT = {"title": "T", "source": "S", "institution": "I", "mosg__model_configuration": "uk_det"}
MID = "mosg__model_configuration"
H = 3600
Y, X = "projection_y_coordinate", "projection_x_coordinate"


def want_att(mid):
    return {k: v for k, v in ATT.items() if mid or k != MID}


def lightning_coord(r):
    c = r.coord("number_of_lightning_flashes_per_unit_area")
    expect(c.points.tolist() == [0.0] and str(c.units) == "m-2" and c.var_name == "threshold" and c.attributes == {"spp__relative_to_threshold": "greater_than"}, "threshold coordinate", got=(c.points, c.units, c.var_name, c.attributes))


# ------------------------------------------------------------ CAPE and precipitation
LATS = [-80.0, -60.0, -50.0, -45.0, -30.0, -15.0, -10.0, -5.0, 0.0, 5.0, 10.0, 15.0, 30.0, 45.0, 50.0, 60.0, 80.0]


def by_lat(lat, mid, trop):
    return trop + (mid - trop) * min(max((abs(lat) - 10) / 40.0, 0), 1)


def c_cape(tier):
    for per in (1, 3):
        for u in range(4):
            for lead in (0, 2):
                for order in (0, 1):
                    for mid in (False, True):
                        for o in range(2):
                            yield ("cape", per, [u, lead, o], [order, mid])
    for k in range(9):
        yield ("bad", k, 0, 0)


def cape(case, cov):
    import cubes
    import numpy as np
    from improver.lightning import LightningFromCapePrecip
    from iris.cube import CubeList

    kind, a, b, z = case
    f = np.float32
    T = cubes.T0 + 6 * H
    n = len(LATS)
    CN, PN = "atmosphere_convective_available_potential_energy", "precipitation_rate_max"
    cth = np.array([by_lat(l, 350.0, 500.0) for l in LATS])[:, None]
    pth = np.array([by_lat(l, 1.0, 4.0) for l in LATS])[:, None]
    F = [0.0, 0.9, 0.999, 1.0, 1.001, 1.1, 5.0]
    cv = np.concatenate([cth * x for x in F for _ in F] + [cth * 0 + 350, cth * 0 + 500, cth * 0 + 500.5], axis=1)
    pv = np.concatenate([pth * y for _ in F for y in F] + [pth * 0 + 9, pth * 0 + 9, pth * 0 + 9], axis=1)

    def mk(v, name, un="1", lead=0, pos=None, **kw):
        v = np.stack([v, v[:, ::-1]]) if lead else v
        kw.setdefault("attributes", ATT)
        lat0 = kw.pop("lat", 0)
        c = cubes.grid(v.astype(f), name=name, units=un, spatial="latlon", leading=[("realization", [0, 1], "1")] if lead else [], **kw)
        pts = np.array(LATS[::-1] if pos else LATS, f)
        c.coord("latitude").bounds = None
        c.coord("latitude").points = pts + f(lat0)
        return c

    if kind == "bad":
        c = mk(cv, CN, "J kg-1", time=T - H)
        p = mk(pv, PN, "mm h-1", time=T, time_bounds=[T - H, T])
        L = [[c], [p], [mk(cv, CN, "J kg-1", time=T), p], [mk(cv, CN, "J kg-1", time=T - 2 * H), mk(pv, PN, "mm h-1", time=T, time_bounds=[T - 2 * H, T])], [mk(cv, CN, "J kg-1", time=T - H, frt=cubes.T0 + H), p],
             [mk(cv, CN, "J kg-1", time=T - H, lat=1.0), p], [c, mk(pv, PN, "K", time=T, time_bounds=[T - H, T])], [mk(cv, CN, "J kg-1", time=T - H, attributes=dict(ATT, mosg__model_configuration="x")), p], [c, mk(np.where(pv > 3, np.nan, pv), PN, "mm h-1", time=T, time_bounds=[T - H, T])]][a]
        expect(raises(lambda: LightningFromCapePrecip(model_id_attr=MID).process(CubeList(L))), "missing, unmatched and undefined inputs are refused", got=a)
        cov.step()
        return "refused"
    (u, lead, pos), (order, mid) = b, z
    cu, pu = [("J kg-1", "mm h-1"), ("kJ kg-1", "mm h-1"), ("J kg-1", "m s-1"), ("J kg-1", "mm h-1")][u]
    if pos:
        cv, pv, cth, pth = cv[::-1], pv[::-1], cth[::-1], pth[::-1]
    c = mk(cv / (1000 if cu == "kJ kg-1" else 1), CN if u != 3 else "maximum_" + CN, cu, lead, pos, time=T - a * H)
    p = mk(pv / (3.6e6 if pu == "m s-1" else 1), PN if u != 3 else "lwe_" + PN, pu, lead, pos, time=T, time_bounds=[T - a * H, T])
    with cubes.Unchanged(c, p):
        r = LightningFromCapePrecip(model_id_attr=MID if mid else None).process(*([p, c] if order else [c, p]))
    cov.step()
    w = ((cv > cth) & (pv > pth)).astype(float)
    ok = (np.abs(cv / cth - 1) > 1e-5) & (np.abs(pv / pth - 1) > 1e-5)
    if u in (0, 3):  # thresholds that are exact
        ok |= np.array([abs(l) <= 10 or abs(l) >= 50 for l in (LATS[::-1] if pos else LATS)])[:, None]
    if lead:
        w, ok = np.stack([w, w[:, ::-1]]), np.stack([ok, ok[:, ::-1]])
        c2, p2 = np.stack([cv, cv[:, ::-1]]), np.stack([pv, pv[:, ::-1]])
        w = ((c2 > cth) & (p2 > pth)).astype(float)
    g = cubes.arr(r, *(["realization"] if lead else []), "latitude", "longitude")
    expect_close(g[ok], w[ok], "lightning where both exceed the thresholds of their latitude", rtol=0, atol=0)
    expect(r.name() == "probability_of_number_of_lightning_flashes_per_unit_area_above_threshold" and str(r.units) == "1" and r.attributes == want_att(mid) and r.data.dtype == f, "description", got=(r.name(), r.attributes))
    lightning_coord(r)
    expect(cubes.diff(cubes.describe_coord(r.coord("time")), cubes.describe_coord(p.coord("time"))) is None, "valid over the period of the precipitation", got=r.coord("time"))
    return "cape"


# ------------------------------------------------------------ multivariate
CAPE, LI, PW, CIN, AP = [0.0, 50.0, 1000.0, 9000.0], [-8.0, -4.0, -2.0, 3.0], [5.0, 19.9, 20.0, 45.0], [0.0, -30.0, -400.0, 60.0], [0.0, 0.3, 0.9, 1.3, 12.0, 80.0]


def usaf(cape, li, pw, cin, ap):
    inch = ap / 1000 * 39.3701
    p = 0.13 * math.log(cape * inch + 0.7) + 0.05
    if inch - pw / 1000 < 0.01:
        p = 0.025 * math.log(cape / (100 - cin) + 0.31) + 0.03
    if cape <= 0:
        p = 0.2 * math.sqrt(max(li + 4, 0) * inch)
    if pw < 20:
        p *= pw / 20
    return min(p, 0.95)


def c_multi(tier):
    for u in range(4):
        for rot in range(5):
            for lead in (0, 2):
                for mid in (False, True):
                    yield ("usaf", u, rot, [lead, mid])
    for k in range(5):
        for w in range(7):
            yield ("bad", k, w, 0)
    for k in range(4):
        for w in (7, 8):
            yield ("bad", k, w, 0)
    for k in range(4):
        yield ("bad", k, 9, 0)


def multi(case, cov):
    import cubes
    import numpy as np
    from improver.lightning import LightningMultivariateProbability_USAF2024
    from iris.cube import CubeList

    kind, a, b, z = case
    f = np.float32
    T = cubes.T0 + 6 * H
    N = ["atmosphere_specific_convective_available_potential_energy", "temperature_difference_between_ambient_air_and_air_lifted_adiabatically", "precipitable_water", "atmosphere_specific_convective_inhibition", "precipitation_amount"]
    U = [["J kg-1"], ["K"], ["kg m-2", "mm"], ["J kg-1"], ["kg m-2", "mm"]]
    combos = list(itertools.product(CAPE, LI, PW, CIN, AP))
    ny = 32
    lead = z[0] if kind == "usaf" else 0
    V = [np.array([c[k] for c in combos]).reshape(ny, -1) for k in range(5)]
    W = np.array([usaf(*[float(f(x)) for x in c]) for c in combos]).reshape(ny, -1)
    if lead:
        V, W = [np.stack([v, v[::-1]]) for v in V], np.stack([W, W[::-1]])

    def mk(k, un=None, name=None, **kw):
        t = dict(time=T - 3 * H) if k < 4 else dict(time=T, time_bounds=[T - 3 * H, T])
        t.update(kw)
        return cubes.grid(V[k].astype(f), name=name or N[k], units=un or U[k][0], leading=[("realization", [0, 1], "1")] if lead else [], attributes=t.pop("attributes", ATT), **t)

    if kind == "bad":
        cs = [mk(k) for k in range(5)]
        if b == 0:
            del cs[a]
        elif b == 1:
            cs[a] = mk(a, un="m" if a in (2, 4) else "kJ kg-1" if a != 1 else "degC")
        elif b == 2:
            cs[a] = mk(a, frt=cubes.T0 + H)
        elif b == 3:
            cs[a] = mk(a, origin=(1.0, 0.0))
        elif b == 4:
            cs[a] = mk(a, time=T - 2 * H, time_bounds=[T - 3 * H, T - 2 * H]) if a < 4 else mk(a, time=T, time_bounds=[T - 2 * H, T])
        elif b == 5:
            cs[a] = mk(a, attributes=dict(ATT, mosg__model_configuration="x"))
        elif b in (7, 8):
            cs[a] = mk(a, time=T - 3 * H + (1 if b == 7 else -H))
        elif b == 9:  # the same time, but a period that is not three hours
            t0 = T - [1, 2, 4, 6][a] * H
            cs = [mk(k, time=t0) for k in range(4)] + [mk(4, time=T, time_bounds=[t0, T])]
        else:
            cs[a] = mk(a, name="other")
        expect(raises(lambda: LightningMultivariateProbability_USAF2024().process(CubeList(cs), model_id_attr=MID)), "missing and unmatched inputs and units are refused", got=case)
        cov.step()
        return "refused"
    mid = z[1]
    cs = [mk(k, U[k][a >> (k // 3) & 1] if len(U[k]) > 1 else None) for k in range(5)]
    cs = cs[b:] + cs[:b]
    with cubes.Unchanged(*cs):
        r = LightningMultivariateProbability_USAF2024().process(CubeList(cs), model_id_attr=MID if mid else None)
    cov.step()
    expect_close(r.data, W, "the formula of each regime", rtol=2e-4, atol=2e-5)
    expect((r.data >= 0).all() and (r.data <= 0.95).all(), "between 0 and 0.95")
    expect(r.name() == "probability_of_number_of_lightning_flashes_per_unit_area_in_vicinity_above_threshold" and str(r.units) == "1" and r.attributes == want_att(mid) and r.data.dtype == f, "description", got=(r.name(), r.attributes))
    lightning_coord(r)
    v = r.coord("radius_of_vicinity")
    expect(v.points.tolist() == [20000.0] and str(v.units) == "m", "vicinity", got=v)
    expect(r.coord("time").bounds.tolist() == [[T - 3 * H, T]], "period", got=r.coord("time").bounds)
    return "usaf"


# ------------------------------------------------------------ nowcast
FG, LR, P05, P7, P35 = [0.0, 0.1, 0.24, 0.25, 0.8, 1.0], [-1.0, 0.0, 0.4, 0.5, 0.51, 1.2, 2.0, 3.0], [0.0, 0.02, 0.05, 0.08, 0.1, 0.7], [0.0, 0.39, 0.4, 0.41], [0.0, 0.19, 0.2, 0.21]
ICE = [0.0, 0.3, 1.0]


def nowcast_value(fg, lr, mins, p05, p7, p35, ice=None):
    p = fg
    if lr >= 0 and p < 0.25:
        p = 0.25
    if lr >= 0.5 + mins * 2.0 / 360 and p < 1:
        p = 1.0
    if p7 >= 0.4 and p < 0.25:
        p = 0.25
    if p35 >= 0.2 and p < 1:
        p = 1.0
    if p05 < 0.05:
        m = 0.0067 + (0.25 - 0.0067) * max(p05, 0) / 0.05
    else:
        m = 0.25 + 0.75 * min((p05 - 0.05) / 0.05, 1)
    p = min(p, m)
    if ice is not None:
        for q, top in zip(ice, (0.1, 0.5, 0.9)):
            s = top * (1 - mins / 150.0)
            if s > 0:
                p = max(p, min(max(q, 0), 1) * s)
    return p


def c_now(tier):
    for mins in ((0,), (15,), (60,), (140,), (165,), (240,), (360,)):
        for ice in (0, 1, 2):
            for u in range(3):
                for fgt in (0,) if ice else (0, 1, 2, -2):
                    yield ("nowcast", list(mins), ice, [u, fgt])
    for k in range(10):
        yield ("bad", k, 0, 0)
    yield ("smooth", 0, 0, 0)


def now(case, cov):
    import warnings
    import cubes
    import numpy as np
    from improver.nowcasting.lightning import NowcastLightning
    from iris.cube import CubeList

    kind, a, ice, z = case
    f = np.float32
    T = cubes.T0
    combos = list(itertools.product(FG, LR, P05, P7, P35))
    ny = 36
    mins = a if kind == "nowcast" else [0]
    u, fgt = z if kind == "nowcast" else (0, 0)
    k = np.array([[x[i] for x in combos] for i in range(5)]).reshape(5, ny, -1)
    if kind == "smooth":
        k = np.zeros((5, 31, 31))
        k[0, 15, 15] = 1.0
        k[1] = -1.0
        k[2] = 1.0
        ny = 31
    nx = k.shape[2]
    order = [np.roll(np.arange(ny * nx), 7 * t).reshape(ny, nx) for t in range(len(mins))]
    fields = [[q.reshape(-1)[o] for q in k] for o in order]
    iu = "g m-2" if u == 1 else "kg m-2"
    iv = np.array(list(itertools.product(ICE, repeat=3)))[np.arange(ny * nx) * 5 % 27].reshape(ny, nx, 3)
    times = [T + m * 60 for m in mins]

    def series(vals, name, units="1", t=times, extra=(), frt=T, **kw):
        """vals[t] arrays [.., y, x]"""
        vals = [np.asarray(v) for v in vals]
        if len(t) == 1:
            return cubes.grid(vals[0].astype(f), name=name, units=units, leading=list(extra), time=t[0], frt=frt, attributes=ATT, **kw)
        return cubes.grid(np.stack(vals, axis=len(extra)).astype(f), name=name, units=units, leading=list(extra) + [("time", t, cubes.EPOCH)], frt=frt, attributes=ATT, **kw)

    tu = "m s-1" if u == 1 else "mm h-1"
    th = [x / (3.6e6 if u == 1 else 1) for x in (0.5, 7.0, 35.0)]

    def precip(t=times, th=th, fs=fields):
        return series([np.stack([q[2], q[3], q[4]][: len(th)]) for q in fs], "probability_of_lwe_precipitation_rate_above_threshold", t=t, extra=[("lwe_precipitation_rate", th, tu, f, {"spp__relative_to_threshold": "greater_than"}, True)])

    fg = series([q[0] for q in fields], "probability_of_rate_of_lightning_above_threshold", t=[x + 3600 * fgt for x in times])
    rate = series([q[1] / (60 if u == 2 else 1) for q in fields], "rate_of_lightning", "s-1" if u == 2 else "min-1")
    pr = precip()
    ic = cubes.grid(np.moveaxis(iv, 2, 0).astype(f), name="probability_of_vertical_integral_of_ice_above_threshold", units="1", leading=[("vertical_integral_of_ice", [x * (1000 if u == 1 else 1) for x in (0.5, 1.0, 2.0)], iu, f, {"spp__relative_to_threshold": "greater_than"}, True)], time=T, attributes=ATT)
    cl = [fg, rate, pr] + ([ic] if ice else [])
    if kind == "bad":
        late = [x + 7300 for x in times]
        L = [[fg, rate], [fg, pr], [rate, pr], [series([q[0] for q in fields], fg.name(), t=late), rate, pr], [fg, series([q[1] for q in fields], "rate_of_lightning", "min-1", t=[T + 60]), pr], [fg, rate, precip(th=th[:2])],
             [fg, rate, precip(th=[0.4, 7.0, 35.0])], [fg, rate, precip(th=[0.5, 7.0, 30.0])], [fg, rate, pr, ic[:2]], [fg, fg.copy(), rate, pr]][a]
        expect(raises(lambda: NowcastLightning().process(CubeList(L))), "missing cubes, times and thresholds are refused", got=a)
        cov.step()
        return "refused"
    if ice == 2:
        cl = cl[::-1]
    before = [cubes.describe(q) for q in cl]
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        r = NowcastLightning().process(CubeList(cl))
    cov.step()
    for q, b in zip(cl, before):
        cubes.expect_cube(q, b, "inputs unchanged")
    if kind == "smooth":
        expect(0 < r.data[15, 16] < 1, "the probability is smoothed over the radius", key="nowcast:smoothing", got=r.data[14:17, 14:17])
        return "smooth"
    w = []
    for m, q in zip(mins, fields):
        w.append(np.array([nowcast_value(*[float(f(x)) for x in (q[0].flat[i], q[1].flat[i])], m, *[float(f(x.flat[i])) for x in q[2:]], iv.reshape(-1, 3)[i] if ice else None) for i in range(ny * nx)]).reshape(ny, nx))
    w = np.stack(w)
    g = cubes.arr(r, *(["time"] if len(mins) > 1 else []), Y, X).reshape(w.shape)
    if u == 2:
        bad = np.stack([np.isin(q[1], [0.0, 0.5]) for q in fields])
        g, w = g[~bad], w[~bad]
    expect_close(g, w, "first guess raised by lightning, limited and raised by precipitation, raised by ice", rtol=2e-5, atol=2e-6)
    expect(r.name() == "probability_of_rate_of_lightning_above_threshold" and str(r.units) == "1" and not [c for c in r.coords() if c.var_name == "threshold"], "description", got=r.name())
    t = r.coord("time").points.tolist()
    fp = r.coord("forecast_period").copy()
    fp.convert_units("minutes")
    expect(t == times and np.allclose(fp.points, mins), "times", (times, mins), (t, fp.points))
    return "nowcast"


# ------------------------------------------------------------ feels like
TT, WW, RR, PP = [-40.0, -5.0, 9.0, 10.0, 12.5, 15.0, 19.0, 20.0, 21.0, 45.0], [0.0, 1.0, 1.34, 1.35, 3.0, 20.0], [0.0, 0.3, 0.7, 1.0], [60000.0, 101325.0]


def feels(t, w, rh, p):
    kmh = max(w * 3.6, 4.824) ** 0.16
    chill = 13.12 + 0.6215 * t - 11.37 * kmh + 0.3965 * t * kmh
    app = -2.7 + 1.04 * t + 2.0 * 0.001 * P38.svp(t + 273.15, p) * rh - 0.65 * w
    a = min(max((t - 10) / 10, 0), 1)
    return a * app + (1 - a) * chill


def c_feels(tier):
    for u in range(6):
        for lead in ("", "r", "rt"):
            for mid in (False, True):
                yield ("feels", u, lead, mid)
    for k in range(4):
        yield ("bad", k, 0, 0)


def feel(case, cov):
    import cubes
    import numpy as np
    from improver.feels_like_temperature import calculate_feels_like_temperature as F

    kind, a, lead, mid = case
    f = np.float32
    combos = list(itertools.product(TT, WW, RR, PP))
    V = [np.array([c[k] for c in combos]).reshape(20, -1) for k in range(4)]
    N = ["air_temperature", "wind_speed", "relative_humidity", "surface_air_pressure"]
    U = [["degC", "m s-1", "1", "Pa"], ["K", "m s-1", "1", "Pa"], ["degC", "km h-1", "1", "hPa"], ["degF", "m s-1", "%", "Pa"], ["K", "knots", "%", "hPa"], ["degC", "m s-1", "1", "Pa"]][a if kind == "feels" else 0]
    W = np.array([feels(*c) for c in combos]).reshape(20, -1)

    def back(v, u):
        from cf_units import Unit

        base = {"degC": "degC", "K": "degC", "degF": "degC", "m s-1": "m s-1", "km h-1": "m s-1", "knots": "m s-1", "1": "1", "%": "1", "Pa": "Pa", "hPa": "Pa"}[u]
        return Unit(base).convert(v, u)

    L = lead if kind == "feels" else ""
    spec = {"r": ("realization", [0, 1], "1"), "t": ("time", [cubes.T0 + H, cubes.T0 + 2 * H, cubes.T0 + 3 * H], cubes.EPOCH)}

    def layers(v):
        for l in L[::-1]:
            v = np.stack([np.roll(v, i * 3, axis=-1) for i in range(len(spec[l][1]))])
        return v

    def mk(k, att=ATT, un=None):
        kw = dict(time=None) if "t" in L else {}
        return cubes.grid(back(layers(V[k]), un or U[k]).astype(f), name=N[k], units=un or U[k], leading=[spec[l] for l in L], attributes=att, **kw)

    cs = [mk(k) for k in range(4)]
    if kind == "bad":
        if a < 2:
            q = list(cs)
            q[a] = mk(a, dict(ATT, mosg__model_configuration="x"))
            expect(raises(lambda: F(*q, model_id_attr=MID)), "models that differ are refused", got=a)
        else:
            q = list(cs)
            q[a - 1] = cs[3 if a == 2 else 0]
            expect(raises(lambda: F(*q)), "other quantities are refused", got=a)
        cov.step()
        return "refused"
    if a == 5:
        cs[3] = mk(3, {"title": "other"})
    with cubes.Unchanged(*cs):
        r = F(*cs, model_id_attr=None if a == 5 or not mid else MID)
    cov.step()
    expect_close(r.data, back(layers(W), U[0]), "feels like temperature", rtol=2e-5, atol=2e-3)
    expect(r.name() == "feels_like_temperature" and str(r.units) == str(cs[0].units) and r.data.dtype == f, "description", got=(r.name(), r.units, r.data.dtype))
    w = {"title": "unknown", "source": "IMPROVER", "institution": "unknown"} if a == 5 else want_att(mid)
    expect(r.attributes == w, "attributes", w, r.attributes)
    expect([c.name() for c in r.coords()] == [c.name() for c in cs[0].coords()], "coordinates of the temperature", got=[c.name() for c in r.coords()])
    return "feels"


SECTIONS = [Section("cape", c_cape, cape), Section("multivariate", c_multi, multi), Section("nowcast", c_now, now), Section("feelslike", c_feels, feel)]

if __name__ == "__main__":
    main(globals())
