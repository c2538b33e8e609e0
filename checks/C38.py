"""C38: psychrometrics: saturation, wet bulb, condensation level, cloud top, phase change levels and masks."""
import itertools
import math

from mc import Section, Violation, expect, expect_close, expect_same, main, raises

PROPERTY = "C38"
H = 3600
ATT = {"title": "T", "source": "S", "institution": "I", "mosg__model_configuration": "uk_det"}
T3 = 273.16
EPS, R, CP, CV, RV = 0.62198, 287.0, 1005.0, 1850.0, 461.6


# ------------------------------------------------------------ reference formulae (double precision)
def gg(t):
    """Goff-Gratch saturation vapour pressure in Pa."""
    if t > T3:
        l = 10.79574 * (1 - T3 / t) - 5.028 * math.log10(t / T3) + 1.50475e-4 * (1 - 10 ** (-8.2969 * (t / T3 - 1))) + 4.2873e-4 * (10 ** (4.76955 * (1 - T3 / t)) - 1) + 0.78614
    else:
        l = -9.09685 * (T3 / t - 1) - 3.56654 * math.log10(T3 / t) + 0.87682 * (1 - t / T3) + 0.78614
    return 100 * 10 ** l


def svp(t, p):
    t2 = min(max(t, 183.15), 338.15)
    c = t - 273.15
    return gg(t2) * (1 + 1e-8 * p * (4.5 + 6e-4 * c * c))


def qsat(t, p):
    e = svp(t, p)
    return EPS * e / (max(e, p) - (1 - EPS) * e)


def lat(t):
    return 2.501e6 - 2.34e3 * (t - 273.15)


def dry(t, p, p2):
    return t * (p2 / p) ** (R / CP)


def bisect(f, lo, hi, n=100):
    a = f(lo)
    for _ in range(n):
        m = (lo + hi) / 2
        if (f(m) > 0) == (a > 0):
            lo = m
        else:
            hi = m
    return (lo + hi) / 2


def wet_bulb(t, rh, p):
    q = rh * qsat(t, p)
    c = (1 - q) * CP + q * CV
    L = lat(t)
    return bisect(lambda w: L * qsat(w, p) + c * w - (L * q + c * t), t - 80, t + 1e-9)


def ccl(t, rh, p):
    q = rh * qsat(t, p)
    p2 = p if rh >= 1 else bisect(lambda x: qsat(dry(t, p, x), x) - q, 1e3, p)
    return p2, dry(t, p, p2)


def saturated(t, q, p):
    """Temperature and humidity after condensing what is in excess."""
    if q <= qsat(t, p):
        return t, q
    L = lat(t) / CP
    s = bisect(lambda x: qsat(t + L * (q - x), p) - x, 0.0, q)
    return t + L * (q - s), s


# ------------------------------------------------------------ saturation and adiabats
def c_basic(tier):
    st = 0.5 if tier == "thorough" else 2.0
    for p in (5e4, 1e5, 2e4, 1.08e5, 300.0):
        for k in range(int(190 / st)):
            yield ("svp", 160.0 + st * k, p)
    for t in range(220, 320, 10):
        for p in (3e4, 8e4, 1.02e5):
            yield ("dry", float(t), p)
    for lo, hi, inc in ((183.15, 338.25, 0.1), (200.0, 210.0, 1.0), (273.0, 274.0, 0.05), (170.0, 375.0, 5.0), (253.15, 253.35, 0.1)):
        yield ("table", lo, [hi, inc])
    for t in range(250, 320, 5):
        for p in (3e4, 6e4, 1e5):
            for r in (0.2, 0.9, 1.0, 1.02, 1.3, 2.0):
                yield ("latent", float(t), [p, r])
    for u in range(3):
        for rh in (0.0, 0.4, 1.0):
            for mid in (False, True):
                yield ("ratio", u, [rh, mid])


def basic(case, cov):
    import warnings
    import cubes
    import numpy as np
    from improver.psychrometric_calculations import psychrometric_calculations as P
    from iris.cube import CubeList

    kind, a, b = case
    f = np.float32
    if kind == "svp":
        ts = np.array([a, a + 0.03, a + 0.07, a + 0.1], f)
        ps = np.full(4, b, f)
        got, q = P.calculate_svp_in_air(ts, ps), P.saturated_humidity(ts, ps)
        expect_close(got, [svp(float(t), b) for t in ts], "saturation vapour pressure", rtol=5e-4)
        expect_close(q, [qsat(float(t), b) for t in ts], "saturation humidity", rtol=2e-3 if b < 1000 else 1e-3)
        expect(q.dtype == f and (q >= 0).all() and (q <= 1 + 1e-6).all(), "a mixing ratio is between 0 and 1", got=q)
        cov.step(2)
        return "svp"
    if kind == "dry":
        t, p = np.full(5, a, f), np.full(5, b, f)
        p2 = (np.array([0.3, 0.7, 1.0, 1.1, 1.3]) * b).astype(f)
        g = P.dry_adiabatic_temperature(t, p, p2)
        expect_close(g, [dry(a, b, float(x)) for x in p2], "temperature along a dry adiabat", rtol=1e-5)
        expect_close(P.dry_adiabatic_pressure(t, p, g), p2, "pressure along a dry adiabat is the inverse", rtol=5e-5)
        cov.step(2)
        return "dry"
    if kind == "table":
        from improver.generate_ancillaries.generate_svp_table import SaturatedVapourPressureTable

        hi, inc = b
        with warnings.catch_warnings(record=True) as ws:
            warnings.simplefilter("always")
            r = SaturatedVapourPressureTable(a, hi, inc).process()
        cov.step()
        n = int(round((hi - a) / inc)) + 1
        ts = [a + i * inc for i in range(n)]
        expect_close(r.coord("air_temperature").points, ts, "temperatures of the table", rtol=1e-9)
        expect_close(r.data, [gg(t) for t in ts], "entries of the table", rtol=1e-5)
        expect(str(r.units) == "Pa" and r.name() == "saturated_vapour_pressure" and r.attributes == {"minimum_temperature": a, "maximum_temperature": hi, "temperature_increment": inc}, "description", got=r.attributes)
        expect(any("out of SVP table range" in str(w.message) for w in ws) == (a < 173 or hi > 373), "temperatures out of range are reported", got=len(ws))
        return "table"
    if kind == "latent":
        p, r = b
        ts = np.array([a, a + 1, a - 2], f)
        q = np.array([r * qsat(float(t), p) for t in ts], f)
        k = (ts.copy(), q.copy())
        t2, q2 = P.adjust_for_latent_heat(ts, q, np.full(3, p, f))
        cov.step()
        w = [saturated(float(t), float(x), p) for t, x in zip(ts, q)]
        expect_close(t2, [x[0] for x in w], "temperature after condensation", atol=0.02 + 0.01 * max(x[0] - t for x, t in zip(w, ts)))
        expect_close(q2, [x[1] for x in w], "humidity after condensation", rtol=5e-3, atol=1e-6)
        expect((t2 >= ts - 1e-4).all() and (q2 <= q * (1 + 1e-4)).all(), "condensation warms and dries", got=(t2, q2))
        expect((k[0] == ts).all() and (k[1] == q).all(), "inputs are not changed", got=ts)
        rs = [0.5, 1.0, 1.05, 1.5, 3.0]
        tl = np.array([230 + 5.5 * (i % 13) for i in range(130)], f)
        pl_ = np.array([p + 1e3 * (i % 7) for i in range(130)], f)
        ql = np.array([rs[i % 5] * qsat(float(x), float(y)) for i, (x, y) in enumerate(zip(tl, pl_))], f)
        if r == 1.0:
            t2, q2 = P.adjust_for_latent_heat(tl.reshape(10, 13), ql.reshape(10, 13), pl_.reshape(10, 13))
            w = [saturated(float(x), float(z), float(y)) for x, z, y in zip(tl, ql, pl_)]
            expect_close(t2.ravel(), [x[0] for x in w], "temperature after condensation, large array", rtol=3e-3)
            expect_close(q2.ravel(), [x[1] for x in w], "humidity after condensation, large array", rtol=1e-2, atol=1e-6)
        return "latent"
    rh, mid = b
    d = np.array([[270, 280, 290], [300, 250, 310]], f)
    kw = dict(attributes=ATT, scalars=[("height", 1.5, "m")])
    t, p, h = cubes.grid(d, name="air_temperature", units="K", **kw), cubes.grid(np.full((2, 3), 9e4, f), name="surface_air_pressure", units="Pa", attributes=ATT), cubes.grid(np.full((2, 3), rh, f), name="relative_humidity", units="1", **kw)
    cl = [CubeList([t, p, h]), [h, t, p], [p, h, t]][a]
    pl = P.HumidityMixingRatio(model_id_attr="mosg__model_configuration" if mid else None)
    with cubes.Unchanged(t, p, h):
        r = pl.process(*cl) if a else pl.process(cl)
    cov.step()
    expect_close(r.data, [[rh * qsat(float(x), 9e4) for x in row] for row in d], "humidity mixing ratio", rtol=1e-3, atol=1e-9)
    want = {k: v for k, v in ATT.items() if mid or not k.startswith("mosg")}
    expect(r.name() == "humidity_mixing_ratio" and str(r.units) == "kg kg-1" and r.attributes == want, "description", got=(r.attributes, str(r.units)))
    return "ratio"


# ------------------------------------------------------------ wet bulb temperature
RHS = [0.0, 0.05, 0.2, 0.5, 0.8, 0.95, 1.0]


def c_wet(tier):
    for t in range(205, 326, 2 if tier == "thorough" else 5):
        for p in (30000.0, 70000.0, 100000.0, 105000.0):
            yield ("point", float(t), p, 0.005)
    for pr in (0.005, 0.05, 1.0):
        yield ("point", 290.0, 9e4, pr)
    for order in range(6):
        for u in range(4):
            for lead in ("", "r", "h", "rh", "hr", "q", "p", "1"):
                yield ("cube", order, u, lead)
    for k in range(3):
        yield ("bad", k, 0, 0)


def wet(case, cov):
    import cubes
    import numpy as np
    from improver.psychrometric_calculations.wet_bulb_temperature import WetBulbTemperature

    kind, a, b, c_ = case
    f = np.float32
    kw = dict(attributes=ATT)

    def three(T, RH, P, lead=(), units=("K", "1", "Pa")):
        return [cubes.grid(v.astype(f), name=n, units=u, leading=lead, **kw) for v, n, u in zip((T, RH, P), ("air_temperature", "relative_humidity", "air_pressure"), units)]

    if kind == "point":
        T = np.array([[a + d for _ in RHS] for d in (0.0, 0.7, 3.0)])
        RH = np.array([RHS] * 3)
        cl = three(T, RH, np.full(T.shape, b))
        with cubes.Unchanged(*cl):
            r = WetBulbTemperature(precision=c_).process(*cl)
        cov.step()
        g = r.data
        w = np.array([[wet_bulb(float(f(t)), float(f(h)), b) for t, h in zip(x, y)] for x, y in zip(T, RH)])
        expect_close(g, w, "wet bulb temperature", atol=1.2 * c_ + 0.003)
        expect((g <= T + 1e-3).all(), "never above the temperature", got=g - T)
        expect_close(g[:, -1], T[:, -1], "saturated air", atol=1e-3)
        expect((np.diff(g, axis=1) >= -2 * c_).all(), "grows with humidity", got=g)
        one = WetBulbTemperature(precision=c_).process(*[q[1:2, 2:3] for q in cl])
        expect_close(one.data[0, 0], g[1, 2], "a point does not depend on others", atol=1e-4)
        return "point"
    if kind == "bad":
        cl = three(np.full((2, 2), 280.0), np.full((2, 2), 0.5), np.full((2, 2), 9e4))
        if a == 0:
            e = raises(WetBulbTemperature().process, *cl[:2])
        elif a == 1:
            e = raises(WetBulbTemperature().process, *(cl + [cl[0].copy()]))
        else:
            z = np.full((2, 2, 2), 0.5)
            L1, L2 = [("height", [10.0, 20.0], "m", f, {"positive": "up"})], [("pressure", [9e4, 8e4], "Pa")]
            e = raises(WetBulbTemperature().process, three(z, z, z, L1)[0], three(z, z, z, L1)[1], three(z, z, z, L2)[2])
        cov.step()
        expect(isinstance(e, ValueError), "must be refused", got=e)
        return "refused"
    L = {"r": ("realization", [0, 1], "1"), "h": ("height", [10.0, 20.0, 50.0], "m", np.float32, {"positive": "up"}), "q": ("height", [10.0, 20.0, 50.0], "m"), "p": ("pressure", [8e4, 9e4], "Pa"), "1": ("height", [10.0], "m", np.float32, {"positive": "up"})}
    lead = [L[q] for q in c_]
    n = tuple(len(q[1]) for q in lead) + (2, 2)
    m = int(np.prod(n))
    T = (270 + (np.arange(m) * 7 % 31)).reshape(n).astype(float)
    RH = ((np.arange(m) * 5 % 11) / 10).reshape(n)
    P = (1e5 - (np.arange(m) * 3 % 7) * 5e3).reshape(n)
    us = [("K", "1", "Pa"), ("celsius", "%", "hPa"), ("K", "%", "Pa"), ("fahrenheit", "1", "hPa")][b]
    conv = {"K": lambda v: v, "celsius": lambda v: v - 273.15, "fahrenheit": lambda v: v * 1.8 - 459.67, "1": lambda v: v, "%": lambda v: v * 100, "Pa": lambda v: v, "hPa": lambda v: v / 100}
    cl = three(conv[us[0]](T), conv[us[1]](RH), conv[us[2]](P), lead, us)
    arg = [cl[i] for i in list(itertools.permutations(range(3)))[a]]
    pl = WetBulbTemperature(model_id_attr="mosg__model_configuration" if a % 2 else None)
    with cubes.Unchanged(*cl):
        r = pl.process(*arg)
    cov.step()
    w = np.array([wet_bulb(t, h, p) for t, h, p in zip(T.ravel(), RH.ravel(), P.ravel())]).reshape(n)
    want = cl[0].copy()
    want.units = "K"
    want.rename("wet_bulb_temperature")
    want.attributes = {k: v for k, v in ATT.items() if a % 2 or not k.startswith("mosg")}
    cubes.expect_cube(r, cubes.describe(want), "description", ignore=("data", "dtype"))
    expect_close(r.data, w, "wet bulb temperature", atol=0.01)
    expect(r.dtype == f, "type", got=r.dtype)
    return "cube"


# ------------------------------------------------------------ condensation level and cloud top
def c_cloud(tier):
    for t in range(250, 321, 2 if tier == "thorough" else 5):
        for p in (48000.0, 70000.0, 90000.0, 101325.0, 105000.0):
            yield ("ccl", float(t), p, 0)
    for k in range(4):
        yield ("meta", 280.0, 9e4, k)
    for t in (270.0, 280.0, 290.0, 296.0):
        for pc in (70000.0, 85000.0, 95000.0):
            for masked in (False, True):
                for u in (0, 1):
                    yield ("top", t, pc, [masked, u])


def cloud(case, cov):
    import cubes
    import numpy as np
    from improver.psychrometric_calculations.cloud_condensation_level import CloudCondensationLevel, MetaCloudCondensationLevel
    from improver.psychrometric_calculations.cloud_top_temperature import CloudTopTemperature

    kind, a, b, c_ = case
    f = np.float32
    if kind in ("ccl", "meta"):
        rh = [0.1, 0.3, 0.6, 0.9, 0.97, 1.0]
        T = np.array([[a + d] * 6 for d in (0.0, 1.3)], f)
        RH = np.array([rh] * 2, f)
        P = np.full(T.shape, b, f)
        kw = dict(attributes=ATT, scalars=[("height", 1.5, "m")])
        t, p = cubes.grid(T, name="air_temperature", units="K", **kw), cubes.grid(P, name="surface_air_pressure", units="Pa", attributes=ATT)
        mid = "mosg__model_configuration" if c_ % 2 else None
        if kind == "ccl":
            q = cubes.grid(np.array([[x * qsat(float(y), b) for x, y in zip(r, s)] for r, s in zip(RH, T)], f), name="humidity_mixing_ratio", units="kg kg-1", **kw)
            pl, args = CloudCondensationLevel(model_id_attr=mid), [t, p, q]
        else:
            q = cubes.grid(RH, name="relative_humidity", units="1", **kw)
            pl, args = MetaCloudCondensationLevel(model_id_attr=mid), [[t, p, q], [q, t, p]][c_ // 2]
        with cubes.Unchanged(t, p, q):
            tc, pc = pl.process(*args)
        cov.step()
        w = np.array([[ccl(float(x), float(h), b) for x, h in zip(r, s)] for r, s in zip(T, RH)])
        # the search stops once a step is below 100 Pa
        expect_close(pc.data, w[..., 0], "pressure where the air saturates", atol=150, rtol=3e-3)
        expect_close(tc.data, dry(T.astype(float), b, pc.data.astype(float)), "temperature on the dry adiabat at that pressure", rtol=1e-5)
        for r, n, u in ((tc, "air_temperature_at_condensation_level", "K"), (pc, "air_pressure_at_condensation_level", "Pa")):
            want = t.copy()
            want.remove_coord("height")
            want.rename(n)
            want.units = u
            want.attributes = {k: v for k, v in ATT.items() if mid or not k.startswith("mosg")}
            if kind == "meta":
                r.attributes["title"] = r.attributes["title"].replace("Post-Processed ", "")
            cubes.expect_cube(r, cubes.describe(want), "description", ignore=("data",))
        return kind
    masked, u = c_
    levels = [100000.0, 90000.0, 80000.0, 70000.0, 60000.0, 50000.0, 40000.0, 30000.0, 20000.0]
    # environments: how far the air at each level is from the rising parcel

    def path(a, b):
        return [saturated(dry(a, b, p), qsat(a, b), p)[0] for p in levels]

    # condensation levels from which the parcel cools by a little less and a little more than 4 K up to some level
    near = [bisect(lambda x: a - saturated(dry(a, x, 60000.0), qsat(a, x), 60000.0)[0] - d, 60000.0, 105000.0) for d in (3.7, 4.2)]
    base = [(a, b), (a, b), (a - 5.0, b - 17000.0), (a + 3.0, min(b + 12000.0, 104000.0))]
    par, cols = [], []
    for cut in range(10):
        for j, dt in enumerate((1.0, 3.0)):
            par.append(base[(cut + 2 * j) % 4])
            cols.append([x - dt if i < cut else x + dt for i, x in enumerate(path(*par[-1]))])
    par += [(a, b), (a, near[0]), (a, near[1])]
    cols.append([x - 2 if i != 5 else x + 2 for i, x in enumerate(path(a, b))])
    for x in near:
        cols.append([y - 2 if i < 5 else y + 2 for i, y in enumerate(path(a, x))])
    # air below the cloud base that is warmer than the parcel does not matter
    par.append((a - 5.0, b - 17000.0))
    cols.append([y + 2 if q >= par[-1][1] or q < 35000.0 else y - 2 for q, y in zip(levels, path(*par[-1]))])
    cols, par = (cols + cols[:1] * 24)[:24], (par + par[:1] * 24)[:24]
    env = np.array(cols, f).T.reshape(9, 4, 6)
    tt, pp = np.array([x[0] for x in par], f).reshape(4, 6), np.array([x[1] for x in par], f).reshape(4, 6)
    if masked:
        m = np.arange(24).reshape(4, 6) % 5 == 2
        tt, pp = np.ma.masked_array(tt, m), np.ma.masked_array(pp, m)
    t = cubes.grid(tt - (273.15 if u else 0), name="air_temperature_at_condensation_level", units="celsius" if u else "K", attributes=ATT)
    p = cubes.grid(pp / (100 if u else 1), name="air_pressure_at_condensation_level", units="hPa" if u else "Pa", attributes=ATT)
    t.data, p.data = t.data.astype(f), p.data.astype(f)
    e = cubes.grid(env - f(273.15 if u else 0), name="air_temperature", units="celsius" if u else "K", leading=[("pressure", levels, "Pa")], attributes=ATT)
    # a test of the repository requires the units of the cubes passed to be converted
    with cubes.Unchanged(*([] if u else [t, p, e])):
        r = CloudTopTemperature().process(*[[t, p, e], [e, p, t]][u])
    cov.step()
    got, gm = np.ma.getdata(r.data).ravel(), np.ma.getmaskarray(r.data).ravel()
    for k, col in enumerate(cols):
        if masked and (k % 5 == 2):
            continue
        top = None
        for q, x, y in zip(levels, path(*par[k]), col):
            if x < y and q < par[k][1]:
                break
            top = x
        none = top is None or par[k][0] - top < 4
        if top is not None and abs(par[k][0] - top - 4) < 0.1:
            continue
        expect(bool(gm[k]) == none, "no cloud where the parcel rises less than 4 K", expected=(none, top), got=got[k])
        if not none:
            expect(abs(got[k] - top) < 0.3, "temperature of the parcel at the last level where it is buoyant", expected=top, got=got[k])
    expect(r.name() == "air_temperature_at_convective_cloud_top" and str(r.units) == "K" and r.dtype == f, "description", got=(r.name(), r.dtype))
    if not u and not masked:  # each column by itself
        for i, j in np.ndindex(4, 6):
            one = CloudTopTemperature().process(t[i : i + 1, j : j + 1], p[i : i + 1, j : j + 1], e[:, i : i + 1, j : j + 1])
            k = i * 6 + j
            same = np.ma.getmaskarray(one.data)[0, 0] == gm[k] and (gm[k] or abs(np.ma.getdata(one.data)[0, 0] - got[k]) < 0.01)
            expect(same, "one column by itself gives what it gives among others", got=one.data.tolist(), expected=r.data.ravel()[k])
        cov.step(24)
    return "top"


# ------------------------------------------------------------ phase change levels
HT = [10.0, 60.0, 100.0, 300.0, 700.0, 1500.0]
PH = {"snow-sleet": (90.0, "altitude_of_snow_falling_level"), "sleet-rain": (202.5, "altitude_of_rain_falling_level"), "hail-rain": (5000.0, "altitude_of_rain_from_hail_falling_level")}
SHAPES = [
    [1.0, 0.8, 0.6, 0.3, 0.1, 0.0],
    [1.3, 1.2, 1.1, 1.0, 0.7, 0.2],
    [0.7, 0.5, 0.5, 0.2, 0.0, 0.0],
    [3.0, 2.8, 2.6, 2.4, 2.2, 1.9],
    [0.0, 0.0, 0.0, 0.0, 0.0, 0.0],
    [0.2, 0.1, 0.0, 0.0, 0.0, 0.0],
]
WBT = [[2.0, 1.5, 1.2, 0.0, -3.0, -9.0], [-1.0, -1.4, -2.0, -3.0, -6.0, -10.0], [1.0, 2.0, 3.0, 3.5, 4.0, 1.0], [0.4, 0.3, 0.3, 0.2, 0.1, 0.0], [-0.2, -0.3, -0.35, -0.4, -0.45, -1.0], [5.0, 4.0, 4.0, 4.0, -9.0, -20.0]]


def c_phase(tier):
    for ph in PH:
        for bnd in (False, True):
            for asc in (False, True):
                for lead in ("", "r"):
                    for u in (0, 1):
                        yield ("columns", ph, [bnd, asc], [lead, u])
    for ph in PH:
        for k in range(16 if tier == "thorough" else 6):
            for rad in (0, 1, 2):
                yield ("interp", ph, [k, rad], 0)
    for ob in range(3):
        for rad in (0, 1):
            for hi in range(8):
                yield ("pattern", "snow-sleet", [hi, rad], ob)
    for k in range(4):
        yield ("bad", "snow-sleet", [k], 0)


def level(W, hs, orog, land, top, T, thr):
    """W, T: over hs (ascending)."""
    import numpy as np

    if any(abs(w - thr) < 1e-3 for w in W):
        return "any"
    for i in range(len(hs) - 1):
        if W[i] > thr > W[i + 1]:
            return orog + hs[i] + (W[i] - thr) / (W[i] - W[i + 1]) * (hs[i + 1] - hs[i])
    if max(W) > thr:
        return top + orog
    if land:
        return None
    a, b = np.polyfit(hs[:5], T[:5], 1)
    if a >= 0:
        return None
    need = thr - max(W)
    if b >= 0:
        z = (b - math.sqrt(b * b - 2 * a * need)) / -a
    else:
        z = -b / a - math.sqrt(2 * need / -a)
    return max(z, -2000.0) + orog


def phase(case, cov):
    import cubes
    import numpy as np
    from improver.psychrometric_calculations.psychrometric_calculations import PhaseChangeLevel
    from improver.utilities.interpolation import interpolate_missing_data

    kind, ph, x, y = case
    thr, name = PH[ph]
    f = np.float32
    if kind == "bad":
        if x[0] == 0:
            e = raises(PhaseChangeLevel, "rain-snow")
        else:
            z = np.zeros((6, 2, 2), f)
            L = [("height", HT, "m")]
            w, i = cubes.grid(z, name="wet_bulb_temperature", units="celsius", leading=L, attributes=ATT), cubes.grid(z, name="wet_bulb_temperature_integral", units="K m", leading=L, attributes=dict(ATT, mosg__model_configuration="other"))
            o, l = cubes.grid(z[0], name="surface_altitude", units="m"), cubes.grid(z[0], name="land_binary_mask")
            e = [raises(PhaseChangeLevel(ph).process, w, i, o), raises(PhaseChangeLevel(ph, model_id_attr="mosg__model_configuration").process, w, i, o, l), raises(PhaseChangeLevel(ph).process, w, i, o, l, l)][x[0] - 1]
        cov.step()
        expect(isinstance(e, ValueError), "must be refused", got=e)
        return "refused"
    if kind == "pattern":
        return pattern(thr, x[0], x[1], y, cov)
    if kind == "columns":
        bnd, asc = x
        lead, u = y
        combos = [(s, t, l, o) for s in range(6) for t in range(6) for l in (0, 1) for o in (0.0, 320.0)]
        ny, nx = 12, 12
        nr = 2 if lead else 1
    else:
        k, rad = x
        bnd, asc, lead, u = True, False, "", 0
        rs = np.random.RandomState(k)
        combos = [(int(rs.randint(6)), int(rs.randint(6)), int(rs.randint(4) > 0), float(rs.choice([0, 50, 320, 800, 1500]))) for _ in range(36)]
        ny = nx = 6
        nr = 1
    f2 = [1.001, 0.6][:nr]
    W = np.array([[[v * thr * q for v in SHAPES[c[0]]] for c in combos] for q in f2])  # r, point, height
    T = np.array([[[v * q for v in WBT[c[1]]] for c in combos] for q in f2])
    W, T = [np.moveaxis(v, 2, 1).reshape(nr, 6, ny, nx) for v in (W, T)]
    o = np.array([c[3] for c in combos]).reshape(ny, nx)
    l = np.array([c[2] for c in combos]).reshape(ny, nx)
    hs = HT if asc else HT[::-1]
    L = [("height", HT, "m")]
    Lw = [("height", hs, "m")]
    R_ = [("realization", [0, 1], "1")]
    dw = W if asc else W[:, ::-1]
    if not lead:
        wt, wi = cubes.grid((T[0] + (273.15 if u else 0)).astype(f), name="wet_bulb_temperature", units="K" if u else "celsius", leading=L, attributes=ATT), cubes.grid(dw[0].astype(f), name="wet_bulb_temperature_integral", units="K m", leading=Lw, attributes=ATT)
    else:
        wt, wi = cubes.grid((T + (273.15 if u else 0)).astype(f), name="wet_bulb_temperature", units="K" if u else "celsius", leading=R_ + L, attributes=ATT), cubes.grid(dw.astype(f), name="wet_bulb_temperature_integral", units="K m", leading=R_ + Lw, attributes=ATT)
    top = HT[-1]
    if bnd:
        h = wi.coord("height")
        b = [(HT[i], (HT + [2000.0])[i + 1]) for i in range(6)]
        h.bounds = np.array(b if asc else b[::-1], f)
        top = 2000.0
    og, lm = cubes.grid(o.astype(f), name="surface_altitude", units="m"), cubes.grid(l.astype(np.int8), name="land_binary_mask")
    pl = PhaseChangeLevel(ph, grid_point_radius=0 if kind == "columns" else rad, horizontal_interpolation=kind == "interp", model_id_attr="mosg__model_configuration" if asc else None)
    with cubes.Unchanged(wt, wi, og, lm):
        r = pl.process(*[[wt, wi, og, lm], [lm, og, wi, wt]][u])
    cov.step()
    w = np.full((nr, ny, nx), np.nan)
    skip = np.zeros((nr, ny, nx), bool)
    for k in range(nr):
        for j in range(ny):
            for i in range(nx):
                v = level(list(W[k, :, j, i]), HT, o[j, i], l[j, i], top, list(T[k, :, j, i]), thr)
                if v == "any":
                    skip[k, j, i] = True
                elif v is not None:
                    w[k, j, i] = v
    if kind == "interp":
        mx = np.array([[o[max(0, j - rad) : j + rad + 1, max(0, i - rad) : i + rad + 1].max() for i in range(nx)] for j in range(ny)])
        q = w[0].astype(f)
        ok = np.less_equal(q, mx, where=~np.isnan(q), out=np.zeros(q.shape, bool))
        q = interpolate_missing_data(q, limit=o.astype(f), valid_points=ok)
        ok = np.less_equal(q, mx, where=~np.isnan(q), out=np.zeros(q.shape, bool))
        q = interpolate_missing_data(q, method="nearest", limit=o.astype(f), valid_points=ok)
        if np.isnan(q).any():
            q = interpolate_missing_data(q, method="nearest", limit=o.astype(f))
        w = q[None]
    if not lead:
        w, skip = w[0], skip[0]
    expect(r.shape == w.shape and r.name() == name and str(r.units) == "m" and r.dtype == f, "description", got=(r.name(), r.shape, r.dtype))
    want = {k: v for k, v in ATT.items() if asc or not k.startswith("mosg")}
    expect(r.attributes == want, "attributes", got=r.attributes)
    expect([c.name() for c in r.coords(dim_coords=True)] == [c.name() for c in wt.coords(dim_coords=True) if c.name() != "height"] and not r.coords("height"), "dimensions", got=r.shape)
    m = np.ma.getmaskarray(r.data)
    expect((m | skip == np.isnan(w) | skip).all(), "missing only where nothing can be said", expected=np.isnan(w).sum(), got=m.sum())
    g = ~m & ~skip
    expect_close(np.ma.getdata(r.data)[g], w[g], "altitude where the integral reaches the threshold", rtol=1e-4, atol=0.5)
    return kind


OROG = [[[100, 300, 50], [900, 20, 450], [0, 200, 1200]], [[0, 0, 0], [0, 1500, 0], [0, 0, 0]], [[500, 400, 300], [400, 300, 200], [300, 200, 100]]]


def pattern(thr, hi, rad, ob, cov):
    """Every set of points of a 3x3 grid at which nothing can be said from the column (64 of the 512 in each case)."""
    import cubes
    import numpy as np
    from improver.psychrometric_calculations.psychrometric_calculations import PhaseChangeLevel
    from improver.utilities.interpolation import interpolate_missing_data

    f = np.float32
    o = np.array(OROG[ob], f)
    pl = PhaseChangeLevel("snow-sleet", grid_point_radius=rad)
    og, lm = cubes.grid(o, name="surface_altitude", units="m"), cubes.grid(np.ones((3, 3), np.int8), name="land_binary_mask")
    mx = np.array([[o[max(0, j - rad) : j + rad + 1, max(0, i - rad) : i + rad + 1].max() for i in range(3)] for j in range(3)])
    for lo in range(64):
        bits = hi * 64 + lo
        W = np.zeros((6, 3, 3))
        q = np.full((3, 3), np.nan, f)
        for k in range(9):
            j, i = divmod(k, 3)
            s = [0.7, 0.5, 0.5, 0.2, 0.0, 0.0] if bits >> k & 1 else SHAPES[(k * 5 + hi) % 2]
            W[:, j, i] = [v * thr * (1.001 + 0.02 * k) for v in s]
            v = level(list(W[:, j, i]), HT, float(o[j, i]), 1, HT[-1], [-1.0] * 6, thr)
            q[j, i] = np.nan if v is None else v
        L = [("height", HT, "m")]
        wt, wi = cubes.grid(np.full((6, 3, 3), -1, f), name="wet_bulb_temperature", units="celsius", leading=L), cubes.grid(W.astype(f), name="wet_bulb_temperature_integral", units="K m", leading=L)
        r = pl.process(wt, wi, og, lm)
        cov.step()
        for method in ("linear", "nearest"):
            ok = np.less_equal(q, mx, where=~np.isnan(q), out=np.zeros(q.shape, bool))
            q = interpolate_missing_data(q, method=method, limit=o, valid_points=ok)
        if np.isnan(q).any():
            q = interpolate_missing_data(q, method="nearest", limit=o)
        m = np.ma.getmaskarray(r.data)
        expect((m == np.isnan(q)).all(), "missing only where nothing can be said", expected=np.isnan(q).tolist(), got=m.tolist())
        expect_close(np.ma.getdata(r.data)[~m], q[~m], "level interpolated from the points at which it is known", rtol=1e-4, atol=0.5)
    return "pattern"


# ------------------------------------------------------------ phases
def c_masks(tier):
    for ph in ("rain", "sleet", "snow", "hail"):
        for dt in ("float32", "float64"):
            for lead in (False, True):
                yield ("mask", ph, [dt, lead], 0)
    for k in range(5):
        yield ("mask-bad", "rain", [k], 0)
    for q in ("snow", "rain", "rain_from_hail"):
        for src in ("orog", "sites"):
            for un in ("m", "ft", "km"):
                for perc in ([], [20, 50, 80], [80, 20], [50], [20], [80]):
                    yield ("prob", q, [src, un], perc)
    for k in range(4):
        yield ("prob-bad", "snow", [k], 0)


def masks(case, cov):
    import cubes
    import numpy as np
    from improver.psychrometric_calculations.precip_phase_probability import PrecipPhaseProbability
    from improver.psychrometric_calculations.significant_phase_mask import SignificantPhaseMask
    from improver.spotdata.build_spotdata_cube import build_spotdata_cube
    from iris.coords import DimCoord

    kind, a, b, c_ = case
    f = np.float32
    if kind.startswith("mask"):
        v = np.array([[0.0, 0.005, 0.01, 0.0101, 0.5], [0.98, 0.9899, 0.99, 0.995, 1.0]])
        if kind == "mask":
            dt, lead = b
            d = np.stack([v, v[::-1]]) if lead else v
            c = cubes.grid(d.astype(dt), name="snow_fraction", leading=[("realization", [0, 1], "1")] if lead else (), attributes=ATT)
            P = SignificantPhaseMask(model_id_attr="mosg__model_configuration" if lead else None)
            if a == "hail":
                e = raises(P.process, c, a)
                cov.step()
                expect(isinstance(e, KeyError), "an unknown phase must be refused", got=e)
                return "refused"
            with cubes.Unchanged(c):
                r = P.process(c, a)
            cov.step()
            w = {"rain": d <= 0.01, "snow": d >= 0.99, "sleet": (d > 0.01) & (d < 0.99)}[a]
            if dt == "float32":
                w = {"rain": d < 0.01005, "snow": d > 0.98995, "sleet": (d > 0.01005) & (d < 0.98995)}[a]
            expect_same(r.data, w.astype(np.int8), "where the phase is significant")
            expect(r.name() == a + "_mask" and str(r.units) == "1" and r.dtype == np.int8 and r.attributes == {k: q for k, q in ATT.items() if lead or not k.startswith("mosg")}, "description", got=r.attributes)
            return "mask"
        c = cubes.grid(v.astype(f), name="snow_fraction", attributes=ATT)
        if b[0] == 0:
            c.rename("rain_fraction")
        elif b[0] == 1:
            c.units = "%"
        elif b[0] == 2:
            c.data = np.ma.masked_array(c.data, c.data > 0.9)
        elif b[0] == 3:
            c.data = c.data + f(0.01)
        else:
            c.data = c.data - f(0.001)
        e = raises(SignificantPhaseMask().process, c, a)
        cov.step()
        expect(isinstance(e, (ValueError, NotImplementedError)), "must be refused", got=e)
        return "refused"
    fl = np.array([[0.0, 100.0, 320.0], [500.0, 499.0, 501.0]])
    al = np.array([[0.0, 99.0, 321.0], [500.0, 500.0, 500.0]])
    nm = "altitude_of_%s_falling_level" % a
    if kind == "prob-bad":
        c, o = cubes.grid(fl.astype(f), name=nm, units="m", attributes=ATT), cubes.grid(al.astype(f), name="surface_altitude", units="m", attributes=ATT)
        if b[0] == 0:
            c.rename("altitude_of_falling_level")
        elif b[0] == 1:
            o.rename("altitude")
        elif b[0] == 2:
            o = cubes.grid(al.astype(f), name="surface_altitude", units="m", origin=(5.0, 0.0))
        args = [c, o] if b[0] < 3 else [c]
        e = raises(PrecipPhaseProbability().process, *args)
        cov.step()
        expect(isinstance(e, ValueError), "must be refused", got=e)
        return "refused"
    src, un = b
    k = {"m": 1.0, "ft": 1 / 0.3048, "km": 1e-3}[un]
    need = 80 if a == "snow" else 20
    off = {20: 0.0, 50: -300.0, 80: 0.0}
    d = [fl + (off[p] if p != need else 0) - (7.0 if p != need else 0) for p in c_] if c_ else [fl]
    d = np.array(d)
    if src == "orog":
        o = cubes.grid(al.astype(f), name="surface_altitude", units="m", attributes=ATT)
        c = cubes.grid((d * k if c_ else d[0] * k).astype(f), name=nm, units=un, leading=[("percentile", sorted(c_) if c_ == sorted(c_) else c_, "%")] if c_ else (), attributes=ATT)
    else:
        meta = [np.zeros(6, f), np.zeros(6, f), ["%05d" % i for i in range(6)]]
        o = build_spotdata_cube(np.zeros((1, 3, 6), f), "grid_neighbours", 1, al.ravel().astype(f), *meta, neighbour_methods=["nearest"], grid_attributes=["x_index", "y_index", "vertical_displacement"])
        v = (d.reshape(-1, 6) * k).astype(f)
        c = build_spotdata_cube(v if c_ else v[0], nm, un, al.ravel().astype(f), *meta, additional_dims=[DimCoord(np.array(c_, f), long_name="percentile", units="%")] if c_ else None)
        c.attributes.update(ATT)
    P = PrecipPhaseProbability()
    with cubes.Unchanged(c, o):
        if c_ and need not in c_:
            e = raises(P.process, c, o)
            cov.step()
            expect(isinstance(e, ValueError), "the percentile is missing: must be refused", got=e)
            return "refused"
        r = P.process(c, o)
        r2 = P.process(*[o, c])
    cov.step(2)
    w = (al >= fl - 1e-3) if a == "snow" else (al < fl - 1e-3)
    amb = np.abs(al - fl) < 1e-3 if un != "m" else np.zeros(al.shape, bool)
    if un == "m":
        w = al >= fl if a == "snow" else al < fl
    if src == "sites":
        w, amb = w.ravel(), amb.ravel()
    expect(r.shape == w.shape and ((r.data == w) | amb).all(), "phase at the surface", expected=w.astype(int), got=r.data)
    expect_same(r2.data, r.data, "in any order")
    expect(r.name() == "probability_of_%s_at_surface" % a and r.dtype == np.int8 and str(r.units) == "1" and not r.coords("percentile") and r.attributes == {q: z for q, z in ATT.items() if not q.startswith("mosg")}, "description", got=r.attributes)
    return "prob"


SECTIONS = [Section("basic", c_basic, basic), Section("wet", c_wet, wet), Section("cloud", c_cloud, cloud), Section("phase", c_phase, phase), Section("masks", c_masks, masks)]
if __name__ == "__main__":
    main(globals())
