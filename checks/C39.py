"""C39: precipitation type: hail size and fraction, sleet, freezing rain, convective ratio, shower conditions, snow fraction and split, visibility with cloud base."""
import itertools

from mc import Section, Violation, expect, expect_close, expect_same, main, raises
import C38 as P38

PROPERTY = "C39"
ATT = {"title": "T", "source": "S", "institution": "I", "mosg__model_configuration": "uk_det"}
MID = "mosg__model_configuration"

# Hand and Cappelluti (2011): first table, rows every 0.5 K from 0, columns every 5 K from 5
FIRST = """0 0 0 2 2 5 5 5 5 5|0 0 0 2 5 5 5 5 10 10|0 0 2 2 5 5 10 10 15 15|0 0 2 2 5 10 15 15 20 20|0 0 2 2 10 15 20 20 20 20|0 2 2 5 15 20 20 20 25 25|0 2 5 10 20 20 25 25 30 30|2 2 10 15 20 25 30 30 35 35|2 5 10 20 25 30 35 35 40 40|2 5 15 20 30 35 40 40 45 45|2 5 15 20 30 40 40 40 45 50|2 10 20 25 35 40 45 45 50 50|5 10 20 25 40 40 45 50 55 55|5 15 20 30 40 45 50 55 60 60|5 15 25 30 40 45 55 60 60 65|5 15 25 35 40 50 55 60 65 75|10 15 25 35 45 50 60 65 70 80|10 15 25 40 45 55 60 70 80 85|10 15 30 40 45 55 65 75 85 90|10 20 30 40 50 60 70 80 90 100|10 20 30 40 50 60 70 80 95 105|10 20 35 45 50 60 75 85 100 110|10 20 35 45 50 60 75 90 105 115|15 25 35 45 50 65 80 100 110 120|15 25 35 45 55 65 80 100 110 120|15 25 35 50 55 65 80 100 110 120"""
FIRST = [[int(x) for x in r.split()] for r in FIRST.split("|")]
SECOND = [(3350, [0, 5, 10, 15, 25, 50, 65, 75]), (3550, [0, 0, 5, 10, 20, 20, 25, 30]), (3750, [0, 0, 0, 5, 10, 15, 15, 15]), (3950, [0, 0, 0, 0, 5, 10, 10, 10]), (4150, [0, 0, 0, 0, 0, 0, 5, 5]), (4400, [0] * 8)]
GROUPS = [5, 10, 20, 25, 50, 75, 100, 125]


def lookup(v, h, wb):
    """Hail size in mm for the row number v (0.5 K), column number h (5 K, from 1), wet bulb freezing height wb."""
    size = 0 if v < 0 or h < 1 else FIRST[min(v, 25)][min(h - 1, 9)]
    rows = [t for k, t in SECOND if wb >= k]
    if rows:
        size = rows[-1][sum(size >= g for g in GROUPS)]
    return size


# ------------------------------------------------------------ hail size
WB = [-100.0, 0.0, 3200.0, 3299.0, 3300.0, 3320.0, 3349.5, 3350.0, 3351.0, 3549.0, 3550.0, 3749.0, 3750.0, 3949.0, 3950.0, 4100.0, 4150.0, 4399.0, 4400.0, 4401.0, 6000.0]


def c_hail(tier):
    for wb in WB:
        for d in (-0.2, 0.0, 0.2):
            yield ("table", wb, d, 0)
    for b in range(len(BASES)):
        for order in range(4):
            yield ("cube", b, order, 0)
            for u in (1, 2):
                yield ("cube", b, order, u)
    for k in range(3):
        yield ("bad", k, 0, 0)


# (air temperature at 1000, 900, ... hPa; cloud base pressure hPa; cloud base temperature)
LEV = [100000.0, 85000.0, 70000.0, 55000.0, 40000.0]
BASES = [
    [([300, 290, 281, 266, 250], 900, 293), ([290, 284, 270, 260, 240], 950, 284), ([285, 275, 262, 251, 240], 920, 281), ([303, 294, 283, 270, 252], 850, 292), ([300, 290, 281, 269, 266], 900, 268), ([300, 290, 281, 271, 255], 900, 269)],
    [([298, 288, 278, 264, 248], 880, 291), ([305, 296, 286, 273, 256], 930, 299), ([300, 290, 280, 275, 270], 900, 290), ([260, 258, 255, 250, 240], 900, 270), ([310, 300, 290, 276, 262], 900, 304), ([295, 286, 275, 262, 249], 840, 286)],
]
ZB = [[0.0, 3000.0, 3400.0, 3600.0, 2000.0, 4500.0], [3340.0, 4200.0, 3320.0, 2500.0, 3740.0, 4000.0]]


def hail(case, cov):
    import cubes
    import numpy as np
    from improver.psychrometric_calculations.hail_size import HailSize

    kind, a, b, c_ = case
    f = np.float32
    if kind == "table":
        pl = HailSize()
        rows = list(range(-2, 29))
        cols = list(range(-1, 13))
        v = np.array([[0.5 * (r + b) for _ in cols] for r in rows])
        h = np.array([[5 * (c + b) for c in cols] for _ in rows])
        for mask in (False, True):
            m = np.zeros(v.shape, bool)
            if mask:
                m[::3, ::2] = True
            got = pl.get_hail_size(np.ma.masked_array(v, m), np.ma.masked_array(h, m), np.full(v.shape, a))
            want = [[lookup(r, c, a) if not m[i, j] else lookup(-1, 0, a) for j, c in enumerate(cols)] for i, r in enumerate(rows)]
            expect_same(np.asarray(got).astype(int), np.array(want), "hail size from the tables")
            cov.step()
        return "table"
    if kind == "bad":
        d = np.full((2, 3), 280, f)
        lead = [("pressure", LEV, "Pa")]
        T = cubes.grid(np.full((5, 2, 3), 280, f), name="air_temperature", units="K", leading=lead, attributes=ATT)
        cl = [cubes.grid(d, name=n, units=u, attributes=ATT) for n, u in (("air_pressure_at_condensation_level", "Pa"), ("air_temperature_at_condensation_level", "K"), ("wet_bulb_freezing_level_altitude", "m"), ("surface_altitude", "m"))]
        k = [0, 2, 3][a]
        cl[k] = cubes.grid(d, name=cl[k].name(), units=str(cl[k].units), attributes=ATT, origin=(500.0, 0.0))
        expect(raises(lambda: HailSize()(T, *cl)), "cubes on different grids are refused", got=case)
        cov.step()
        return "refused"
    base = BASES[a]
    nr = 2
    prof = np.array([[[x[0][l] for x in base] for l in range(5)]] * nr, float)  # r, p, site
    prof[1] += 1.5
    prof = prof.reshape(nr, 5, 2, 3)
    cp = np.array([[x[1] * 100 for x in base]] * nr, float).reshape(nr, 2, 3)
    ct = np.array([[x[2] for x in base]] * nr, float).reshape(nr, 2, 3)
    ct[1] += 1.0
    wb = np.array([ZB[a]] * nr, float).reshape(nr, 2, 3)
    wb[1] += 100
    oro = np.array([[0, 10, 60], [300, 0, 120]], float) - (0 if c_ == 0 else 5)
    if a == 1:
        oro = np.array([[-12, 10, -60], [300, -150, 120]], float)
    rl = ("realization", [0, 1], "1")
    mk = lambda v, n, u, l, **k: cubes.grid(v.astype(f), name=n, units=u, leading=l, attributes=ATT, **k)
    u = [dict(T="K", p="Pa", z="m"), dict(T="celsius", p="hPa", z="km"), dict(T="K", p="hPa", z="m")][c_]
    cT = (lambda v: v - 273.15) if u["T"] == "celsius" else (lambda v: v)
    cP = (lambda v: v / 100) if u["p"] == "hPa" else (lambda v: v)
    cZ = (lambda v: v / 1000) if u["z"] == "km" else (lambda v: v)
    T = mk(cT(prof), "air_temperature", u["T"], [rl, ("pressure", LEV, "Pa")])
    P_ = mk(cP(cp), "air_pressure_at_condensation_level", u["p"], [rl])
    C = mk(cT(ct), "air_temperature_at_condensation_level", u["T"], [rl])
    W = mk(cZ(wb), "wet_bulb_freezing_level_altitude", u["z"], [rl])
    O = mk(cZ(oro), "surface_altitude", u["z"], [], time=None, frt=None)
    Y, X = "projection_y_coordinate", "projection_x_coordinate"
    if b == 1:
        T = cubes.transposed(T, ["pressure", "realization", Y, X])
        C = cubes.transposed(C, [Y, X, "realization"])
    if b == 2:
        W = cubes.transposed(W, [Y, X, "realization"])
        T = cubes.transposed(T, [X, "realization", "pressure", Y])
    if b == 3:
        W = cubes.transposed(W, [X, "realization", Y])
        O = cubes.transposed(O, [X, Y])
    mid = MID if b % 2 else None
    cl = [T, P_, C, W, O]
    cl = cl[b:] + cl[:b]
    with cubes.Unchanged(*cl):
        r = HailSize(model_id_attr=mid).process(*cl)
    cov.step()
    wdims = [c.name() for c in W.coords(dim_coords=True)]
    expect([c.name() for c in r.coords(dim_coords=True)] == wdims, "the dimensions are those of the wet bulb cube", got=[c.name() for c in r.coords(dim_coords=True)])
    g = cubes.arr(r, "realization", Y, X)
    n = 0
    for i, j, k in itertools.product(range(nr), range(2), range(3)):
        t = prof[i, :, j, k]
        hgt = wb[i, j, k] - oro[j, k]
        tc = ct[i, j, k]
        if t.min() > 268.15 + 0.1 or t.max() < 268.15 - 0.1 or tc < 268.15:
            # the level does not exist in the column, or cloud base too cold: no hail
            want = {lookup(-1, 0, hgt)}
            if t.min() > 268.15 or t.max() < 268.15:
                # what is done outside the column is not claimed unless the cloud base says so
                if tc >= 268.15:
                    continue
        else:
            l = [m for m in range(4) if t[m] >= 268.15 >= t[m + 1]][0]
            w = (t[l] - 268.15) / (t[l] - t[l + 1])
            p2 = LEV[l] * (1 - w) + LEV[l + 1] * w
            h = P38.dry(268.15, p2, cp[i, j, k]) - 268.15
            t1 = P38.dry(tc, cp[i, j, k], p2)
            v = P38.saturated(t1, P38.qsat(tc, cp[i, j, k]), p2)[0] - 268.15
            # both roundings within the accuracy of the thermodynamics
            want = {lookup(round(2 * (v + dv)), round((h + dh) / 5), hgt) for dv in (-0.03, 0, 0.03) for dh in (-0.01, 0, 0.01)}
        n += 1
        expect(any(abs(g[i, j, k] * 1000 - x) < 1e-3 for x in want), "hail size", got=float(g[i, j, k]) * 1000, expected=sorted(want))
    expect(n >= 6, "reference values exist", got=n)
    att = {x: y for x, y in ATT.items() if mid or x != MID}
    expect(r.name() == "diameter_of_hail_stones" and str(r.units) == "m" and r.attributes == att and r.data.dtype == f, "description", got=(r.name(), r.attributes, str(r.data.dtype)))
    return "cube"


# ------------------------------------------------------------ hail fraction
def c_hfrac(tier):
    for up in (0.0, 4.9, 5.0, 6.0, 13.9, 14.1, 30.0, 50.0, 60.0):
        for mid in (False, True):
            for u in range(3):
                yield (up, mid, u)


def hfrac(case, cov):
    import cubes
    import numpy as np
    from improver.precipitation_type.hail_fraction import HailFraction

    up, mid, u = case
    f = np.float32
    S, C, T, M = [0.0, 0.002, 0.0021, 0.05], [268.0, 268.15, 280.0], [250.0, 258.15, 259.0], [-50.0, 0.0, 99.0, 100.0, 101.0, 3000.0]
    combos = list(itertools.product(S, C, T, M))
    sh = (12, 18)
    a = np.array(combos).reshape(sh + (4,))
    z = np.full(sh, 100.0)
    un = [("m s-1", "m", "K", "K", "m", "m"), ("km h-1", "mm", "K", "K", "km", "km"), ("m s-1", "cm", "K", "K", "m", "km")][u]
    fac = {"m s-1": 1, "m": 1, "K": 1, "km h-1": 3.6, "mm": 1000, "cm": 100, "km": 1e-3}
    vals = [np.full(sh, up), a[..., 0], a[..., 1], a[..., 2], a[..., 3], z]
    names = ["maximum_vertical_updraught", "diameter_of_hail_stones", "air_temperature_at_condensation_level", "air_temperature_at_convective_cloud_top", "altitude_of_rain_from_hail_falling_level", "surface_altitude"]
    cl = [cubes.grid((v * fac[x]).astype(f), name=n, units=x, attributes=ATT) for v, x, n in zip(vals, un, names)]
    with cubes.Unchanged(*cl):
        r = HailFraction(model_id_attr=MID if mid else None).process(*(cl if not mid else cl[::-1]))
    cov.step()
    base = min(max((up - 5) / 45 * 0.25, 0), 0.25)

    for idx in np.ndindex(*sh):
        s, c, t, m = a[idx]
        if u and (abs(s - 0.002) < 1e-6 or abs(m - 100) < 0.5):
            continue  # at the limit, rounding of the unit conversion decides
        w = 0.0 if (c < 268.15 or t > 258.15 or m > 100) else base
        if s > 0.002:
            w = max(w, 0.05)
        alt = {w}
        expect(any(abs(float(r.data[idx]) - x) < 1e-5 for x in alt), "hail fraction", got=(float(r.data[idx]), a[idx].tolist(), up), expected=sorted(alt))
    att = {x: y for x, y in ATT.items() if mid or x != MID}
    expect(r.name() == "hail_fraction" and str(r.units) == "1" and r.attributes == att and r.data.dtype == f, "description", got=(r.name(), r.attributes))
    return "fraction"


# ------------------------------------------------------------ sleet, convective ratio
def c_comp(tier):
    for lead in (0, 1):
        yield ("sleet", lead, 0)
    yield ("sleetbad", 0, 0)
    for u in range(4):
        for mid in (False, True):
            yield ("ratio", u, mid)
    for k in range(4):
        yield ("ratiobad", k, 0)


def comp(case, cov):
    import cubes
    import numpy as np
    from improver.precipitation_type.calculate_sleet_prob import calculate_sleet_probability
    from improver.precipitation_type.convection import ConvectionRatioFromComponents
    from iris.cube import CubeList

    kind, a, b = case
    f = np.float32
    Q = [0.0, 0.25, 0.5, 0.75, 1.0]
    if kind.startswith("sleet"):
        pairs = [(x, y) for x in Q for y in Q if x + y <= 1]
        pairs = pairs + [(0.0, 0.0)]
        if kind == "sleetbad":
            n = 0
            for x in Q + [0.1]:
                for y in Q:
                    if x + y <= 1:
                        continue
                    for pos in range(6):
                        s, r = np.zeros((2, 3), f), np.zeros((2, 3), f)
                        s.flat[pos], r.flat[pos] = x, y
                        sc, rc = cubes.grid(s, name="probability_of_snow"), cubes.grid(r, name="probability_of_rain")
                        expect(raises(lambda: calculate_sleet_probability(sc, rc)), "a negative probability of sleet is refused", got=(x, y))
                        n += 1
            cov.step(n)
            return "refused"
        s = np.array([p[0] for p in pairs], f).reshape(4, 4)
        r = np.array([p[1] for p in pairs], f).reshape(4, 4)
        lead = []
        if a:
            s, r, lead = np.stack([s, s[::-1]]), np.stack([r, r[::-1]]), [("realization", [0, 3], "1")]
        sc, rc = cubes.grid(s, name="probability_of_snow", leading=lead, attributes=ATT), cubes.grid(r, name="probability_of_rain", leading=lead, attributes=ATT)
        with cubes.Unchanged(sc, rc):
            g = calculate_sleet_probability(sc, rc)
        cov.step()
        expect_close(g.data, 1 - s.astype(float) - r, "snow, sleet and rain add up to one", atol=1e-6)
        expect(g.name() == "probability_of_sleet" and str(g.units) == "1" and g.data.dtype == f, "description", got=g.name())
        return "sleet"
    C, D = "lwe_convective_precipitation_rate", "lwe_stratiform_precipitation_rate"
    u = [("m s-1", "m s-1"), ("mm h-1", "mm h-1"), ("m s-1", "mm h-1"), ("mm h-1", "m s-1")]
    if kind == "ratiobad":
        d = np.ones((2, 3), f)
        mk = lambda n, un: cubes.grid(d, name=n, units=un, attributes=ATT)
        cl = [[mk(C, "m s-1")], [mk(D, "m s-1")], [mk(C, "K"), mk(D, "m s-1")], [mk(C, "m s-1"), mk(D, "kg m-2")]][a]
        expect(raises(lambda: ConvectionRatioFromComponents().process(CubeList(cl))), "missing components or other units are refused", got=case)
        cov.step()
        return "refused"
    V = [0.0, 1e-12, 4e-10, 1.0e-8, 1e-7, 3e-6, 1e-4]
    cv = np.array([[x for _ in V] for x in V])
    dv = np.array([[y for y in V] for _ in V])
    k = lambda un: 3.6e6 if un == "mm h-1" else 1.0
    cc, dc = cubes.grid((cv * k(u[a][0])).astype(f), name=C, units=u[a][0], attributes=ATT), cubes.grid((dv * k(u[a][1])).astype(f), name=D, units=u[a][1], attributes=ATT)
    with cubes.Unchanged(cc, dc):
        g = ConvectionRatioFromComponents().process([dc, cc] if b else CubeList([cc, dc]), model_id_attr=MID if b else None)
    cov.step()
    tot = cv + dv
    m = np.ma.getmaskarray(g.data)
    expect_same(m, tot < 1.0e-9, "the ratio is masked exactly where there is no precipitation")
    expect_close(np.ma.getdata(g.data)[~m], (cv / np.where(tot > 0, tot, 1))[~m], "convective ratio", atol=2e-6)
    expect(g.name() == "convective_ratio" and str(g.units) == "1" and g.attributes == {x: y for x, y in ATT.items() if b or x != MID}, "description", got=(g.name(), g.attributes))
    return "ratio"


# ------------------------------------------------------------ freezing rain
SETS = [([0, 1, 2], [0, 1, 2], [0, 1, 2]), ([0, 1, 2], [1, 2, 3], [0, 1, 2, 3]), ([0, 1, 2, 3], [0, 2], [2, 3, 0]), ([5], [5], [4, 5]), ([1, 2], [0, 1, 2], [1, 2]), ([0, 1, 2, 3, 4], [0, 1, 2, 3, 4], [1, 3, 4]), ([0, 1, 2, 3, 4], [0, 1, 2, 3, 5], [0, 1, 2, 3, 4, 5]), ([0, 1, 2, 4], [1, 2, 3, 4, 5], [0, 3, 4, 5, 1])]


def c_frz(tier):
    for r in [None] + list(range(len(SETS))):
        for d in range(2):
            for u in range(3):
                for order in range(6):
                    yield ("prob", r, d, [u, order])
    for k in range(9):
        yield ("bad", k, 0, 0)


def frz(case, cov):
    import cubes
    import numpy as np
    from improver.precipitation_type.freezing_rain import FreezingRain
    from iris.cube import CubeList

    kind, a, b, c_ = case
    f = np.float32
    u, order = c_ if kind == "prob" else (0, 0)
    th = [0.1, 1.0]
    tu = [("mm h-1", "mm h-1", "K"), ("mm h-1", "m s-1", "celsius"), ("m s-1", "mm h-1", "K")][u]
    thr = lambda un: [f(x) for x in th] if un == "mm h-1" else [x / 3.6e6 for x in th]
    tt = [272.15, 273.15, 274.15] if tu[2] == "K" else [-1.0, 0.0, 1.0]
    Q = [0.0, 0.25, 0.5, 1.0]

    def fill(nthr, reals, k):
        sh = ((len(reals),) if reals else ()) + (nthr, 2, 3)
        return np.array([Q[(7 * i + 3 * k + i // 5) % 4] * (1 if k == 2 else 0.5) for i in range(int(np.prod(sh)))], f).reshape(sh)

    sets = SETS[a] if kind == "prob" and a is not None else (None, None, None)
    bef = lambda rs: [("realization", sorted(rs), "1")] if rs else []
    R_ = fill(2, sets[0], 0)
    S_ = fill(2, sets[1], 1)
    below = np.array(fill(3, sets[2], 2))
    kw = dict(attributes=ATT)
    nm = ("rainfall_rate", "lwe_sleetfall_rate", "air_temperature")
    spt = ["greater_than", "less_than"][b]
    rain = cubes.prob(R_, thr(tu[0]), diag=nm[0], tunits=tu[0], before=bef(sets[0]), **kw)
    sleet = cubes.prob(S_, thr(tu[1]), diag=nm[1], tunits=tu[1], before=bef(sets[1]), **kw)
    temp = cubes.prob(below if b else 1 - below, tt, diag=nm[2], tunits=tu[2], spp=spt, before=bef(sets[2]), **kw)
    cl = [rain, sleet, temp]
    if kind == "bad":
        k = a
        if k == 0:
            cl = cl[:2]
        elif k == 1:
            cl = [rain, rain.copy(), temp]
        elif k == 2:
            cl = [rain, sleet, cubes.prob(below, tt, diag="relative_humidity", tunits="K")]
        elif k == 3:
            cl[1] = cubes.prob(S_, thr(tu[1]), diag=nm[1], tunits=tu[1], origin=(1.0, 0.0))
        elif k == 4:
            cl[2] = cubes.prob(below, tt, diag=nm[2], tunits="K", spp="less_than", time=cubes.T0 + 5 * 3600)
        elif k == 5:
            cl[1] = cubes.prob(S_, [0.1, 2.0], diag=nm[1], tunits="mm h-1")
        elif k == 6:
            cl[1] = cubes.prob(S_, th, diag=nm[1], tunits="K")
        elif k == 7:
            cl[2] = cubes.prob(below, [271.0, 272.0, 274.0], diag=nm[2], tunits="K", spp="less_than")
        else:
            mk = lambda rs, d, t, n, un, s="greater_than": cubes.prob(np.stack([d] * len(rs)), t, diag=n, tunits=un, spp=s, before=bef(rs))
            cl = [mk([0, 1], R_, th, nm[0], "mm h-1"), mk([2, 3], S_, th, nm[1], "mm h-1"), mk([0, 1, 2, 3], below, tt, nm[2], "K", "less_than")]
        expect(raises(lambda: FreezingRain().process(CubeList(cl))), "unsuitable input is refused", got=case)
        cov.step()
        return "refused"
    cl = [cl[i] for i in list(itertools.permutations(range(3)))[order]]
    mid = MID if order % 2 else None
    with cubes.Unchanged(*cl):
        r = FreezingRain(model_id_attr=mid).process(*cl) if order < 3 else FreezingRain(model_id_attr=mid).process(CubeList(cl))
    cov.step()
    if sets[0] is None:
        want = (R_.astype(float) + S_) * below[1]
    else:
        s = [sorted(x) for x in sets]
        common = sorted(set(s[0]) & set(s[1]) & set(s[2]))
        want = np.mean([(R_[s[0].index(m)].astype(float) + S_[s[1].index(m)]) * below[s[2].index(m)][1] for m in common], axis=0)
    tn = "lwe_freezing_rainfall_rate"
    expect(r.shape == (2, 2, 3), "dimensions threshold, y, x", got=r.shape)
    expect_close(r.data, want, "probability of freezing rain", atol=1e-6)
    tc = [c for c in r.coords() if c.var_name == "threshold"]
    exp_name = "lwe_sleetfall_rate".replace("sleet", "freezing_rain")
    expect(len(tc) == 1 and tc[0].name() == exp_name and r.name() == "probability_of_%s_above_threshold" % exp_name, "name and threshold", got=(r.name(), [c.name() for c in tc]))
    want_t = np.array(th) / (1 if str(tc[0].units) == "mm h-1" else 3.6e6)
    expect_close(tc[0].points, want_t, "thresholds", rtol=1e-5)
    expect(str(tc[0].units) == tu[0], "thresholds have the units of the rain thresholds", got=str(tc[0].units))
    att = {x: y for x, y in ATT.items() if mid or x != MID}
    expect(r.attributes == att and str(r.units) == "1" and r.data.dtype == f and not r.coords("realization"), "description", got=(r.attributes, str(r.data.dtype)))
    return "freezing rain"


# ------------------------------------------------------------ shower conditions
def c_shw(tier):
    for reals in (0, 2, 3, 4):
        for m in range(3):
            for th in ((0.8125, 0.8), (0.5, 0.5)):
                for rev in (0, 1):
                    yield ("prob", reals, m, [th, rev])
    for k in range(3):
        yield ("bad", k, 0, 0)


def shw(case, cov):
    import cubes
    import numpy as np
    from improver.precipitation_type.shower_condition_probability import ShowerConditionProbability
    from iris.cube import CubeList

    kind, reals, m, z = case
    f = np.float32
    V = [0.0, 0.3, 0.5, 0.79, 0.8, 0.81, 0.8125, 0.82, 1.0]
    base_cl = np.array([[x for _ in V] for x in V], f)
    base_cv = np.array([[y for y in V] for _ in V], f)
    if kind == "bad":
        c, r = cubes.grid(base_cl, name="cloud_area_fraction"), cubes.grid(base_cv, name="convective_ratio")
        cl = [[c], [r, r], [c, cubes.grid(base_cv[:5], name="convective_ratio")]][reals]
        expect(raises(lambda: ShowerConditionProbability().process(CubeList(cl))), "missing fields or other shapes are refused", got=case)
        cov.step()
        return "refused"
    (tc, tv), rev = z
    n = max(reals, 1)
    CL = np.stack([np.roll(base_cl, i, 0) for i in range(n)])
    CV = np.stack([np.roll(base_cv, 2 * i, 1) for i in range(n)])
    mask = np.zeros(CV.shape, bool)
    if m == 1:
        mask[:, ::2, :] = True
    elif m == 2:
        mask[0, 3, 4:] = True
    lead = [("realization", list(range(n)), "1")] if reals else []
    dcl, dcv = (CL, np.ma.masked_array(CV, mask) if m else CV)
    if not reals:
        dcl, dcv = dcl[0], dcv[0]
    nm = ["low_and_medium_type_cloud_area_fraction", "cloud_area_fraction"][rev]
    c, r = cubes.grid(dcl, name=nm, leading=lead, attributes=ATT), cubes.grid(dcv, name="convective_ratio", leading=lead, attributes=ATT)
    with cubes.Unchanged(c, r):
        g = ShowerConditionProbability(cloud_threshold=tc, convection_threshold=tv, model_id_attr=MID if rev else None).process(CubeList([r, c] if rev else [c, r]))
    cov.step()
    want = np.mean(np.maximum(CL <= f(tc), (CV > f(tv)) & ~mask).astype(float), axis=0)
    expect_close(g.data, want, "probability of showery conditions", atol=1e-6)
    th = [x for x in g.coords() if x.var_name == "threshold"]
    expect(g.name() == "probability_of_shower_condition_above_threshold" and len(th) == 1 and th[0].name() == "shower_condition" and th[0].points.tolist() == [1.0] and str(th[0].units) == "1", "a single threshold of 1", got=g.name())
    expect(g.data.dtype == f and g.attributes == {x: y for x, y in ATT.items() if rev or x != MID} and not np.ma.is_masked(g.data), "description", got=(g.attributes, str(g.data.dtype)))
    return "showers"


# ------------------------------------------------------------ snow fraction and split
def c_snow(tier):
    for pat in range(64):
        yield ("fraction", pat, 0, 0)
    for u in range(3):
        for lead in (0, 2):
            yield ("fraction", 21, u, lead)
            yield ("fraction", 63, u, lead)
    for k in range(6):
        yield ("fracbad", k, 0, 0)
    for rain in (False, True):
        for lead in (0, 1):
            for kind in range(3):
                yield ("split", rain, lead, kind)
    for k in range(2):
        yield ("splitbad", k, 0, 0)


def snow(case, cov):
    import cubes
    import numpy as np
    from improver.precipitation_type.snow_fraction import SnowFraction
    from improver.precipitation_type.snow_splitter import SnowSplitter
    from iris.cube import CubeList

    kind, a, b, c_ = case
    f = np.float32
    if kind == "fraction":
        u = [("mm h-1", "mm h-1"), ("mm h-1", "m s-1"), ("m s-1", "mm h-1")][b]
        rain = np.array([0.0, 1.0, 3.0, 0.5, 2.0, 0.25])
        sn = np.array([2.0, 0.0, 1.0, 0.5, 6.0, 0.75])
        wet = np.array([bool(a >> i & 1) for i in range(6)])
        rain, sn = (rain * wet).reshape(2, 3), (sn * wet).reshape(2, 3)
        lead = []
        if c_:
            rain, sn, lead = np.stack([rain, rain[:, ::-1]]), np.stack([sn, sn[::-1]]), [("realization", [0, 1], "1")]
        k = lambda un: 1 if un == "mm h-1" else 1 / 3.6e6
        rc = cubes.grid((rain * k(u[0])).astype(f), name="rainfall_rate", units=u[0], leading=lead, attributes=ATT)
        sc = cubes.grid((sn * k(u[1])).astype(f), name="lwe_snowfall_rate", units=u[1], leading=lead, attributes=ATT)
        if a % 2:
            rc.data = np.ma.masked_array(rc.data, np.zeros(rc.shape, bool))
        mid = MID if a % 3 == 0 else None
        with cubes.Unchanged(rc, sc):
            g = SnowFraction(model_id_attr=mid).process(CubeList([sc, rc] if a % 4 == 1 else [rc, sc]))
        cov.step()
        expect(g.shape == rc.shape, "dimensions", got=g.shape)
        gd, rr, ss = g.data.reshape(-1, 2, 3), rain.reshape(-1, 2, 3), sn.reshape(-1, 2, 3)
        for p in range(gd.shape[0]):
            tot = rr[p] + ss[p]
            pts = [i for i in np.ndindex(2, 3) if tot[i] > 0]
            for i in np.ndindex(2, 3):
                if not pts:
                    continue
                dist = {q: (q[0] - i[0]) ** 2 + (q[1] - i[1]) ** 2 for q in pts}
                near = [ss[p][q] / tot[q] for q in pts if dist[q] == min(dist.values())]
                expect(any(abs(gd[p][i] - x) < 1e-5 for x in near), "snow divided by the total, from the nearest precipitating point where there is none", got=float(gd[p][i]), expected=near)
        expect(g.name() == "snow_fraction" and str(g.units) == "1" and g.attributes == {x: y for x, y in ATT.items() if mid or x != MID} and not np.ma.is_masked(g.data), "description", got=(g.name(), g.attributes))
        return "fraction"
    d = np.full((2, 3), 0.5, f)
    if kind == "fracbad":
        mk = lambda n, un="mm h-1", **kw: cubes.grid(kw.pop("d", d), name=n, units=un, **kw)
        m = np.ma.masked_array(d, np.eye(2, 3) > 0)
        cl = [[mk("rainfall_rate")], [mk("rainfall_rate"), mk("lwe_snowfall_rate"), mk("x")], [mk("rainfall_rate"), mk("hail_rate")], [mk("rainfall_rate"), mk("lwe_snowfall_rate", origin=(1.0, 0.0))], [mk("rainfall_rate"), mk("lwe_snowfall_rate", time=cubes.T0 + 7200)], [mk("rainfall_rate", d=m), mk("lwe_snowfall_rate")]][a]
        expect(raises(lambda: SnowFraction().process(CubeList(cl))), "unsuitable input is refused", got=case)
        cov.step()
        return "refused"
    if kind == "split":
        rain_out, lead = a, [("realization", [0, 1], "1")] if b else []
        Q = [(0.0, 0.0), (0.25, 0.25), (0.5, 0.5), (1.0, 0.0), (0.0, 1.0), (0.25, 0.5), (0.75, 0.25), (0.125, 0.0), (0.5, 0.0)]
        r = np.array([q[0] for q in Q], f).reshape(3, 3)
        s = np.array([q[1] for q in Q], f).reshape(3, 3)
        p = (np.arange(9, dtype=f) + 1).reshape(3, 3)
        if b:
            r, s, p = np.stack([r, r.T]), np.stack([s, s.T]), np.stack([p, 2 * p])
        name = ["lwe_precipitation_rate", "lwe_thickness_of_precipitation_amount", "precipitation_rate"][c_]
        rc, sc = cubes.grid(r, name="probability_of_rain_at_surface", leading=lead, attributes=ATT), cubes.grid(s, name="probability_of_snow_at_surface", leading=lead, attributes=ATT)
        pc = cubes.grid(p, name=name, units="m s-1", leading=lead, attributes=ATT)
        with cubes.Unchanged(rc, sc, pc):
            g = SnowSplitter(output_is_rain=rain_out).process(*([rc, sc, pc] if c_ else [pc, sc, rc]))
            h = SnowSplitter(output_is_rain=not rain_out).process(CubeList([rc, pc, sc]))
        cov.step(2)
        x, y = (r, s) if rain_out else (s, r)
        want = p.astype(float) * (x - y + 1) / 2
        expect_close(g.data, want, "the part of the precipitation", rtol=1e-6)
        expect_close(g.data + h.data, p, "rain and snow add up to the precipitation", rtol=1e-6)
        nm = name.replace("precipitation", "rainfall" if rain_out else "snowfall")
        if rain_out:
            nm = nm.replace("lwe_", "")
        expect(g.name() == nm and str(g.units) == "m s-1" and g.data.dtype == f, "name, units, type", got=(g.name(), str(g.units), str(g.data.dtype)))
        return "split"
    n = 0
    for pos in range(6):
        r, s = d.copy(), d.copy()
        if a == 0:
            s.flat[pos] = 0.51
        rc, sc = cubes.grid(r, name="probability_of_rain_at_surface"), cubes.grid(s, name="probability_of_snow_at_surface")
        pc = cubes.grid(d, name="lwe_precipitation_rate", units="m s-1", origin=(0.0, 0.0) if a == 0 else (0.0, 3.0))
        expect(raises(lambda: SnowSplitter(output_is_rain=True).process(rc, sc, pc)), "probabilities above one in total and other grids are refused", got=case)
        n += 1
    cov.step(n)
    return "refused"


# ------------------------------------------------------------ visibility and cloud base at ground level
def c_vis(tier):
    for above in (0, 1):
        for s in (0.0, 0.3, 0.6, 1.0):
            for t in (1000.0, 5000.0, 20000.0):
                for sw in (0, 1):
                    for lead in (0, 1):
                        yield ("vis", above, [s, t], [sw, lead])
        for t in (500.0, 1001.0, 40000.0):
            for i in range(7):
                yield ("one", above, [0.6, t], [i, 0])
    for k in range(7):
        yield ("bad", k, 0, 0)
    for k in range(4):
        yield ("multi", k, 0, 0)


def vis(case, cov):
    import cubes
    import numpy as np
    from improver.visibility.visibility_combine_cloud_base import VisibilityCombineCloudBase
    from iris.cube import CubeList

    kind, a, b, c_ = case
    f = np.float32
    th = [50.0, 999.0, 1000.0, 1001.0, 5000.0, 10000.0, 30000.0]
    Q = [0.0, 0.2, 0.5, 0.9, 1.0]
    cb = np.array([[q for q in Q] for _ in Q], f)
    vb = np.array([[[min(1.0, q * (0.4 + 0.1 * i)) for _ in Q] for q in Q] for i in range(len(th))], f)
    before = []
    if kind == "multi":
        from improver.precipitation_type.utilities import make_shower_condition_cube

        for inp in (False, True):
            c = cubes.prob(np.full(((1, 1, 2, 3)[a], 2, 3), 0.5, f), [0.4, 0.8, 0.9][: (1, 1, 2, 3)[a]], diag="texture_of_cloud", tunits="1", attributes=ATT)
            if a < 2:
                q = c[0] if a else c
                g = make_shower_condition_cube(q, in_place=inp)
                th_ = g.coord("shower_condition")
                expect(g.name() == "probability_of_shower_condition_above_threshold" and th_.points.tolist() == [1.0] and th_.var_name == "threshold" and str(th_.units) == "1" and (g is q) == inp, "a single threshold of one", got=g.name())
                expect_same(g.data, q.data, "probabilities")
            else:
                expect(isinstance(raises(lambda: make_shower_condition_cube(c, in_place=inp)), ValueError), "several thresholds are refused", got=a)
        n = cubes.grid(np.full((2, 3), 0.5, f), name="probability_of_x")
        expect(raises(lambda: make_shower_condition_cube(n)), "a cube without a threshold is refused", got=a)
        cov.step()
        return "shower threshold"
    if kind == "vis" and c_[1]:
        vb = np.stack([vb, vb[:, ::-1]])
        before = [("realization", [0, 1], "1")]
        cbd = np.stack([cb, cb[::-1]])
    else:
        cbd = cb
    mk = lambda d, spp="less_than": cubes.prob(d, th, diag="visibility_in_air", tunits="m", spp=spp, before=before, attributes=ATT)
    C = cubes.grid(cbd, name="probability_of_cloud_base_assuming_only_consider_cloud_area_fraction_greater_than_4p5_oktas_at_ground_level", leading=before, attributes=ATT) if False else None
    # the cloud base cube: one scalar threshold
    C = cubes.prob(np.expand_dims(cbd, -3), [0.0], diag="cloud_base_height_assuming_only_consider_cloud_area_fraction_greater_than_4p5_oktas", tunits="m", spp="less_than", before=before, attributes=ATT)
    C = C[0] if not before else C[:, 0]
    if kind == "bad":
        V = mk(vb, "less_than")
        cl = [[V], [V, C, C.copy()], [V, cubes.grid(cb, name="probability_of_fog")], [cubes.grid(vb[0], name="visibility_in_air", units="m"), C], [C, cubes.grid(vb[0], name="visibility_in_air", units="m")], [cubes.grid(cb, name="cloud_base", units="m"), V], [V, cubes.grid(cb, name="cloud_base", units="m")]][a]
        expect(raises(lambda: VisibilityCombineCloudBase(0.6, 5000).process(CubeList(cl))), "unsuitable input is refused", got=case)
        cov.step()
        return "refused"
    (s, t), (sw, lead) = b, c_
    V = mk((1 - vb).astype(f), "greater_than") if a else mk(vb, "less_than")
    if kind == "one":
        k = sw
        V = V[k]
        sw = k % 2
        with cubes.Unchanged(V, C):
            g = VisibilityCombineCloudBase(s, t).process(CubeList([C, V] if sw else [V, C]))
        cov.step()
        fac = 1.0 if th[k] > t else (1 - s) * (-1 / t ** 4) * (th[k] - t) ** 4 + 1
        got = 1 - g.data.astype(float) if a else g.data.astype(float)
        expect_close(got, np.maximum(vb[k], cb * fac), "the higher of low visibility and scaled low cloud, single threshold", atol=2e-6)
        expect(g.name() == V.name() and g.coord("visibility_in_air").points.tolist() == V.coord("visibility_in_air").points.tolist(), "the description is that of the visibility", got=g.name())
        return "visibility"
    with cubes.Unchanged(V, C):
        g = VisibilityCombineCloudBase(s, t).process(CubeList([C, V] if sw else [V, C]))
    cov.step()
    n = len(before)
    fac = np.array([1.0 if x > t else (1 - s) * (-1 / t ** 4) * (x - t) ** 4 + 1 for x in th])
    tn = "visibility_in_air"
    got = cubes.arr(g, tn, *[x for x in ["realization"] if before], "projection_y_coordinate", "projection_x_coordinate")
    got = 1 - got.astype(float) if a else got.astype(float)
    for i in range(len(th)):
        v = vb[:, i] if before else vb[i]
        expect_close(got[i], np.maximum(v, cbd * fac[i]), "the higher of low visibility and scaled low cloud", atol=2e-6)
    expect(g.name() == V.name() and g.coord(tn).attributes == V.coord(tn).attributes and g.data.dtype == f, "the description is that of the visibility", got=(g.name(), str(g.data.dtype)))
    return "visibility"


SECTIONS = [
    Section("hail_size", c_hail, hail),
    Section("hail_fraction", c_hfrac, hfrac),
    Section("components", c_comp, comp),
    Section("freezing_rain", c_frz, frz),
    Section("showers", c_shw, shw),
    Section("snow", c_snow, snow),
    Section("visibility", c_vis, vis),
]

if __name__ == "__main__":
    main(globals())
