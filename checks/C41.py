"""C41: wind: mean direction, components, gusts, updraught, downscaling over orography."""
import itertools
import math

from mc import Section, Violation, expect, expect_close, expect_same, main, raises

PROPERTY = "C41"
ATT = {"title": "T", "source": "S", "institution": "I", "mosg__model_configuration": "uk_det"}
MID = "mosg__model_configuration"
H = 3600
Y, X = "projection_y_coordinate", "projection_x_coordinate"


# ------------------------------------------------------------ mean direction of an ensemble
ANG = [0.0, 10.0, 90.0, 180.0, 270.0, 350.0]


def c_dir(tier):
    for n in (1, 2, 3, 4):
        for b in ("neighbourhood", "first_realization"):
            for off in (0.0, 37.0):
                yield ("all", n, b, off)
    for lead in ("t", "h", "th", "ht", "tr", "rt"):
        for b in ("neighbourhood", "first_realization"):
            for u in ("degrees", "radians"):
                yield ("lead", lead, b, u)
    for b in ("neighbourhood", "first_realization"):
        for seq in itertools.product(range(3), repeat=2):
            yield ("reuse", list(seq), b, 0)
    for k in range(3):
        yield ("bad", k, 0, 0)


def direction(v, backup, spacing=2000.0):
    """Mean over axis 0 of v [r, y, x] degrees: expected, and where either answer is possible."""
    import numpy as np

    z = np.exp(1j * np.radians(v))
    m = z.mean(axis=0)
    r = np.abs(m)
    low = r < 0.01
    unsure = np.abs(r - 0.01) < 1e-4
    if backup == "first_realization":
        alt = v[0] % 360
    else:
        ny, nx = m.shape
        k = int(6000.0 / spacing)
        nb = np.array([[m[max(j - k, 0):j + k + 1, max(i - k, 0):i + k + 1].mean() for i in range(nx)] for j in range(ny)])
        alt = np.degrees(np.angle(nb)) % 360
        unsure = unsure | (low & (np.abs(nb) < 1e-3))
    return np.where(low, alt, np.degrees(np.angle(m)) % 360), unsure


def near(g, w, skip, msg):
    import numpy as np

    d = np.abs((g.astype(float) - w + 180) % 360 - 180)
    bad = (d > 0.02) & ~skip
    expect(not bad.any(), msg, got=g[bad][:6], expected=w[bad][:6])
    expect((g >= 0).all() and (g < 360).all(), "a direction is in [0, 360)", got=g[(g < 0) | (g >= 360)][:4])


def dirs(case, cov):
    import cubes
    import numpy as np
    from improver.wind_calculations.wind_direction import WindDirection

    kind, a, b, c_ = case
    f = np.float32

    def cube(v, lead=(), units="degrees"):
        if units == "radians":
            v = np.radians(v)
        return cubes.grid(v.astype(f), name="wind_from_direction", units=units, leading=lead, attributes=ATT, time=None if any(l[0] == "time" for l in lead) else cubes.T0 + 4 * H)

    def desc(r, c):
        expect(r.name() == "wind_from_direction" and str(r.units) == "degrees" and r.data.dtype == f and r.attributes == ATT and not r.coords("realization") and [str(x) for x in r.cell_methods] == ["mean: realization"], "description", got=(r.name(), str(r.units), r.cell_methods))

    if kind == "all":
        combos = list(itertools.product(ANG, repeat=a))
        nx = 6 if a > 1 else 3
        v = (np.array(combos).T.reshape(a, -1, nx) + c_) % 360
        for k in range(0, v.shape[1], 36):
            w = v[:, k:k + 36]
            c = cube(w, [("realization", range(a), "1")])
            with cubes.Unchanged(c):
                r = WindDirection(backup_method=b).process(c)
            cov.step()
            want, skip = direction(w, b)
            near(cubes.arr(r, Y, X), want, skip, "mean direction")
            desc(r, c)
        return "mean"
    if kind == "lead":
        spec = {"t": ("time", [cubes.T0 + 4 * H, cubes.T0 + 5 * H], cubes.EPOCH), "h": ("height", [2.0, 10.0, 50.0], "m"), "r": ("realization", [0, 1, 2], "1")}
        order = list(a) if "r" in a else ["r"] + list(a)
        sh = [len(spec[l][1]) for l in order] + [4, 5]
        i = np.arange(int(np.prod(sh)))
        v = ((i * 70 + (i // 20) * 180 + i // 7 * 10) % 360).reshape(sh).astype(float)
        c = cube(v, [spec[l] for l in order], c_)
        with cubes.Unchanged(c):
            r = WindDirection(backup_method=b).process(c)
        cov.step()
        rest = [spec[l][0] for l in order if l != "r"]
        g = cubes.arr(r, *rest, Y, X)
        expect([x.name() for x in r.coords(dim_coords=True)] == rest + [Y, X], "order of the dimensions", got=[x.name() for x in r.coords(dim_coords=True)])
        vv = np.moveaxis(v, order.index("r"), 0)
        for k in np.ndindex(*vv.shape[1:-2]):
            want, skip = direction(vv[(slice(None),) + k], b)
            near(g[k], want, skip, "mean direction of each slice")
        desc(r, c)
        return "slices"
    if kind == "reuse":
        pl = WindDirection(backup_method=b)
        for k in a:
            q = np.arange(42).reshape(6, 7)
            v = np.array([(10.0 * k + q * 40) % 360, (190 + 10 * k + q * (40 if k % 2 else 50)) % 360])
            c = cube(v, [("realization", [0, 1], "1")])
            r = pl.process(c)
            cov.step()
            want, skip = direction(v, b)
            near(cubes.arr(r, Y, X), want, skip, "mean direction when a plugin is used again")
        return "reuse"
    v = np.zeros((2, 2, 3))
    tests = [lambda: WindDirection("other"), lambda: WindDirection().process([1]), lambda: WindDirection().process(cubes.grid(v.astype(f), name="x", units="m", leading=[("realization", [0, 1], "1")]))]
    expect(raises(tests[a]), "other options, objects and units are refused", got=a)
    cov.step()
    return "refused"


# ------------------------------------------------------------ components
def c_comp(tier):
    for o in range(6):
        for nm in ("wind_from_direction", "wind_to_direction"):
            for lead in ("", "r", "rt", "h"):
                for u in ("degrees", "radians"):
                    yield ("grid", o, [nm, lead], u)
    for k in range(5):
        yield ("bad", k, 0, 0)


def comp(case, cov):
    import cubes
    import numpy as np
    from improver.utilities.spatial import transform_grid_to_lat_lon
    from improver.wind_calculations.wind_components import ResolveWindComponents

    kind, a, b, u = case
    f = np.float32
    O = [(0.0, 0.0), (-600000.0, -500000.0), (300000.0, 200000.0), (-1000000.0, 400000.0), (-200000.0, -150000.0), (-500000.0, 200000.0)][a if kind == "grid" else 0]
    spac = 20000.0 if kind != "grid" or a < 4 else 100000.0
    spec = {"t": ("time", [cubes.T0 + 4 * H, cubes.T0 + 5 * H], cubes.EPOCH), "h": ("height", [2.0, 10.0, 50.0], "m"), "r": ("realization", [0, 1], "1")}

    def mk(v, name, units, lead="", origin=O):
        return cubes.grid(v.astype(f), name=name, units=units, leading=[spec[l] for l in lead], attributes=ATT, origin=origin, spacing=spac, time=None if "t" in lead else cubes.T0 + 4 * H)

    if kind == "bad":
        s, d = mk(np.ones((4, 5)), "wind_speed", "m s-1"), mk(np.ones((4, 5)), "wind_from_direction", "degrees")
        pairs = [(d, d), (s, s), (s, mk(np.ones((4, 5)), "wind_from_direction", "degrees", origin=(1.0, 0.0))), (s, mk(np.ones((2, 4, 5)), "wind_from_direction", "degrees", "r")), (mk(np.ones((4, 5)), "air_temperature", "K"), d)]
        expect(raises(lambda: ResolveWindComponents().process(*pairs[a])), "other diagnostics or coordinates are refused", got=a)
        cov.step()
        return "refused"
    nm, lead = b
    sh = [len(spec[l][1]) for l in lead] + [6, 7]
    i = np.arange(int(np.prod(sh)))
    sp = ((i * 7) % 25 * 1.0).reshape(sh)
    dr = ((i * 40 + i // 9 * 5) % 360 * 1.0).reshape(sh)
    s, d = mk(sp, "wind_speed", "m s-1", lead), mk(np.radians(dr) if u == "radians" else dr, nm, u, lead)
    with cubes.Unchanged(s, d):
        ue, vn = ResolveWindComponents().process(s, d)
    cov.step()
    expect_close(np.hypot(ue.data, vn.data), sp, "the components make up the speed", atol=1e-4)
    # direction of true north on the grid, from the positions of points a little further north
    la, lo = transform_grid_to_lat_lon(next(s.slices([Y, X])))
    import cartopy.crs as ccrs

    cs = s.coord_system().as_cartopy_crs()
    from iris.coord_systems import GeogCS

    g = GeogCS(6378137.0, 6356752.314140356).as_cartopy_crs()
    p0, p1 = cs.transform_points(g, lo, la - 0.01), cs.transform_points(g, lo, la + 0.01)
    adj = np.arctan2(p1[..., 0] - p0[..., 0], p1[..., 1] - p0[..., 1])
    t = np.radians(dr) + adj + (np.pi if "from" in nm else 0)
    tol = 25 * 0.012
    expect_close(ue.data, sp * np.sin(t), "grid eastward wind", atol=tol)
    expect_close(vn.data, sp * np.cos(t), "grid northward wind", atol=tol)
    if a == 0:
        # near the centre of the projection grid north is true north
        expect_close(ue.data, sp * np.sin(np.radians(dr) + (np.pi if "from" in nm else 0)), "grid eastward wind at the centre", atol=25 * 0.06)
    for r, n in ((ue, "grid_eastward_wind"), (vn, "grid_northward_wind")):
        k = r.copy()
        k.rename("wind_speed")
        k.data = s.data
        cubes.expect_cube(k, s, "the description is that of the speed")
        expect(r.name() == n and r.data.dtype == f, "name and type", got=(r.name(), str(r.data.dtype)))
    return "components"


# ------------------------------------------------------------ gusts
def c_gust(tier):
    for pg, pw in ((50.0, 95.0), (95.0, 100.0), (95.0, 95.0), (5.0, 50.0)):
        for form in itertools.product(("dim", "scalar"), repeat=2):
            for lead in ("", "r", "t"):
                for tm in range(5):
                    yield ("gust", [pg, pw], list(form), [lead, tm])
                    if lead or tm == 0:
                        for o in range(1, 4):
                            yield ("gust", [pg, pw], list(form), [lead, tm, o])
    for k in range(9):
        yield ("bad", k, 0, 0)


def gust(case, cov):
    import cubes
    import numpy as np
    from improver.wind_calculations.wind_gust_diagnostic import WindGustDiagnostic

    kind, ps, form, z = case
    f = np.float32
    P = [5.0, 50.0, 95.0, 100.0]
    T = cubes.T0 + 6 * H

    def mk(name, percs, k, lead="", times=(T,), bounds=None, pname="percentile"):
        ld = [(pname, percs, "%")] if len(percs) > 1 else []
        sc = [] if len(percs) > 1 else [(pname, percs[0], "%")]
        if lead == "r":
            ld.append(("realization", [0, 1], "1"))
        kw = {}
        if len(times) > 1:
            ld.append(("time", times, cubes.EPOCH))
            kw["time"] = None
        else:
            kw.update(time=times[0], time_bounds=bounds)
        sh = [len(l[1]) for l in ld] + [3, 4]
        i = np.arange(int(np.prod(sh)))
        v = ((i * (11 + 2 * k) + 5 * k) % 31).reshape(sh).astype(f)
        c = cubes.grid(v, name=name, units="m s-1", leading=ld, scalars=sc, attributes=ATT, **kw)
        if len(times) > 1 and bounds is not None:
            c.coord("time").bounds = np.array(bounds, np.int64)
        return c

    if kind == "bad":
        g, w = mk("wind_speed_of_gust", P, 0), mk("wind_speed", P, 1)
        pl = WindGustDiagnostic(50.0, 95.0)
        tests = [lambda: WindGustDiagnostic(51.0, 95.0).process(g, w), lambda: WindGustDiagnostic(50.0, 96.0).process(g, w), lambda: pl.process(g, mk("wind_speed", P, 1, times=(T + H,))), lambda: pl.process(mk("wind_speed_of_gust", P, 0, bounds=[T - H, T]), mk("wind_speed", P, 1, times=(T + 60,))), lambda: pl.process([g], w)]
        # several times, of which only some agree
        tb = [[T - H, T], [T + H, T + 2 * H]]
        gt = mk("wind_speed_of_gust", P, 0, "t", (T, T + 2 * H), tb)
        gn = mk("wind_speed_of_gust", P, 0, "t", (T, T + 2 * H))
        tests += [lambda: pl.process(gt, mk("wind_speed", P, 1, "t", (T - 1800, T + 3 * H))), lambda: pl.process(gt, mk("wind_speed", P, 1, "t", (T - 2 * H, T + H))), lambda: pl.process(gn, mk("wind_speed", P, 1, "t", (T, T + 3 * H))), lambda: pl.process(gn, mk("wind_speed", P, 1, "t", (T - H, T + 2 * H)))]
        expect(raises(tests[ps]), "missing percentiles, other times and other objects are refused", got=ps)
        cov.step()
        return "refused"
    (pg, pw), (lead, tm), order = ps, z[:2], (z + [0])[2]
    # times: same; bounded gust containing the wind's time (end, middle, start); both bounded and equal
    wt = [T, T, T - 1800, T - H, T][tm]
    times_g, times_w = (T,), (wt,)
    bg = [T - H, T] if tm else None
    bw = None
    if tm == 4:
        bw = [T - H, T]
    if lead == "t":
        times_g, times_w = (T, T + 2 * H), (wt, wt + 2 * H)
        bg = None if bg is None else [bg, [x + 2 * H for x in bg]]
        bw = None if bw is None else [bw, [x + 2 * H for x in bw]]
    g = mk("wind_speed_of_gust", P if form[0] == "dim" else [pg], 0, lead, times_g, bg)
    w = mk("wind_speed", P if form[1] == "dim" else [pw], 1, lead, times_w, bw)
    go, wo = g, w
    if order & 1:  # dimensions in another order
        w = cubes.transposed(w, [c.name() for c in w.coords(dim_coords=True)][::-1])
    if order & 2:
        n = [c.name() for c in g.coords(dim_coords=True)]
        g = cubes.transposed(g, n[1:] + n[:1])
    with cubes.Unchanged(g, w):
        r = WindGustDiagnostic(pg, pw).process(g, w)
    cov.step()
    dims = [c.name() for c in g.coords(dim_coords=True) if c.name() != "percentile"]
    expect([c.name() for c in r.coords(dim_coords=True)] == dims, "dimensions of the gust cube", got=[c.name() for c in r.coords(dim_coords=True)])
    g, w = go, wo
    r = cubes.transposed(r, [c.name() for c in g.coords(dim_coords=True) if c.name() != "percentile"])
    gv = g.data[P.index(pg)] if form[0] == "dim" else g.data
    wv = w.data[P.index(pw)] if form[1] == "dim" else w.data
    expect_same(r.data, np.maximum(gv, wv), "the larger of the percentile of gust and that of wind speed")
    txt = {(50.0, 95.0): "Typical gusts", (95.0, 100.0): "Extreme gusts"}.get((pg, pw), "<WindGustDiagnostic: wind-gust perc=%3.1f, wind-speed perc=%3.1f>" % (pg, pw))
    expect(r.name() == "wind_speed_of_gust" and r.attributes == dict(ATT, wind_gust_diagnostic=txt) and not r.coords("percentile"), "description", got=(r.name(), r.attributes))
    expect(r.coord("time") == g.coord("time"), "time of the gust", got=r.coord("time"))
    return "gust"


# ------------------------------------------------------------ updraught
def c_upd(tier):
    for u in range(3):
        for mid in (False, True):
            for lead in (0, 2):
                for order in (0, 1):
                    yield ("updraught", u, mid, [lead, order])
    for k in range(11):
        yield ("bad", k, 0, 0)


def upd(case, cov):
    import cubes
    import numpy as np
    from improver.wind_calculations.vertical_updraught import VerticalUpdraught
    from iris.cube import CubeList

    kind, a, mid, z = case
    f = np.float32
    C, P = [0.0, 9.99, 10.0, 10.01, 500.0, 3000.0], [0.0, 4.99, 5.0, 5.01, 20.0, 100.0]
    T = cubes.T0 + 6 * H
    cv = np.array([[x for _ in P] for x in C])
    pv = np.array([[y for y in P] for _ in C])

    def mk(n="atmosphere_convective_available_potential_energy", un="J kg-1", v=cv, lead=0, **kw):
        k = 3.6e6 if un == "m s-1" else 1e3 if un == "kJ kg-1" else 1.0
        v = v / k
        if lead:
            v = np.stack([v, v.T])
        return cubes.grid(v.astype(f), name=n, units=un, leading=[("realization", [0, 1], "1")] if lead else [], attributes=kw.pop("att", ATT), **kw)

    PN = "lwe_precipitation_rate_max"
    if kind == "bad":
        c, p = mk(time=T - H), mk(PN, "mm h-1", pv, time=T, time_bounds=[T - H, T])
        cl = [[c], [c, p, mk("x", "1", cv, time=T)], [c, mk(PN, "mm h-1", pv, time=T, time_bounds=[T - H, T], origin=(1.0, 0.0))], [mk(time=T - H, time_bounds=[T - 2 * H, T - H]), p], [mk(time=T - H, frt=cubes.T0 + H), p], [c, mk(PN, "mm h-1", pv, time=T)], [mk(time=T), p], [mk(time=T - H, att=dict(ATT, mosg__model_configuration="uk_ens")), p], [mk(time=T - 2 * H), p], [mk(time=T - H - 1), p], [mk(time=T - H + 1), p]][a]
        expect(raises(lambda: VerticalUpdraught(model_id_attr=MID).process(CubeList(cl))), "unsuitable input is refused", got=a)
        cov.step()
        return "refused"
    lead, order = z
    un = [("J kg-1", "mm h-1"), ("kJ kg-1", "m s-1"), ("J kg-1", "m s-1")][a]
    c, p = mk(un=un[0], time=T - H, lead=lead), mk(PN, un[1], pv, time=T, time_bounds=[T - H, T], lead=lead)
    with cubes.Unchanged(c, p):
        r = VerticalUpdraught(model_id_attr=MID if mid else None).process(*((p, c) if order else (c, p)))
    cov.step()
    want = np.where(cv < 10, 0, 0.25 * np.sqrt(2 * cv)) + np.where(pv < 5, 0, 7.33 * (pv / 28.7) ** 0.22)
    okc, okp = np.ones(cv.shape, bool), np.ones(cv.shape, bool)
    if a:
        okc = okc & (cv != 10)
        okp = okp & (pv != 5)
    ok = okc & okp
    if lead:
        want, ok = np.stack([want, np.where(cv.T < 10, 0, 0.25 * np.sqrt(2 * cv.T)) + np.where(pv.T < 5, 0, 7.33 * (pv.T / 28.7) ** 0.22)]), np.stack([ok, ok.T])
    expect_close(r.data[ok], want[ok], "updraught from CAPE and precipitation", rtol=1e-5, atol=1e-5)
    expect(r.name() == "maximum_vertical_updraught" and str(r.units) == "m s-1" and r.data.dtype == f and r.attributes == {x: y for x, y in ATT.items() if mid or x != MID}, "description", got=(r.name(), r.attributes))
    expect(r.coord("time") == p.coord("time"), "time and bounds of the precipitation", got=r.coord("time"))
    return "updraught"


# ------------------------------------------------------------ downscaling
MISS = -32767.0
LEV = [5.0, 10.0, 20.0, 50.0, 100.0, 300.0, 700.0, 2000.0]


def column(a, sigma, z0, pp, mo, ppres, modres, z, u):
    """The corrected wind of one column (Howard and Clark 2007)."""
    nan = lambda v: isinstance(v, float) and math.isnan(v)
    n = len(z)
    u = [float(x) for x in u]
    if not (sigma > 0) or not (a > 0):
        return u
    h2 = sigma * math.sqrt(2.0)
    k = min(max(a * math.pi / h2, math.pi / (3 * modres)), 2 * math.pi / ppres)

    def at(h):
        if h < z[0]:
            return u[0] * h / z[0]
        i = max(j for j in range(n) if z[j] <= h)
        if i == n - 1:
            return u[i]
        return u[i] + (h - z[i]) / (z[i + 1] - z[i]) * (u[i + 1] - u[i])

    new = list(u)
    if z0 is not None and z0 > 0 and not nan(z0):
        tp = min(max(-math.log(0.04) + math.log(k * h2), 0.0), 1.0)
        href = max(min(max(tp / k, 1.0), 2.0 * h2), 1.0)
        us = 0.4 * at(href) / math.log(href / z0)
        new = [us * math.log(h / z0) / 0.4 if h < href else v for h, v in zip(z, u)]
    add = [0.0] * n
    if not (nan(pp) or nan(mo) or pp == MISS or mo == MISS):
        v = at(1.0 / k)
        if v > 0:
            add = [math.exp(-k * h) * v * k * (pp - mo) for h in z]
    return [max(p + q, 0.0) for p, q in zip(new, add)]


AOS = [0.0, 0.05, 0.2, 0.5, -1.0]
SIG = [0.0, 2.0, 20.0, 80.0]
Z0 = [0.0, 0.0002, 0.1, 0.5]
DZ = [-150.0, -20.0, 0.0, 60.0, 300.0]
PERM = ["zyx", "yxz", "tzyx", "tyxz", "ztyx", "yxzt", "yxtz", "zyxt"]


def c_down(tier):
    for p in range(4):
        for z0 in (True, False):
            for res in (1500.0, 4000.0):
                for lev3 in (0, 1):
                    yield ("all", p, z0, [res, lev3])
    for perm in PERM:
        for z0 in (True, False):
            for lev3 in (0, 1):
                yield ("order", perm, z0, lev3)
    for miss in range(6):
        for z0 in (True, False):
            yield ("missing", miss, z0, 0)
    for perm in ("zyx", "yxz", "xyz", "yzx", "zxy", "xzy"):
        for wp in ("zyx", "yxz", "tzyx"):
            for n in (0, 1, 2):
                yield ("heights", perm, True, [wp, n])
    for sy, sx in itertools.product((500.0, 1000.0, 4000.0), repeat=2):
        for z0 in (True, False):
            yield ("spacing", [sy, sx], z0, 0)
    for seq in itertools.product(range(3), repeat=3):
        yield ("reuse", list(seq), True, 0)
    for k in range(8):
        yield ("cli", k, 0, 0)
    for k in range(9):
        yield ("bad", k, 0, 0)


def down(case, cov):
    import warnings
    import cubes
    import numpy as np
    from improver.wind_calculations.wind_downscaling import RoughnessCorrection

    kind, a, b, c_ = case
    f = np.float32
    combos = list(itertools.product(AOS, SIG, Z0, DZ))
    ny, nx = 20, 20
    A = np.array([x[0] for x in combos]).reshape(ny, nx)
    S = np.array([x[1] for x in combos]).reshape(ny, nx)
    R = np.array([x[2] for x in combos]).reshape(ny, nx)
    D = np.array([x[3] for x in combos]).reshape(ny, nx)
    M = 200.0 + 10 * (np.arange(ny * nx).reshape(ny, nx) % 7)
    P = M + D
    if kind != "all":
        sel = (slice(3, 20, 4), slice(1, 20, 3))
        A, S, R, M, P = A[sel], S[sel], R[sel], M[sel], P[sel]
        if kind == "heights" and c_[1]:  # as many rows or columns as levels
            k = [None, (8, 7), (6, 8)][c_[1]]
            A, S, R, M, P = (np.resize(q, k) for q in (A, S, R, M, P))
        ny, nx = A.shape
    if kind == "missing":
        arr = [A, S, R, M, P, P][a]
        arr[1::2, ::2] = np.nan if a != 5 else MISS
        if a == 3:
            M[::2, 1::2] = MISS
            M[2, 3] = np.nan
    from iris.coords import AuxCoord

    extra = kind == "all" and a % 2
    WX = [[3, 4, 5, 7, 9, 12, 15, 20], [0, 0, 0, 0, 0, 0, 0, 0], [10, 8, 6, 5, 4, 3, 2, 1], [0.0, 0.5, 1, 2, 4, 2, 8, 3]]

    SP = a if kind == "spacing" else 2000.0

    def anc(v, name, units):
        c = cubes.grid(v.astype(f), name=name, units=units, spacing=SP, time=cubes.T0 if extra else None, frt=cubes.T0 if extra else None, attributes={"title": "anc"})
        if extra and name[0] == "s":
            c.add_aux_coord(AuxCoord(f(1.5), "height", units="m"))
        return c

    def ancs(**kw):
        return [anc(A, "silhouette_roughness", "1"), anc(S, "standard_deviation_of_height_in_grid_cell", "m"), anc(P, "surface_altitude", "m"), anc(M, "surface_altitude", "m")]

    zc = anc(R, "vegetative_roughness_length", "m")

    def wind(k, nt=0):
        """[t,] z, y, x"""
        base = np.array(WX[k % 4], float)[:, None, None] + 0.25 * (np.arange(ny * nx).reshape(1, ny, nx) % 5)
        if k % 4 == 1:
            base = base * 0
        if nt:
            base = np.stack([base * (1 + 0.5 * t) for t in range(nt)])
            return cubes.grid(base.astype(f), name="wind_speed", units="m s-1", leading=[("time", [cubes.T0 + (4 + t) * H for t in range(nt)], cubes.EPOCH), ("height", LEV, "m")], attributes=ATT, spacing=SP)
        return cubes.grid(base.astype(f), name="wind_speed", units="m s-1", leading=[("height", LEV, "m")], attributes=ATT, spacing=SP)

    def want(w, z0, res, z3=None):
        g = w.data.reshape((-1,) + w.shape[-3:]).astype(float)
        o = np.empty(g.shape)
        for t in range(g.shape[0]):
            for j in range(ny):
                for i in range(nx):
                    z = LEV if z3 is None else [float(q) for q in z3[:, j, i]]
                    v = lambda q: float(f(q[j, i]))
                    o[t, :, j, i] = column(v(A), v(S), v(R) if z0 else None, v(P), v(M), 2000.0 if kind != "spacing" else sum(a) / 2, res, z, g[t, :, j, i])
        return o.reshape(w.shape)

    z3 = np.array(LEV)[:, None, None] * (1 + 0.02 * (np.arange(ny * nx).reshape(1, ny, nx) % 4))
    hc = cubes.grid(z3.astype(f), name="height_levels", units="m", leading=[("height", LEV, "m")], time=None, frt=None)
    if kind in ("all", "missing"):
        res, lev3 = c_ if kind == "all" else (1500.0, 0)
        w = wind(a if kind == "all" else 0)
        an = ancs()
        with cubes.Unchanged(w, zc, hc, *an):
            r = RoughnessCorrection(*an, res, z0_cube=zc if b else None, height_levels_cube=hc if lev3 else None).process(w)
        cov.step()
        expect_close(r.data, want(w, b, res, z3.astype(f) if lev3 else None), "downscaled wind", rtol=2e-3, atol=2e-3)
        expect((r.data >= 0).all(), "no negative wind", got=r.data.min())
        k = r.copy(w.data)
        cubes.expect_cube(k, w, "the description is that of the wind")
        return "downscaling"
    if kind == "spacing":
        w = wind(0)
        r = RoughnessCorrection(*ancs(), 1500.0, z0_cube=zc if b else None).process(w)
        cov.step()
        expect_close(r.data, want(w, b, 1500.0), "downscaled wind on a grid of this spacing", rtol=2e-3, atol=2e-3)
        return "spacing"
    if kind == "heights":
        names = {"t": "time", "z": "height", "y": Y, "x": X}
        w = wind(0, 2 if "t" in c_[0] else 0)
        v = want(w, True, 1500.0, z3.astype(f))
        w = cubes.transposed(w, [names[q] for q in c_[0]])
        h = cubes.transposed(hc, [names[q] for q in a])
        r = RoughnessCorrection(*ancs(), 1500.0, z0_cube=zc, height_levels_cube=h).process(w)
        cov.step()
        expect_close(cubes.arr(r, *[names[q] for q in ("tzyx" if "t" in c_[0] else "zyx")]), v, "downscaled wind with heights in any order of dimensions", rtol=2e-3, atol=2e-3)
        return "heights"
    if kind == "order":
        w = wind(0, 2 if "t" in a else 0)
        v = want(w, b, 1500.0, z3.astype(f) if c_ else None)
        names = {"t": "time", "z": "height", "y": Y, "x": X}
        base = "tzyx" if "t" in a else "zyx"
        w = cubes.transposed(w, [names[q] for q in a])
        an = ancs()
        with cubes.Unchanged(w, *an):
            r = RoughnessCorrection(*an, 1500.0, z0_cube=zc if b else None, height_levels_cube=hc if c_ else None).process(w)
        cov.step()
        expect([q.name() for q in r.coords(dim_coords=True)] == [names[q] for q in a], "order of the dimensions", got=[q.name() for q in r.coords(dim_coords=True)])
        expect_close(cubes.arr(r, *[names[q] for q in base]), v, "downscaled wind in any order of dimensions", rtol=2e-3, atol=2e-3)
        return "order"
    if kind == "reuse":
        pl = RoughnessCorrection(*ancs(), 1500.0, z0_cube=zc)
        for k in a:
            w = wind(k if k != 1 else 3, 2 if k == 2 else 0)
            r = pl.process(w)
            cov.step()
            expect_close(r.data, want(w, True, 1500.0), "downscaled wind when a plugin is used again", rtol=2e-3, atol=2e-3)
        return "reuse"
    if kind == "cli":
        from improver.cli import command_executor

        w = wind(0)
        v = want(w, True, 1500.0)
        lead = a % 2
        if lead:
            w2 = wind(3)
            v = np.stack([v, want(w2, True, 1500.0)])
            d = np.stack([w.data, w2.data])
            w = cubes.grid(d, name="wind_speed", units="m s-1", leading=[("realization", [0, 1], "1"), ("height", LEV, "m")], attributes=ATT)
        an = ancs()
        opts = ["--model-resolution", "1500.0"]
        lv = a // 2
        if lv:
            opts += ["--output-height-level", ["", "20.0", "2.0", "700.0"][lv]] + (["--output-height-level-units", "km"] if lv == 2 else [])
        r = command_executor("improver", "wind-downscaling", w, an[1], an[2], an[3], an[0], zc, *opts)
        cov.step()
        if lv:
            i = [None, 2, 7, 6][lv]
            v = v[..., i, :, :]
        g = cubes.arr(r, *((["realization"] if lead else []) + ([] if lv else ["height"]) + [Y, X]))
        expect_close(g, v, "downscaled wind of the command", rtol=2e-3, atol=2e-3)
        return "cli"
    an = ancs()
    w = wind(0)

    def go(an=an, w=w, z=zc, **kw):
        return RoughnessCorrection(*an, 1500.0, z0_cube=z, **kw).process(w)

    def neg():
        for pos in (0, 17, w.data.size - 1):
            q = w.copy()
            q.data.flat[pos] = -0.1
            if not raises(lambda: go(w=q)):
                return
            q.data.flat[pos] = np.nan
            if not raises(lambda: go(w=q)):
                return
        raise ValueError

    def units(k, un):
        z = [c.copy() for c in an]
        z[k].units = un
        return go(an=z)

    def other(k):
        z = [c.copy() for c in an]
        z[k] = cubes.grid(z[k].data, name="x", units=str(z[k].units), time=None, frt=None, origin=(1.0, 0.0))
        return go(an=z)

    bad3 = hc.copy()
    bad3.data[0, 0, 0] = np.nan
    tests = [neg, lambda: units(1, "km"), lambda: units(0, "m"), lambda: units(3, "1"), lambda: other(0), lambda: other(3), lambda: go(w=[w]), lambda: go(height_levels_cube=bad3), lambda: go(z=anc(R, "z0", "cm"))]
    expect(raises(tests[a]), "unsuitable input is refused", got=a)
    cov.step()
    return "refused"


SECTIONS = [Section("direction", c_dir, dirs), Section("components", c_comp, comp), Section("gust", c_gust, gust), Section("updraught", c_upd, upd), Section("downscaling", c_down, down)]

if __name__ == "__main__":
    main(globals())
