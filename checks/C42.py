"""C42: nowcasting (accumulation, advection, extrapolation, orographic enhancement of radar, radar masks)."""
import itertools
import math

from mc import Section, Violation, expect, expect_close, expect_same, main, raises

PROPERTY = "C42"
ATT = {"title": "T", "source": "S", "institution": "I"}
Y, X = "projection_y_coordinate", "projection_x_coordinate"
NAN = float("nan")


def filled(a):
    import numpy as np

    return np.ma.filled(np.ma.masked_array(a).astype(float), NAN)


# ------------------------------------------------------------ accumulation
def c_acc(tier):
    for n in (2, 3, 4, 5, 6, 7):
        for step in (60, 300, 900):
            for units in (("m s-1", "m"), ("mm h-1", "mm"), ("m s-1", "mm")):
                yield ("default", n, step, list(units))
                for k in range(1, n):
                    yield ("period", n, step, [k] + list(units))
    for n in (2, 3, 4):
        for p in itertools.permutations(range(n)):
            yield ("order", n, 300, list(p))
    for n in (4, 5):
        for r in range(1, n):
            for sub in itertools.combinations(range(1, n), r):
                for k in range(1, 4):
                    yield ("leads", n, k, list(sub))
    for m in range(16):
        yield ("masked", 4, 300, m)
    for seq in itertools.product(range(4), repeat=3):
        yield ("reuse", 0, 0, list(seq))
    for k in range(6):
        yield ("bad", k, 0, 0)


def acc(case, cov):
    import cubes
    import numpy as np
    from improver.nowcasting.accumulation import Accumulation

    kind, n, step, z = case
    f = np.float32

    def rates(n, step, units="m s-1", mask=0, off=0, shift=0):
        out = []
        for i in range(n):
            d = (np.arange(12).reshape(3, 4) * (i + 1) % 7 + i * i + off) * (1e-6 if units == "m s-1" else 1.5)
            d = d.astype(f)
            if mask:
                d = np.ma.masked_array(d, np.zeros(d.shape, bool))
                d[i % 3, 1] = np.ma.masked if mask >> i & 1 else d[i % 3, 1]
            out.append(cubes.grid(d, name="lwe_precipitation_rate", units=units, attributes=ATT, time=cubes.T0 + i * step + shift))
        return out

    def judge(pl, cs, step, period, leads, units, msg):
        from iris.cube import CubeList

        by = sorted(cs, key=lambda c: c.coord("time").points[0])
        with cubes.Unchanged(*cs):
            r = pl.process(CubeList(cs))
        cov.step()
        expect(len(r) == len(leads), msg + ": one accumulation for each lead time of at least the period", len(leads), len(r))
        k = 1 if str(cs[0].units) == "m s-1" else 1 / 3.6e6
        for c, l in zip(r, leads):
            w = None
            for a, b in zip(by[(l - period) // step: l // step], by[(l - period) // step + 1: l // step + 1]):
                q = (filled(a.data) + filled(b.data)) * k * step / 2
                w = q if w is None else w + q
            w = w * (1000 if units == "mm" else 1)
            expect_same(np.isnan(filled(c.data)), np.isnan(w), msg + ": missing where any rate is missing")
            expect_close(np.nan_to_num(filled(c.data)), np.nan_to_num(w), msg + ": accumulation by the trapezium rule", rtol=1e-5, atol=1e-10)
            expect(c.name() == "lwe_thickness_of_precipitation_amount" and str(c.units) == units and c.data.dtype == f and c.attributes == ATT, msg + ": description", got=(c.name(), c.units, c.data.dtype, c.attributes))
            t, fp = c.coord("time"), c.coord("forecast_period")
            t0 = by[0].coord("time").points[0]
            expect(t.points.tolist() == [t0 + l] and t.bounds.tolist() == [[t0 + l - period, t0 + l]], msg + ": time", got=(t.points, t.bounds))
            f0 = by[0].coord("forecast_period").points[0]
            expect(fp.points.tolist() == [f0 + l] and fp.bounds.tolist() == [[f0 + l - period, f0 + l]], msg + ": forecast period", got=(fp.points, fp.bounds))
            expect([(m.method, m.coord_names) for m in c.cell_methods] == [("sum", ("time",))], msg + ": cell method", got=c.cell_methods)

    if kind == "default":
        judge(Accumulation(accumulation_units=z[1]), rates(n, step, z[0]), step, (n - 1) * step, [(n - 1) * step], z[1], "whole span")
        return "default"
    if kind == "period":
        k, ru, au = z
        judge(Accumulation(accumulation_units=au, accumulation_period=k * step), rates(n, step, ru), step, k * step, [i * step for i in range(1, n) if i >= k], au, "period")
        return "period"
    if kind == "order":
        cs = rates(n, step)
        judge(Accumulation(accumulation_period=step), [cs[i] for i in z], step, step, [i * step for i in range(1, n)], "m", "any order of cubes") if z == sorted(z) else None
        r0 = Accumulation(accumulation_period=2 * step if n > 2 else step, forecast_periods=np.array([i * step for i in range(1, n)])).process([cs[i] for i in z])
        r1 = Accumulation(accumulation_period=2 * step if n > 2 else step, forecast_periods=np.array([i * step for i in range(1, n)])).process(cs)
        cov.step(2)
        expect(len(r0) == len(r1), "number of accumulations in any order")
        for a, b in zip(r0, r1):
            cubes.expect_cube(a, b, "any order of the cubes")
        return "order"
    if kind == "leads":
        k = step
        cs = rates(n, 300)
        leads = [i * 300 for i in z]
        for fps in (np.array(leads), [l for l in leads]):
            if isinstance(fps, list):
                fps = np.array(fps, np.int64)
            judge(Accumulation(accumulation_period=k * 300, forecast_periods=fps), cs, 300, k * 300, [l for l in leads if l >= k * 300], "m", "lead times asked")
        return "leads"
    if kind == "masked":
        judge(Accumulation(accumulation_period=600), rates(4, 300, mask=z + 16), 300, 600, [600, 900], "m", "masked")
        return "masked"
    if kind == "reuse":
        pl = Accumulation()
        spec = [(3, 300), (5, 300), (4, 900), (2, 60)]
        for i in z:
            n, step = spec[i]
            judge(pl, rates(n, step, off=i), step, (n - 1) * step, [(n - 1) * step], "m", "a plugin used again")
        pl = Accumulation(accumulation_period=900)
        spec = [(4, 300), (7, 300), (3, 900), (16, 60)]
        for i in z:
            n, step = spec[i]
            judge(pl, rates(n, step, off=i), step, 900, [l * step for l in range(1, n) if l * step >= 900], "m", "a plugin with a period used again")
        return "reuse"
    cs = rates(4, 300)
    late = rates(5, 300)
    del late[2]
    tests = [lambda: Accumulation().process(late), lambda: Accumulation(accumulation_period=299).process(cs), lambda: Accumulation(accumulation_period=450).process(cs),
             lambda: Accumulation(accumulation_period=750).process(cs), lambda: Accumulation(accumulation_units="K").process(cs), lambda: Accumulation().process(rates(4, 300)[:1])]
    expect(raises(tests[n]), "unsuitable rates and periods are refused", got=n)
    cov.step()
    return "refused"


# ------------------------------------------------------------ advection
VEL = [-3.0, -1.5, -1.0, -0.25, 0.0, 0.5, 1.0, 1.75, 4.0]


def advected(d, u, v):
    """Bilinear semi-Lagrangian step of d [y, x] by u, v grid lengths; NaN where missing."""
    import numpy as np

    ny, nx = d.shape
    o = np.full(d.shape, NAN)
    for j in range(ny):
        for i in range(nx):
            x, y = i - u[j, i], j - v[j, i]
            if not (0 <= x < nx and 0 <= y < ny):
                continue
            x0, y0 = int(math.floor(x)), int(math.floor(y))
            s = 0.0
            for a, wa in ((x0, 1 - (x - x0)), (x0 + 1, x - x0)):
                for b, wb in ((y0, 1 - (y - y0)), (y0 + 1, y - y0)):
                    if a < nx and b < ny:
                        s += d[b, a] * wa * wb
            o[j, i] = s
    return o


def c_adv(tier):
    for u in VEL:
        for v in VEL:
            yield ("uniform", u, v, 0)
    for pat in range(12):
        for unit in ("m s-1", "km h-1", ["m s-1", "km h-1"], ["cm s-1", "m s-1"], ["km h-1", "m min-1"]):
            for cu in ("m", "km"):
                for desc in (False, True):
                    yield ("pattern", pat, unit, [cu, desc])
    for t in (0.25, 0.4, 0.6, 1, 2, 30, 60, 61, 900, 3600, 86399, 86400, 86401, 90000, 172800, 200000):
        for pat in range(3):
            yield ("step", t, pat, 0)
    for t in (0, 1, 59, 60, 900, 86400, 90000):
        for att in range(5):
            yield ("meta", t, att, 0)
    for k in range(9):
        yield ("bad", k, 0, 0)


def adv(case, cov):
    import datetime
    import warnings
    import cubes
    import numpy as np
    from improver.nowcasting.forecasting import AdvectField

    kind, a, b, z = case
    f = np.float32
    ny, nx = 4, 5
    base = np.array([[3, 0, 5, 1, 8], [2, 9, 4, 7, 0], [6, 1, 0, 3, 5], [0, 4, 8, 2, 7]], float)
    SY, SX, DT = 1024.0, 2048.0, 1024

    def cube(d, desc=False, cu="m", name="reflectivity", units="dBZ", dt=f, **kw):
        c = cubes.grid(np.ma.masked_array(d.astype(dt), d.mask) if isinstance(d, np.ma.MaskedArray) else d.astype(dt), name=name, units=units, spacing=(-SY if desc else SY, SX), attributes=kw.pop("attributes", ATT), **kw)
        if cu != "m":
            for ax in (X, Y):
                c.coord(ax).convert_units(cu)
        return c

    def vel(u, v, units="m s-1", **kw):
        """Cubes of velocities moving u, v grid lengths in DT along the axes of increasing index."""
        s = -1 if kw.get("desc") else 1
        ux, uy = (units, units) if isinstance(units, str) else units
        kx, ky = ({"m s-1": 1.0, "km h-1": 3.6, "cm s-1": 100.0, "m min-1": 60.0}[q] for q in (ux, uy))
        dt = kw.pop("step", DT)
        return (cube(u * SX / dt * kx, name="advection_velocity_x", units=ux, time=None, frt=None, **kw), cube(s * v * SY / dt * ky, name="advection_velocity_y", units=uy, time=None, frt=None, **kw))

    def judge(pl, c, u, v, msg, step=DT):
        d = filled(c.data)
        with cubes.Unchanged(c):
            r = pl.process(c, datetime.timedelta(seconds=step))
        cov.step()
        w = advected(d, u, v)
        g = filled(r.data)
        expect_same(np.isnan(g), np.isnan(w), msg + ": missing where the source is outside or a surrounding point is missing")
        expect_close(np.nan_to_num(g), np.nan_to_num(w), msg + ": value at the source", rtol=1e-5, atol=1e-4)
        expect(isinstance(r.data, np.ma.MaskedArray) and r.data.dtype == f, msg + ": masked float32 data", got=r.data.dtype)
        return r

    if kind == "uniform":
        u, v = np.full((ny, nx), a), np.full((ny, nx), b)
        vx, vy = vel(u, v)
        pl = AdvectField(vx, vy)
        judge(pl, cube(base), u, v, "advection")
        judge(pl, cube(np.ma.masked_array(base, np.zeros(base.shape, bool))), u, v, "advection with an empty mask")
        for k in range(ny * nx):
            m = np.zeros(ny * nx, bool)
            m[k] = True
            if (k + int(4 * (a + b))) % 2 == 0:
                m[(k * 7 + 3) % 20] = True
            judge(pl, cube(np.ma.masked_array(base + 1, m.reshape(ny, nx))), u, v, "advection of masked data")
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            d = base.copy()
            d[1, 2] = NAN
            judge(pl, cube(d), u, v, "advection of data with NaN")
        return "uniform"
    if kind == "pattern":
        cu, desc = z
        i = np.arange(ny * nx).reshape(ny, nx)
        V = np.array([-2.3, -1.4, -0.3, 0.2, 0.45, 1.3, 2.6])
        u, v = V[(i * (a + 1) + a) % 7], V[(i * (a + 3) + i // 5 * a + 2) % 7]
        vx, vy = vel(u, v, b, cu=cu, desc=desc)
        with cubes.Unchanged(vx, vy):
            pl = AdvectField(vx, vy)
            judge(pl, cube(base, desc, cu), u, v, "velocities of each point")
            m = (i % 5 == a % 5)
            judge(pl, cube(np.ma.masked_array(base, m), desc, cu), u, v, "velocities of each point, masked")
        return "pattern"
    if kind == "step":
        # the step is taken to the nearest second
        i = np.arange(ny * nx).reshape(ny, nx)
        V = np.array([-2.3, -1.4, -0.3, 0.2, 0.45, 1.3, 2.6])
        n = round(a)
        u, v = V[(i * (b + 1) + b) % 7], V[(i * (b + 3) + i // 5 * b + 2) % 7]
        vx, vy = vel(u, v, step=max(n, 1))
        r = judge(AdvectField(vx, vy), cube(base), u * (n > 0), v * (n > 0), "a step of any length", a) if n else AdvectField(vx, vy).process(cube(base), datetime.timedelta(seconds=a))
        if n == 0:
            cov.step()
            expect_close(filled(r.data), base, "less than half a second moves nothing")
        return "step"
    u = np.full((ny, nx), 0.5)
    if kind == "meta":
        vx, vy = vel(u, u)
        extra = [None, {"title": "Nowcast", "mosg__model_configuration": "nc_det"}, {"institution": "remove", "source": "Other"}, None, {}][b]
        at = dict(ATT, mosg__grid="x")
        if b == 1:
            at.pop("institution")
        if b == 3:
            at.pop("source")
        if b == 4:
            at["source"] = "unknown"
        for tform in (0, 1, 2):
            c = cube(base, attributes=at, frt=None if tform == 1 else cubes.T0)
            if tform == 2:
                c.coord("time").convert_units("hours since 1970-01-01 00:00:00")
                c.coord("forecast_reference_time").convert_units("hours since 1970-01-01 00:00:00")
            with cubes.Unchanged(c, vx, vy):
                r = AdvectField(vx, vy, extra).process(c, datetime.timedelta(seconds=a))
                cov.step()
                if a == 0:
                    expect_close(r.data, base, "nothing moves in no time")
                    r.data[...] = -1
            t, frt, fp = r.coord("time"), r.coord("forecast_reference_time"), r.coord("forecast_period")
            t0 = cubes.T0 + 4 * 3600
            expect(t.points.tolist() == [t0 + a] and t.points.dtype == np.int64 and str(t.units) == cubes.EPOCH, "time is later by the step", t0 + a, (t.points, t.units))
            expect(frt.points.tolist() == [t0] and frt.points.dtype == np.int64 and str(frt.units) == cubes.EPOCH, "forecast reference time is the time of the analysis", t0, frt.points)
            expect(fp.points.tolist() == [a] and fp.points.dtype == np.int32 and str(fp.units) == "seconds", "forecast period is the step", a, fp.points)
            w = {"title": "unknown", "institution": "unknown"}
            w.update({k: q for k, q in at.items() if k in ("title", "institution")})
            w["source"] = "I Nowcast" if "institution" in at else "Nowcast"
            for k, q in (extra or {}).items():
                if q == "remove":
                    w.pop(k)
                else:
                    w[k] = q
            g = dict(r.attributes)
            h = g.pop("history", "")
            expect(g == w and h.endswith(": Nowcast"), "attributes", w, (g, h))
            expect(r.name() == "reflectivity" and str(r.units) == "dBZ" and [q.name() for q in r.coords(dim_coords=True)] == [Y, X], "description", got=r.name())
        return "metadata"
    vx, vy = vel(u, u)
    step = datetime.timedelta(seconds=60)
    other = cubes.grid(np.zeros((ny, nx), f), name="v", units="m s-1", spacing=(SY, SX), origin=(0.0, 1.0), time=None, frt=None)
    big = cubes.grid(np.zeros((2, ny, nx), f), name="v", units="m s-1", spacing=(SY, SX), leading=[("realization", [0, 1], "1")], time=None, frt=None)
    notime = cube(base, time=None, frt=None)
    line = vx[0].copy()
    line.remove_coord(Y)
    tests = [lambda: AdvectField(vx, other), lambda: AdvectField(other, vy), lambda: AdvectField(big, big), lambda: AdvectField(line, line), lambda: AdvectField(vx, vy).process(notime, step),
             lambda: AdvectField(vx, vy).process(cube(base, attributes=ATT, origin=(1.0, 0.0)), step), lambda: AdvectField(vx, vy).process(cube(base, attributes=ATT, origin=(0.0, 1.0)), step),
             lambda: AdvectField(cube(u, name="v", units="K", time=None, frt=None), vy), lambda: AdvectField(vx, vy).process(cubes.grid(np.zeros((2, ny, nx), f), spacing=(SY, SX), leading=[("realization", [0, 1], "1")]), step)]
    expect(raises(tests[a]), "unmatched grids and other dimensions are refused", got=a)
    cov.step()
    return "refused"


# ------------------------------------------------------------ orographic enhancement of radar
THR = 1 / 32.0
PV = [0.0, 0.01, 0.03, 0.032, 0.05, 0.5, 2.0]
OV = [-0.3, 0.0, 0.01, 0.02, 0.6, 5.0]


def enhanced(p, o, op):
    import numpy as np

    e = np.where(p < THR, 0.0, o)
    if op == "add":
        return p + e
    r = p - e
    return np.where((p >= THR) & (r <= THR), THR, r)


def c_oe(tier):
    for op in ("add", "subtract"):
        for pu in ("mm h-1", "m s-1"):
            for ou in ("mm h-1", "m s-1"):
                for mask in range(4):
                    for times in range(5):
                        yield ("apply", op, [pu, ou], [mask, times])
    for intv, mx in ((15, 60), (15, 50), (30, 60), (7, 30), (60, 60)):
        for oe in (False, True):
            for u in (("mm h-1", "mm h-1"), ("m s-1", "mm h-1")):
                for m in (0, 1):
                    yield ("extrapolate", [intv, mx], list(u), [oe, m])
    for k in range(6):
        yield ("bad", k, 0, 0)


def oe(case, cov):
    import cubes
    import numpy as np
    from improver.nowcasting.forecasting import CreateExtrapolationForecast
    from improver.nowcasting.utilities import ApplyOrographicEnhancement
    from iris.cube import Cube, CubeList

    kind, a, b, z = case
    f = np.float32
    fac = lambda un: 1.0 if un == "mm h-1" else 1 / 3.6e6
    T = cubes.T0 + 4 * 3600

    def rate(d, un, name="lwe_precipitation_rate", **kw):
        m = d.mask if isinstance(d, np.ma.MaskedArray) else None
        q = (np.asarray(d) * fac(un)).astype(f)
        return cubes.grid(np.ma.masked_array(q, m) if m is not None else q, name=name, units=un, attributes=ATT, **kw)

    if kind == "apply":
        (pu, ou), (mask, times) = b, z
        p = np.array([[x for _ in OV] for x in PV])
        o = np.array([[y for y in OV] for _ in PV])
        m = [None, np.zeros(p.shape, bool), (np.arange(p.size) % 3 == 0).reshape(p.shape), np.ones(p.shape, bool)][mask]
        pm = np.ma.masked_array(p, m) if m is not None else p
        # times of the enhancement cube and of the precipitation cubes
        ot, pt, idx = [([T], [T], [0]), ([T], [T + 1800], [0]), ([T], [T - 1800, T], [0, 0]), ([T - 3600, T, T + 3600], [T + 1700, T + 3000, T - 3600], [1, 2, 0]), ([T, T + 900, T + 1800], [T + 900, T + 2000, T - 10], [1, 2, 0])][times]
        os_ = [o * (1 + 0.5 * k) for k in range(len(ot))]
        oc = rate(np.stack(os_) if len(ot) > 1 else os_[0], ou, name="orographic_enhancement", leading=[("time", ot, cubes.EPOCH)] if len(ot) > 1 else [], time=None if len(ot) > 1 else ot[0])
        pcs = [rate(pm, pu, time=t) for t in pt]
        arg = CubeList(pcs) if len(pcs) > 1 or mask % 2 else pcs[0]
        with cubes.Unchanged(oc, *pcs):
            r = ApplyOrographicEnhancement(a).process(arg, oc)
        cov.step()
        expect(isinstance(r, CubeList) and len(r) == len(pcs), "one result for each cube")
        for c, pc, k in zip(r, pcs, idx):
            w = enhanced(p, os_[k], a)
            if m is not None:
                expect_same(np.ma.getmaskarray(c.data), m, "the mask is that of the precipitation")
                ok = ~m
            else:
                ok = np.ones(p.shape, bool)
            expect_close(np.ma.getdata(c.data)[ok] / fac(pu), w[ok], "enhancement where it rains, at least the minimum rate where subtracted", rtol=1e-5, atol=1e-6)
            q = c.copy(pc.data)
            cubes.expect_cube(q, pc, "the description is that of the precipitation")
            expect(c.data.dtype == f, "float32", got=c.data.dtype)
        return "apply"
    ny, nx = 4, 5
    base = np.array([[3, 0, 0.5, 1, 8], [2, 0.9, 4, 0.01, 0], [6, 0.05, 0, 3, 5], [0, 4, 8, 2, 7]], float)
    SP = 2000.0
    if kind == "extrapolate":
        (intv, mx), (pu, ou), (with_oe, m) = a, b, z
        u = np.full((ny, nx), 0.3)
        v = np.full((ny, nx), -0.2)
        vx, vy = [cubes.grid((q * SP / (intv * 60)).astype(f), name="v" + n, units="m s-1", time=None, frt=None, spacing=SP) for q, n in ((u, "x"), (v, "y"))]
        d = np.ma.masked_array(base, np.arange(20).reshape(4, 5) % 7 == 3) if m else base
        c = rate(d, pu, name="lwe_precipitation_rate" if with_oe else "other_rate", spacing=SP)
        ts = [T + 900 * k for k in range(6)]
        os_ = [(0.3 + 0.1 * k) * (np.arange(20).reshape(4, 5) % 4) for k in range(6)]
        oc = rate(np.stack(os_), ou, name="orographic_enhancement", leading=[("time", ts, cubes.EPOCH)], spacing=SP) if with_oe else None
        with cubes.Unchanged(c, vx, vy, oc):
            pl = CreateExtrapolationForecast(c, vx, vy, orographic_enhancement_cube=oc, attributes_dict={"title": "Nowcast"})
            r = pl.process(intv, mx)
            again = pl.process(intv, mx)
        cov.step()
        leads = list(range(0, mx + 1, intv))
        expect(len(r) == len(leads), "one forecast for each lead time up to the maximum", len(leads), len(r))
        for k, (q, l, q2) in enumerate(zip(r, leads, again)):
            s = filled(d)
            if with_oe:
                s = enhanced(s, os_[0], "subtract")
            w = advected(s, u * k, v * k) if k else s
            if with_oe:
                near = min(range(6), key=lambda i: abs(ts[i] - T - l * 60))
                w = np.where(np.isnan(w), w, enhanced(np.nan_to_num(w), os_[near], "add"))
            g = filled(q.data) / fac(pu)
            expect_same(np.isnan(g), np.isnan(w), "missing points of the forecast")
            expect_close(np.nan_to_num(g), np.nan_to_num(w), "the field without enhancement moves, the enhancement stays", rtol=1e-4, atol=1e-4)
            expect(q.coord("forecast_period").points.tolist() == [l * 60] and q.coord("time").points.tolist() == [T + l * 60] and q.attributes["title"] == "Nowcast" and str(q.units) == pu, "lead time", l, (q.coord("forecast_period").points, q.attributes))
            expect_close(filled(q2.data), filled(q.data), "the same again")
        return "extrapolate"
    p, o = rate(base, "mm h-1"), rate(base, "mm h-1", name="orographic_enhancement")
    late = rate(base, "mm h-1", time=T + 1801)
    vx = cubes.grid(np.ones((ny, nx), f), name="vx", units="m s-1", time=None, frt=None, spacing=SP)
    tests = [lambda: ApplyOrographicEnhancement("multiply").process(p, o), lambda: ApplyOrographicEnhancement("add").process(late, o), lambda: ApplyOrographicEnhancement("add").process(p, rate(base, "mm h-1", time=T + 1801)),
             lambda: CreateExtrapolationForecast(p, vx, vx), lambda: CreateExtrapolationForecast(rate(base, "mm h-1", name="rainfall_rate"), vx, vx), lambda: CreateExtrapolationForecast(p, vx, None, o)]
    expect(raises(tests[a]), "unsuitable operations and times are refused", got=a)
    cov.step()
    return "refused"


# ------------------------------------------------------------ radar masks
def c_radar(tier):
    for h in range(1, 7):
        for w in range(1, 7):
            for bg in range(5):
                yield ("hole", h, w, bg)
    for k in range(24):
        yield ("holes", k, 0, 0)
    for un in ("mm h-1", "m s-1"):
        for k in range(3):
            yield ("full", un, k, 0)
    for lead in (0, 1, 3):
        for m in range(3):
            for s in range(5):
                yield ("coverage", lead, m, s)
    for k in range(3):
        yield ("bad", k, 0, 0)


def radar(case, cov):
    import warnings
    import cubes
    import numpy as np
    from improver.nowcasting.utilities import ExtendRadarMask, FillRadarHoles

    kind, a, b, z = case
    f = np.float32
    n = 20
    i = np.arange(n * n).reshape(n, n)

    def background(k):
        return [np.where(i % 9 == 4, 0.0, 0.03 + (i * 7 % 13) * 0.2), 0.03 + (i * 5 % 11) * 0.7, np.where((i // n) < 9, 0.0, 0.1 * (1 + i % 5)), np.where(i % 17 == 4, 0.0005, 0.03 + (i * 7 % 13) * 0.2), np.where(i % 17 == 4, 0.0011, 0.03 + (i * 7 % 13) * 0.2)][k].astype(f)

    def judge(d, m, un="mm h-1"):
        k = 1.0 if un == "mm h-1" else 1 / 3.6e6
        c = cubes.grid(np.ma.masked_array((d * k).astype(f), m), name="lwe_precipitation_rate", units=un, attributes=ATT)
        with cubes.Unchanged(c), warnings.catch_warnings():
            warnings.simplefilter("ignore")
            r = FillRadarHoles().process(c)
        cov.step()
        d = d.astype(f).astype(float)
        w, wm = d.copy(), m.copy()
        for j, q in zip(*np.nonzero(m)):
            if j < 4 or q < 4 or j >= n - 4 or q >= n - 4:
                inside = m[max(j - 4, 0):j + 5, max(q - 4, 0):q + 5]
                cnt = 81 - inside.size + inside.sum()
            else:
                cnt = m[j - 4:j + 5, q - 4:q + 5].sum()
            if cnt >= 24.3:
                continue
            s = (slice(max(j - 2, 0), j + 3), slice(max(q - 2, 0), q + 3))
            v = d[s][~m[s]]
            w[j, q] = 10 ** np.mean(np.log10(v)) if len(v) and (v > 0.001).all() else 0.0
            wm[j, q] = False
        expect_same(np.ma.getmaskarray(r.data), wm, "points are filled where fewer than 30% of the 9 x 9 window are missing")
        expect_close(np.ma.getdata(r.data)[~wm] / k, w[~wm], "the geometric mean of the valid points of the 5 x 5 window, others unchanged", rtol=1e-4, atol=1e-6)
        q = r.copy(c.data)
        cubes.expect_cube(q, c, "the description is unchanged")
        expect(r.data.dtype == f, "float32", got=r.data.dtype)

    if kind == "hole":
        for y, x in ((7, 8), (0, 0), (n - a, 9), (3, 3), (4, n - b - 4)):
            m = np.zeros((n, n), bool)
            m[y:y + a, x:x + b] = True
            judge(background(z), m)
        return "hole"
    if kind == "holes":
        m = (i * (a + 3) // 7 + i // n * a) % (3 + a % 9) == 0
        judge(background(a % 5), m)
        m2 = m.copy()
        m2[:, : a % 7] = False
        m2[12:] = False
        judge(background((a + 1) % 5), m2, "m s-1")
        return "holes"
    if kind == "full":
        d = background(b)
        judge(d, np.zeros((n, n), bool), a)
        k = 1.0 if a == "mm h-1" else 1 / 3.6e6
        c = cubes.grid(np.ma.masked_array((d * k).astype(f)), name="lwe_precipitation_rate", units=a, attributes=ATT)
        r = FillRadarHoles().process(c)
        cov.step()
        expect_close(r.data, c.data, "nothing to fill", rtol=1e-5, atol=1e-12)
        return "full"
    lead = [("time", [cubes.T0 + 300 * k for k in range(a or 1)], cubes.EPOCH)] if kind == "coverage" and a else []
    if kind == "coverage":
        sh = ((a,) if a else ()) + (4, 6)
        q = np.arange(int(np.prod(sh))).reshape(sh)
        d = (q % 11).astype(f)
        cv = (q * (z + 1) + z) % 5
        m = [None, np.zeros(sh, bool), q % 4 == 1][b]
        kw = dict(leading=lead, attributes=ATT, frt=None)
        if lead:
            kw["time"] = None
        c = cubes.grid(np.ma.masked_array(d, m) if m is not None else np.ma.masked_array(d), name="lwe_precipitation_rate", units="mm h-1", **kw)
        g = cubes.grid(cv.astype(np.int32), name="radar_coverage", units="1", **kw)
        with cubes.Unchanged(c, g):
            r = ExtendRadarMask().process(c, g)
        cov.step()
        names = ["time"] if a > 1 else []
        gd = cubes.arr(r, *names, Y, X)
        w = ~np.isin(cv, [1, 2])
        if a == 1:
            w, d = w[0], d[0]
        expect_same(np.ma.getmaskarray(gd).reshape(w.shape), w, "masked exactly where the coverage is not 1 or 2")
        expect_close(np.ma.getdata(gd).reshape(w.shape)[~w], d[~w], "other data unchanged")
        expect(r.name() == "lwe_precipitation_rate" and r.attributes == ATT and str(r.units) == "mm h-1", "description", got=r.name())
        return "coverage"
    c = cubes.grid(np.ma.masked_array(np.zeros((4, 6), f)), frt=None)
    bad = [cubes.grid(np.ones((4, 6), f), frt=None, origin=(1.0, 0.0)), cubes.grid(np.ones((4, 6), f), frt=None, time=cubes.T0), cubes.grid(np.ones((4, 6), f), time=None, frt=None)][a]
    expect(raises(lambda: ExtendRadarMask().process(c, bad)), "a composite of other coordinates is refused", got=a)
    cov.step()
    return "refused"


SECTIONS = [Section("accumulation", c_acc, acc), Section("advection", c_adv, adv), Section("enhancement", c_oe, oe), Section("radar", c_radar, radar)]

if __name__ == "__main__":
    main(globals())
