"""C44: orographic enhancement, optical flow and extrapolation nowcasts."""
import itertools
import math

from mc import Section, Violation, expect, expect_close, expect_same, main, raises
import C38 as P38
import C42 as P42

PROPERTY = "C44"
ATT = {"title": "T", "source": "S", "institution": "I"}
Y, X = "projection_y_coordinate", "projection_x_coordinate"
NAN = float("nan")
H = 3600


# ------------------------------------------------------------ orographic enhancement
def bilinear(v, y0, x0, s, ys, xs):
    """v [y, x] at y0 + s j, x0 + s i, evaluated on the grid ys, xs inside."""
    import numpy as np

    o = np.empty((len(ys), len(xs)))
    for a, y in enumerate(ys):
        for b, x in enumerate(xs):
            p, q = (y - y0) / s, (x - x0) / s
            j, i = min(max(int(math.floor(p)), 0), v.shape[0] - 2), min(max(int(math.floor(q)), 0), v.shape[1] - 2)
            fy, fx = p - j, q - i
            o[a, b] = v[j, i] * (1 - fy) * (1 - fx) + v[j + 1, i] * fy * (1 - fx) + v[j, i + 1] * (1 - fy) * fx + v[j + 1, i + 1] * fy * fx
    return o


def gradient(t, axis, s):
    """Centred gradient of t along axis, smoothed across it, linear extrapolation at the ends."""
    import numpy as np

    t = t if axis == 1 else t.T
    ny, nx = t.shape
    r = np.array([[(t[max(j - 1, 0), i] + t[j, i] + t[min(j + 1, ny - 1), i]) / 3 for i in range(nx)] for j in range(ny)])
    g = np.diff(r, axis=1) / s
    o = np.empty((ny, nx))
    o[:, 1:-1] = (g[:, 1:] + g[:, :-1]) / 2
    o[:, 0] = 1.5 * g[:, 0] - 0.5 * g[:, 1]
    o[:, -1] = 1.5 * g[:, -1] - 0.5 * g[:, -2]
    return o if axis == 1 else o.T


def enhancement(topo, T, RH, P, U, V, s):
    """mm h-1, all fields on the topography grid of spacing s metres."""
    import numpy as np

    ny, nx = topo.shape
    up = gradient(topo, 1, s) * U + gradient(topo, 0, s) * V
    pt = np.zeros((ny, nx))
    for j in range(ny):
        for i in range(nx):
            w = topo[max(j - 1, 0):j + 2, max(i - 1, 0):i + 2]
            if w.mean() < 20 or RH[j, i] < 0.8 or abs(up[j, i]) < 0.0005:
                continue
            pt[j, i] = max(3600.0 / 461.6 * RH[j, i] * P38.svp(T[j, i], P[j, i]) * up[j, i] / T[j, i], 0)
    km = s / 1000.0
    o = np.zeros((ny, nx))
    for j in range(ny):
        for i in range(nx):
            ws = math.hypot(U[j, i], V[j, i])
            if ws < 1e-8:
                continue
            sn, cs = U[j, i] / ws, V[j, i] / ws
            m = max(abs(sn), abs(cs))
            var = (ws * 102.0 / s) ** 2
            num = den = 0.0
            for k in range(int(15.0 / km * m + 1e-9)):
                d = k / m
                w = math.exp(-0.5 * d * d / var)
                y, x = int(round(j - d * cs)), int(round(i - d * sn))
                y, x = min(max(y, 0), ny - 1), min(max(x, 0), nx - 1)
                num += w * pt[y, x]
                den += w
            o[j, i] = 0.23265 * num / den
    return o


WIND = [-60.0, -8.0, -3.1, 0.0, 3.1, 33.1]


def c_oro(tier):
    for u in WIND:
        for v in WIND:
            for s in (1000.0, 2000.0):
                yield ("uniform", u, v, s)
    for k in range(12):
        for s in (1000.0, 2000.0, 4000.0):
            for o in range(6):
                if tier == "quick" and (k + o) % 2:
                    continue
                yield ("fields", k, o, s)
    yield ("reuse", 0, 0, 1000.0)
    for k in range(8):
        yield ("bad", k, 0, 1000.0)


def oro(case, cov):
    import cubes
    import numpy as np
    from improver.orographic_enhancement import OrographicEnhancement

    kind, a, b, s = case
    f = np.float32
    ny, nx = 9, 11
    cs = 3 * s / 2
    cy, cx = 9, 10
    ox, oy = -1.1 * s, -0.8 * s

    def topo_of(k):
        j, i = np.mgrid[:ny, :nx]
        return [300 * np.exp(-((j - 4) ** 2 + (i - 5) ** 2) / 6.0) + 3, 40.0 * i + 11 * j, np.where(i > 5, 500.0, 0.0) + 2 * j, (i * 37 + j * 53) % 11 * 30.0, 800 - 90.0 * j + i][k % 5]

    def fine(v, order=0, units="m"):
        c = cubes.grid(v.astype(f), name="surface_altitude", units="m", spacing=s, time=None, frt=None, attributes={"mosg__grid_type": "standard", "title": "orog", "mosg__grid_version": "1.3"})
        c.convert_units(units)
        return lay(c, order)

    def lay(c, order):
        if order & 1:
            c = c[::-1]
        if order & 2:
            c = c[:, ::-1]
        if order & 4:
            c.transpose()
        return c

    def coarse(v, name, un, order=0, **kw):
        kw.setdefault("origin", (oy, ox))
        return lay(cubes.grid(v.astype(f), name=name, units=un, spacing=cs, attributes=ATT, **kw), order)

    j, i = np.mgrid[:cy, :cx]

    def fields(k):
        return (270.0 + (i * 3 + j * 5 + k) % 17, np.where((i + 2 * j + k) % 5 == 0, 0.6, 0.83 + 0.017 * ((i + j) % 9)), 80000.0 + 900 * ((2 * i + j + k) % 13), (i * (k + 1) + j * 3) % 7 * 3.3 - 8.7, (i * 2 + j * (k + 2)) % 9 * 2.1 - 7.3)

    def judge(pl, topo, F, orders=(0, 0), units=("K", "1", "Pa", "m s-1", "m"), msg="enhancement"):
        T, RH, P, U, V = F
        tu, ru, pu, wu, hu = units
        cl = [coarse(T - (273.15 if tu == "degC" else 0), "air_temperature", tu, orders[0]), coarse(RH * (100 if ru == "%" else 1), "relative_humidity", ru, orders[0]), coarse(P / (100 if pu == "hPa" else 1), "air_pressure", pu, orders[0]),
              coarse(U * (3.6 if wu == "km h-1" else 1), "grid_eastward_wind", wu, orders[0]), coarse(V * (3.6 if wu == "km h-1" else 1), "grid_northward_wind", wu, orders[0])]
        tc = fine(topo, orders[1], hu)
        with cubes.Unchanged(tc, *cl):
            r = pl.process(*cl, tc)
        cov.step()
        ys, xs = s * np.arange(ny), s * np.arange(nx)
        G = [bilinear(x, oy, ox, cs, ys, xs) for x in (T, RH, P, U, V)]
        w = enhancement(topo, *G, s)
        ok = np.ones(w.shape, bool)
        g = cubes.arr(r, Y, X) * 3.6e6
        expect(r.shape == (ny, nx) and [c.name() for c in r.coords(dim_coords=True)] == [Y, X], "grid of the orography", got=r.shape)
        expect(np.all(np.diff(r.coord(X).points) > 0) and np.all(np.diff(r.coord(Y).points) > 0), "ascending coordinates")
        expect_close(g, w, msg + ": upslope condensation with the upstream contribution", rtol=2e-3, atol=1e-5)
        expect(r.name() == "orographic_enhancement" and str(r.units) == "m s-1" and r.data.dtype == f, "description", got=(r.name(), r.units, r.data.dtype))
        expect(r.attributes == {"title": "unknown", "source": "S", "institution": "I", "mosg__grid_type": "standard", "mosg__grid_version": "1.3"}, "attributes", got=r.attributes)
        for c in ("time", "forecast_reference_time", "forecast_period"):
            expect(cubes.diff(cubes.describe_coord(r.coord(c)), cubes.describe_coord(cl[0].coord(c))) is None, "times are those of the model", got=r.coord(c))

    if kind == "uniform":
        o = np.ones((cy, cx))
        for k in range(5):
            judge(OrographicEnhancement(), topo_of(k), (285 * o, 0.9 * o, 90000 * o, a * o, b * o))
        return "uniform"
    if kind == "fields":
        units = [("K", "1", "Pa", "m s-1", "m"), ("degC", "%", "hPa", "km h-1", "km")][a % 2]
        judge(OrographicEnhancement(), topo_of(a), fields(a), [(0, 0), (1, 0), (2, 3), (4, 0), (0, 5), (7, 6)][b], units)
        return "fields"
    if kind == "reuse":
        pl = OrographicEnhancement()
        for k in (0, 1, 2, 0):
            judge(pl, topo_of(k), fields(k), msg="a plugin used again")
        return "reuse"
    F = fields(0)
    N = ["air_temperature", "relative_humidity", "air_pressure", "grid_eastward_wind", "grid_northward_wind"]
    U = ["K", "1", "Pa", "m s-1", "m s-1"]
    cl = [coarse(v, n, u) for v, n, u in zip(F, N, U)]
    tc = fine(topo_of(0))
    if a < 5:
        cl[a] = coarse(F[a], N[a], U[a], origin=(oy + 1, ox)) if a % 2 else coarse(F[a], N[a], U[a], time=cubes.T0 + 5 * H)
    elif a == 5:
        cl = [cubes.grid(np.stack([v, v]).astype(f), name=n, units=u, spacing=cs, origin=(oy, ox), leading=[("height", [1, 2], "m")]) for v, n, u in zip(F, N, U)]
    elif a == 6:
        tc = cubes.grid(np.zeros((2, ny, nx), f), name="surface_altitude", units="m", spacing=s, leading=[("realization", [0, 1], "1")], time=None, frt=None)
    else:
        cl[0] = coarse(F[0], N[0], "Pa")
        cl[0].units = "Pa"
    expect(raises(lambda: OrographicEnhancement().process(*cl, tc)), "unmatched fields and other dimensions are refused", got=a)
    cov.step()
    return "refused"


# ------------------------------------------------------------ optical flow
def pad_mean(c):
    """Corner values [ny-1, nx-1] to points [ny, nx]: the mean of the four corners, zero outside."""
    import numpy as np

    p = np.zeros((c.shape[0] + 2, c.shape[1] + 2))
    p[1:-1, 1:-1] = c
    return 0.25 * (p[1:, 1:] + p[:-1, 1:] + p[1:, :-1] + p[:-1, :-1])


def box_mean(d, r):
    import numpy as np

    p = np.pad(d, r, mode="edge")
    c = np.cumsum(np.cumsum(np.pad(p, ((1, 0), (1, 0))), axis=0), axis=1)
    n = 2 * r + 1
    return (c[n:, n:] - c[:-n, n:] - c[n:, :-n] + c[:-n, :-n]) / n ** 2


def flow(d1, d2, r, box, iters):
    """Displacement in grid lengths between d1 and d2."""
    import numpy as np

    d1, d2 = box_mean(d1, r), box_mean(d2, r)
    m = 0.5 * (d1 + d2)
    dx = pad_mean(0.5 * ((m[1:, 1:] - m[1:, :-1]) + (m[:-1, 1:] - m[:-1, :-1])))
    dy = pad_mean(0.5 * ((m[1:, 1:] - m[:-1, 1:]) + (m[1:, :-1] - m[:-1, :-1])))
    t = d2 - d1
    dt = pad_mean(0.25 * (t[1:, 1:] + t[:-1, 1:] + t[1:, :-1] + t[:-1, :-1]))
    ny, nx = d1.shape
    by, bx = -(-ny // box), -(-nx // box)
    u, v, w = np.zeros((by, bx)), np.zeros((by, bx)), np.zeros((by, bx))
    for a in range(by):
        for b in range(bx):
            q = (slice(a * box, (a + 1) * box), slice(b * box, (b + 1) * box))
            x, y, z = dx[q].ravel(), dy[q].ravel(), dt[q].ravel()
            xx, xy, yy, xt, yt = (x * x).sum(), (x * y).sum(), (y * y).sum(), (x * z).sum(), (y * z).sum()
            det = xx * yy - xy * xy
            if det != 0:
                u[a, b], v[a, b] = -(yy * xt - xy * yt) / det, -(xx * yt - xy * xt) / det
            g = 1 - math.exp(-(0.5 / box ** 2 * (d1[q].sum() + d2[q].sum())) / 0.8)
            w[a, b] = g if g >= 0.01 else 0
            if abs(u[a, b]) + abs(v[a, b]) > by / 3.0:
                u[a, b] = v[a, b] = w[a, b] = 0
    K = np.array([[0.5, 1, 0.5], [1, 0, 1], [0.5, 1, 0.5]]) / 6

    def around(z):
        p = np.pad(z, 1, mode="symmetric")
        return sum(K[i, j] * p[i:i + by, j:j + bx] for i in range(3) for j in range(3))

    wn = around(w)
    out = []
    for z in (u, v):
        c = z.copy()
        for _ in range(iters):
            s, plain = around(w * c), around(c)
            n = np.where(wn > 0, s / np.where(wn > 0, wn, 1), plain)
            den = 0.9 * wn + 0.1 * w
            c = np.where(w > 0, (0.9 * s + 0.1 * w * z) / np.where(den > 0, den, 1), n)
        g = np.repeat(np.repeat(c, box, 0), box, 1)[:ny, :nx]
        k = box // 3
        if k:
            h = 1 - np.abs(np.linspace(-1, 1, 2 * k + 1))
            h /= h.sum()
            p = np.pad(g, k, mode="symmetric")
            p = sum(h[i] * p[i:i + ny] for i in range(2 * k + 1))
            g = sum(h[i] * p[:, i:i + nx] for i in range(2 * k + 1))
        out.append(g)
    return out


def c_flow(tier):
    for dx in (-1.0, -0.5, 0.0, 0.5, 1.0):
        for dy in (-1.0, -0.4, 0.0, 0.4, 1.0):
            for cfg in range(6):
                if tier == "quick" and (cfg + int(dx * 2 + dy * 5)) % 2:
                    continue
                yield ("move", [dx, dy], cfg, 0)
    for n in (2, 3, 4):
        for p in itertools.permutations(range(n)):
            yield ("mean", list(p), 0, 0)
    for seq in itertools.product(range(3), repeat=2):
        yield ("reuse", list(seq), 0, 0)
    for dx, dy in ((0.5, -0.4), (-1.0, 1.0)):
        for cfg in (0, 6, 7):
            for how in range(9):
                yield ("forms", [dx, dy], cfg, how)
    for k in range(11):
        yield ("bad", k, 0, 0)
    for k in range(4):
        yield ("zero", k, 0, 0)


CFG = [(4000.0, 6, 900, 20, "mm h-1"), (4000.0, 8, 300, 30, "m s-1"), (4500.0, 5, 600, 20, "mm h-1"), (2000.0, 9, 900, 20, "mm h-1"), (9000.0, 6, 1800, 25, "m s-1"), (4000.0, 30, 900, 20, "mm h-1"), (4000.0, 7, 1200, 20, "mm h-1"), (5000.0, 9, 1799, 20, "mm h-1"), (4500.0, 5, 901, 20, "mm h-1")]


def rain(ny, nx, dy=0.0, dx=0.0, k=0):
    import numpy as np

    j, i = np.mgrid[:ny, :nx]
    j, i = j - dy, i - dx
    return 2.6 + np.sin(i * 0.33 + 0.5 * k) * np.cos(j * 0.27) + 0.8 * np.sin(0.21 * i + 0.31 * j + 0.3) + 0.5 * np.cos(0.37 * j - 0.11 * i + k)


def radius(cfg):
    s, box, dt, it, un = cfg
    return int(14.0 * max(dt / 900.0, 1) / (s / 1000.0))


def flows(case, cov):
    import warnings
    import cubes
    import numpy as np
    from improver.nowcasting.optical_flow import OpticalFlow, generate_optical_flow_components
    from iris.cube import CubeList

    kind, a, b, z = case
    f = np.float32
    ny, nx = 34, 29
    T = cubes.T0

    def cube(d, cfg, t, name="lwe_precipitation_rate", **kw):
        s, un = cfg[0], cfg[4]
        v = d / (3.6e6 if un == "m s-1" else 1)
        v = np.ma.masked_array(np.asarray(v, f), d.mask) if isinstance(d, np.ma.MaskedArray) else v.astype(f)
        kw.setdefault("frt", None)
        return cubes.grid(v, name=name, units=un, spacing=s, time=t, attributes=ATT, **kw)

    def judge(r, d1, d2, cfg, t, msg="flow"):
        s, box, dt, it, un = cfg
        u, v = flow(d1.astype(f).astype(float), d2.astype(f).astype(float), radius(cfg), box, it)
        for c, w, n in zip(r, (u, v), "xy"):
            expect(c.name() == "precipitation_advection_%s_velocity" % n and str(c.units) == "m s-1" and c.data.dtype == f and c.shape == (ny, nx), msg + ": description", got=(c.name(), c.units, c.data.dtype, c.shape))
            expect(c.coord("time").points.tolist() == [t], msg + ": time of the later field", t, c.coord("time").points)
            expect_close(c.data * dt / s, w, msg + ": displacement from the optical flow equation of each box, smoothed", rtol=5e-3, atol=2e-3)
        return u, v

    if kind == "move":
        cfg = CFG[b]
        s, box, dt, it, un = cfg
        dx, dy = a
        d1, d2 = rain(ny, nx, 0, 0, b), rain(ny, nx, dy, dx, b)
        same = b == 2
        c1 = cube(d1, cfg, T if not same else T + dt, frt=T if same else None)
        c2 = cube(d2, cfg, T + dt)
        if b == 0:
            m = np.zeros(d1.shape, bool)
            m[3:6, 20:24] = True
            d1 = np.where(m, 0, d1)
            c1 = cube(np.ma.masked_array(d1 + 50 * m, m), cfg, T)
        with cubes.Unchanged(c1, c2):
            r = OpticalFlow(iterations=it).process(c1, c2, boxsize=box)
        cov.step()
        u, v = judge(r, d1, d2, cfg, T + dt)
        if b in (2, 4):
            for w, d in ((r[0].data, dx), (r[1].data, dy)):
                e = np.median(w) * dt / s
                expect(abs(e - d) < 0.2 + 0.3 * abs(d), "the displacement of the field is found", d, e)
        return "move"
    if kind == "forms":
        cfg = CFG[b]
        s, box, dt, it, un = cfg
        dx, dy = a
        d1, d2 = rain(ny, nx, 0, 0, b), rain(ny, nx, dy, dx, b)
        m = np.zeros(d1.shape, bool)
        m[3:6, 20:24] = True
        if z == 8:  # light rain here and there
            d1, d2 = np.maximum(d1 - 2.6, 0) * 0.05, np.maximum(d2 - 2.6, 0) * 0.05
        x1 = np.ma.masked_array(d1, m) if z in (1, 2) else d1
        x2 = np.ma.masked_array(d2, m[::-1]) if z in (0, 2) else d2
        if z in (1, 2):
            d1 = np.where(m, 0, d1)
        if z in (0, 2):
            d2 = np.where(m[::-1], 0, d2)
        same = z in (5, 6)
        c1 = cube(x1, cfg, T + dt if same else T, frt=T if same else None)
        c2 = cube(x2, cfg, T + dt)
        if same:
            c1.coord("forecast_period").convert_units(["minutes", "hours"][z - 5])
        if z in (3, 4, 7):  # dimensions in another order
            c1, c2 = [cubes.transposed(c, ["projection_x_coordinate", "projection_y_coordinate"]) if k != z else c for k, c in ((3, c1), (4, c2))]
        with cubes.Unchanged(c1, c2):
            r = OpticalFlow(iterations=it).process(c1, c2, boxsize=box)
        cov.step()
        judge(r, d1, d2, cfg, T + dt)
        return "forms"
    cfg = CFG[0]
    s, box, dt, it, un = cfg
    if kind == "mean":
        n = len(a)
        ds = [rain(ny, nx, 0.4 * k * k, -0.3 * k, 1) for k in range(n)]
        cs = [cube(ds[k], cfg, T + k * dt) for k in range(n)]
        cl = CubeList([cs[k] for k in a])
        with cubes.Unchanged(*cs):
            r = generate_optical_flow_components(cl, box, it)
        cov.step()
        expect([c.coord("time").points[0] for c in cl] == [T + k * dt for k in a], "the list given is left in its order")
        w = [flow(ds[k].astype(f).astype(float), ds[k + 1].astype(f).astype(float), radius(cfg), box, it) for k in range(n - 1)]
        for c, k in zip(r, (0, 1)):
            expect_close(c.data * dt / s, np.mean([q[k] for q in w], axis=0), "mean of the flows between consecutive fields", rtol=5e-3, atol=2e-3)
            expect(c.coord("time").points.tolist() == [T + (n - 1) * dt] and c.data.dtype == f, "time of the latest field", got=c.coord("time").points)
        return "mean"
    if kind == "reuse":
        pl = OpticalFlow(iterations=it)
        for k in a:
            q = [CFG[0], (4000.0, 7, 1800, 20, "mm h-1"), (4500.0, 5, 600, 20, "mm h-1")][k]
            d1, d2 = rain(ny, nx, 0, 0, k), rain(ny, nx, 0.5, 0.5 * k - 0.5, k)
            q = q[:1] + (max(q[1], radius(q)),) + q[2:]
            r = pl.process(cube(d1, q, T), cube(d2, q, T + q[2]), boxsize=q[1])
            cov.step()
            judge(r, d1, d2, q, T + q[2], "a plugin used again")
        return "reuse"
    d = rain(ny, nx)
    if kind == "zero":
        e = np.zeros((ny, nx))
        p = [(e, e), (d, e), (e, d), (np.ma.masked_all((ny, nx)), d)][a]
        with warnings.catch_warnings(record=True) as got:
            warnings.simplefilter("always")
            r = OpticalFlow(iterations=20).process(cube(p[0], cfg, T), cube(p[1], cfg, T + dt), boxsize=6)
        cov.step()
        expect(all((c.data == 0).all() and c.data.dtype == f for c in r), "no motion without precipitation")
        expect(any("No non-zero data" in str(x.message) for x in got), "with a warning")
        return "zero"
    c1, c2 = cube(d, cfg, T), cube(d, cfg, T + dt)
    pl = OpticalFlow(iterations=20)
    ll = lambda t: cubes.grid(d.astype(f), name="lwe_precipitation_rate", units="mm h-1", spatial="latlon", spacing=0.1, time=t, frt=None)
    tests = [lambda: OpticalFlow(iterations=19), lambda: pl.process(c1, cube(d, cfg, T + dt, name="rainfall_rate"), boxsize=6), lambda: pl.process(c2, c1, boxsize=6), lambda: pl.process(c1, cube(d, cfg, T + dt, origin=(1.0, 0.0)), boxsize=6),
             lambda: pl.process(ll(T), ll(T + dt), boxsize=6), lambda: pl.process(c1, c2, boxsize=2), lambda: OpticalFlow(data_smoothing_radius_km=11.9, iterations=20).process(c1, c2, boxsize=6), lambda: pl.process(c1, c1, boxsize=6),
             lambda: pl.process(cube(d, cfg[:4] + ("K",), T), cube(d, cfg[:4] + ("K",), T + dt), boxsize=6), lambda: pl.process(cube(d, cfg, None), c2, boxsize=6), lambda: pl.process(cube(d, cfg, T, frt=T - dt), cube(d, cfg, T, frt=T - 60), boxsize=6)]
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        expect(raises(tests[a]), "unsuitable fields and options are refused", got=a)
    cov.step()
    return "refused"


# ------------------------------------------------------------ extrapolation with pysteps
def c_pys(tier):
    for intv, mx in ((15, 60), (15, 50), (1, 4), (30, 30), (30, 20), (50, 160), (720, 2200)):
        for un in (("mm h-1", "m s-1", "mm h-1"), ("m s-1", "km h-1", "mm h-1"), ("mm h-1", "m s-1", "m s-1")):
            for oe in (False, True):
                for form in range(4):
                    for at in range(2):
                        if oe and intv > 30:
                            continue
                        yield ("extrapolate", [intv, mx], list(un), [oe, form, at])
    for k in range(4):
        yield ("perturb", k, 0, 0)
    for k in range(6):
        yield ("winds", k, 0, 0)
    for k in range(2):
        yield ("bad", k, 0, 0)


def fake(rec):
    """Stands for pysteps: moves whole grid lengths, and records what it was given."""
    import sys
    import types
    import numpy as np

    def extrapolate(precip, velocity, timesteps, **kw):
        rec.append((np.array(precip, float), np.array(velocity, float), timesteps, dict(kw)))
        out = []
        for t in range(1, timesteps + 1):
            o = np.full(precip.shape, np.nan)
            for j in range(precip.shape[0]):
                for i in range(precip.shape[1]):
                    u, v = velocity[0, j, i] * t, velocity[1, j, i] * t
                    if np.isnan(u) or np.isnan(v):
                        continue
                    y, x = int(math.floor(j - v + 0.5)), int(math.floor(i - u + 0.5))
                    if 0 <= y < precip.shape[0] and 0 <= x < precip.shape[1]:
                        o[j, i] = precip[y, x]
            out.append(o)
        return np.array(out).reshape((timesteps,) + precip.shape)

    a, b, c = types.ModuleType("pysteps"), types.ModuleType("pysteps.extrapolation"), types.ModuleType("pysteps.extrapolation.semilagrangian")
    c.extrapolate = extrapolate
    b.semilagrangian, a.extrapolation = c, b
    sys.modules.update({"pysteps": a, "pysteps.extrapolation": b, "pysteps.extrapolation.semilagrangian": c})
    return extrapolate


def pys(case, cov):
    import warnings
    import cubes
    import numpy as np
    from improver.nowcasting import optical_flow as OF
    from improver.nowcasting.pysteps_advection import PystepsExtrapolate
    from iris.cube import CubeList

    kind, a, b, z = case
    f = np.float32
    rec = []
    ref = fake(rec)
    T, SP = cubes.T0 + 4 * H, 2000.0
    fac = lambda un: 1.0 if un == "mm h-1" else 1 / 3.6e6

    def rate(d, un, name="rainfall_rate", **kw):
        q = np.asarray(d) * fac(un)
        q = np.ma.masked_array(q.astype(f), d.mask) if isinstance(d, np.ma.MaskedArray) else q.astype(f)
        kw.setdefault("spacing", SP)
        return cubes.grid(q, name=name, units=un, attributes=kw.pop("attributes", ATT), **kw)

    ny, nx = 5, 6
    i = np.arange(ny * nx).reshape(ny, nx)
    base = (i * 7 % 13) * 0.31
    if kind == "extrapolate":
        (intv, mx), (pu, vu, ou), (with_oe, form, at) = a, b, z
        m = [None, i % 7 == 3, np.zeros(base.shape, bool), None][form]
        d = np.ma.masked_array(base, m) if m is not None else base
        u = 1.0 + 0.0 * i
        v = np.where(i % 2, 0.0, -1.0)
        vs = []
        for q, n in ((u, "x"), (v, "y")):
            q = (q * SP / (intv * 60) * (3.6 if vu == "km h-1" else 1)).astype(f)
            if form == 2:
                q = np.ma.masked_array(q, i == 8)
            vs.append(cubes.grid(q, name="precipitation_advection_%s_velocity" % n, units=vu, spacing=SP, time=T, frt=None))
        n = mx // intv
        c = rate(d, pu, time=T, frt=None if form == 0 else T)
        if form == 3:  # a lead time but no reference time
            c.remove_coord("forecast_reference_time")
        ts = [T + 900 * k for k in range(6)]
        os_ = [(0.2 + 0.1 * k) * (i % 4) for k in range(6)]
        oc = rate(np.stack(os_), ou, name="orographic_enhancement", leading=[("time", ts, cubes.EPOCH)]) if with_oe else None
        extra = [None, {"title": "Nowcast", "mosg__model_configuration": "nc_det", "source": "M"}][at]
        with cubes.Unchanged(c, oc, extra, *vs):
            pl = PystepsExtrapolate(intv, mx)
            r = pl.process(c, vs[0], vs[1], oc, attributes_dict=extra)
        cov.step()
        expect(len(rec) == 1, "one extrapolation")
        p, vel, nt, kw = rec[0]
        s = P42.filled(d)
        if with_oe:
            s = P42.enhanced(s, os_[0], "subtract")
        expect_same(np.isnan(p), np.isnan(s), "missing points are given as NaN")
        expect_close(np.nan_to_num(p), np.nan_to_num(s), "the precipitation advected is in mm h-1 and without enhancement", rtol=1e-5, atol=1e-6)
        wv = np.stack([np.where(i == 8, np.nan, q) if form == 2 else q for q in (u, v)])
        expect_same(np.isnan(vel), np.isnan(wv), "missing velocities are NaN")
        expect_close(np.nan_to_num(vel), np.nan_to_num(wv), "velocities are in grid lengths per interval", rtol=1e-5, atol=1e-6)
        expect(nt == n and kw.get("allow_nonfinite_values") is True and kw.get("interp_order") == 0, "steps and options", n, (nt, kw))
        expect(isinstance(r, list) and len(r) == n + 1, "one forecast for each step and the analysis", n + 1, len(r))
        fs = [s] + list(ref(s, wv, n))
        for k, q in enumerate(r):
            w = fs[k]
            if with_oe:
                near = min(range(6), key=lambda j: abs(ts[j] - T - k * intv * 60))
                w = np.where(np.isnan(w), w, P42.enhanced(np.nan_to_num(w), os_[near], "add"))
            g = P42.filled(q.data) / fac(pu)
            expect_same(np.isnan(g), np.isnan(w), "missing points of each forecast")
            expect_close(np.nan_to_num(g), np.nan_to_num(w), "forecast in the units of the analysis with the enhancement of its time", rtol=1e-4, atol=1e-5)
            l = k * intv * 60
            expect(str(q.units) == pu and q.name() == "rainfall_rate" and q.data.dtype == f, "description", got=(q.units, q.name(), q.data.dtype))
            t = (q.coord("time").points.tolist(), q.coord("forecast_reference_time").points.tolist(), q.coord("forecast_period").points.tolist())
            fp = q.coord("forecast_period")
            expect(str(fp.units) in ("s", "seconds") and fp.long_name is None, "forecast period is in seconds", got=(fp.units, fp.long_name))
            expect(t == ([T + l], [T], [l]) and q.coord("time").dtype == np.int64 and q.coord("forecast_period").dtype == np.int32, "times", ([T + l], [T], [l]), t)
            at_ = dict(q.attributes)
            h = at_.pop("history", "")
            w = {"title": "MONOW Extrapolation Nowcast on UK 2 km Standard Grid", "source": "MONOW", "institution": "I"}
            w.update(extra or {})
            expect(at_ == w and h.endswith(": Nowcast"), "attributes", w, (at_, h))
        return "extrapolate"
    if kind == "perturb":
        un = ["m s-1", "km h-1"][a % 2]
        bg = [cubes.grid((q * (3.6 if a % 2 else 1)).astype(f), name="w" + n, units=un) for q, n in ((1.0 + i % 3, "x"), (0.5 * (i % 4), "y"))]
        ad = [cubes.grid(np.where(i % 5 == k, [np.nan, np.inf][a // 2], 0.1 * i).astype(f), name="p" + n, units="m s-1") for k, n in ((0, "x"), (1, "y"))]
        w = [np.where(i % 5 == k, q, q + 0.1 * i) for k, q in ((0, 1.0 + i % 3), (1, 0.5 * (i % 4)))]
        with cubes.Unchanged(*bg):
            r = OF._perturb_background_flow(bg, ad)
        cov.step()
        for c, q in zip(r, w):
            expect_close(c.data, q, "background plus adjustment where there is one", rtol=1e-5)
            expect(c.data.dtype == f and str(c.units) == "m s-1", "type", got=c.data.dtype)
        return "perturb"
    if kind == "winds":
        ny, nx, SP = 34, 29, 2000.0
        mins = [15, 10, 5][a % 3]
        d1, d2 = rain(ny, nx, 0, 0, a), rain(ny, nx, 0.6, 1.4, a)
        cs = [rate(d1, "mm h-1", time=T, frt=None, spacing=SP), rate(d2, "mm h-1", time=T + mins * 60, frt=None, spacing=SP)]
        one = np.ones((ny, nx))
        k = SP / (mins * 60)
        vu = "km h-1" if a >= 3 else "m s-1"
        bg = [cubes.grid((q * k * (3.6 if a >= 3 else 1)).astype(f), name="w" + n, units=vu, spacing=SP, time=T, frt=None) for q, n in ((one, "x"), (0 * one, "y"))]
        os_ = 0.1 * (np.arange(ny * nx).reshape(ny, nx) % 3)
        oc = rate(np.stack([os_, os_]), "mm h-1", name="orographic_enhancement", leading=[("time", [T, T + 900], cubes.EPOCH)], spacing=SP)
        cl = CubeList(cs[::-1] if a % 2 else cs)
        with cubes.Unchanged(oc, *bg, *cs), warnings.catch_warnings():
            warnings.simplefilter("ignore")
            r = OF.generate_advection_velocities_from_winds(cl, bg, oc)
        cov.step()
        expect([c is x for c, x in zip(cl, cs[::-1] if a % 2 else cs)] == [True, True], "the list given is left in its order")
        e = P42.enhanced(d1.astype(f).astype(float), os_, "subtract")
        w = ref(e, np.stack([one, 0 * one]), 1)[0]
        w = np.where(np.isnan(w), w, P42.enhanced(np.nan_to_num(w), os_, "add"))
        w = np.where(np.isnan(w), 0, P42.enhanced(np.nan_to_num(w), os_, "subtract"))
        e2 = P42.enhanced(d2.astype(f).astype(float), os_, "subtract")
        u, v = flow(w, e2, 4, 18, 20)
        expect_close(r[0].data / k, u + 1, "advection is the background with the flow between the advected and the observed field", rtol=5e-3, atol=4e-3)
        expect_close(r[1].data / k, v, "advection is the background with the flow between the advected and the observed field", rtol=5e-3, atol=4e-3)
        expect(r[0].coord("time").points.tolist() == [T + mins * 60], "time of the later field", got=r[0].coord("time").points)
        return "winds"
    c = rate(base, "mm h-1", name="air_temperature" if a == 0 else "rainfall_rate", spatial="equalarea" if a == 0 else "latlon", spacing=SP if a == 0 else 0.1)
    w = cubes.grid(base.astype(f), name="w", units="m s-1", spacing=SP)
    expect(raises(lambda: PystepsExtrapolate(15, 60).process(c, w, w, rate(base, "mm h-1", name="orographic_enhancement"))), "other quantities and grids are refused", got=a)
    cov.step()
    return "refused"


SECTIONS = [Section("orography", c_oro, oro), Section("flow", c_flow, flows), Section("pysteps", c_pys, pys)]

if __name__ == "__main__":
    main(globals())
