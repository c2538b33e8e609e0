"""C21: reliability calibration."""
import itertools
import math

from mc import Section, Violation, expect, expect_close, expect_same, main, raises

PROPERTY = "C21"
PY, PX = "projection_y_coordinate", "projection_x_coordinate"
HOUR = 3600
ATT = {"source": "IMPROVER", "title": "UK forecast", "institution": "Met Office"}


def c_bins(tier):
    for n in range(1, 13 if tier == "quick" else 60):
        for lo in (False, True):
            for hi in (False, True):
                yield (n, lo, hi)


def bins(case, cov):
    """The bins tile [0, 1] without overlap; the single-valued ends hold 0 and 1 to within 1e-6."""
    import numpy as np
    from improver.calibration.reliability_calibration import ConstructReliabilityCalibrationTables as P

    n, lo, hi = case
    cov.step()
    if lo and hi and n <= 2:
        expect(isinstance(raises(P, n, lo, hi), ValueError), "too few bins")
        return "refused"
    if (lo or hi) and n < 2:
        raises(P, n, lo, hi)
        return "too few"
    b = P(n_probability_bins=n, single_value_lower_limit=lo, single_value_upper_limit=hi).probability_bins
    expect(b.shape == (n, 2) and b.dtype == np.float32, "number of bins", got=b.shape)
    expect(b[0, 0] == 0 and b[-1, 1] == 1, "whole range", got=b)
    for k in range(n):
        expect(b[k, 0] < b[k, 1], "bin %d" % k, got=b)
        if k:
            expect(np.nextafter(b[k - 1, 1], np.float32(2), dtype=np.float32) == b[k, 0], "bins %d and %d are adjacent" % (k - 1, k), got=b.tolist())
    inner = b[(1 if lo else 0):(n - 1 if hi else n)]
    m = len(inner)
    expect_close(inner[1:, 0], [(k + 1) / m for k in range(m - 1)], "equal widths")
    if lo:
        expect_close(b[0], [0, 1e-6], "lowest bin", atol=1e-9)
    if hi:
        expect_close(b[-1], [1 - 1e-6, 1], "highest bin", rtol=0, atol=6e-8)
    return n


# ------------------------------------------------------------ construction
def pvals(P):
    import numpy as np

    out = [0.0, 1.0]
    for a, b in P.probability_bins:
        out += [a, b, np.float32((float(a) + float(b)) / 2)]
    return np.array(sorted(set(np.float32(x) for x in out)), np.float32)


def c_construct(tier):
    for n, lo, hi in [(2, 0, 0), (3, 1, 1), (5, 0, 0), (5, 1, 0), (4, 0, 1)] + ([(10, 1, 1), (20, 0, 0)] if tier != "quick" else []):
        for ntimes in (1, 2, 3):
            for mask in (0, 1, 2, 3, 4):  # none, same at all times, changing with time, only at the last time, only at the first
                for fmask in (0, 1):
                    for agg in (None, "xy", "x"):
                        for spot in (0, 1):
                            if spot and agg == "x":
                                continue
                            yield (n, lo, hi, ntimes, mask, fmask, agg, spot)


def construct(case, cov):
    """Each cell of the table counts, per bin, the forecasts, their probabilities and the observed events over the matched times."""
    import numpy as np
    import cubes
    from iris.coords import AuxCoord, DimCoord
    from iris.cube import Cube, CubeList
    from improver.calibration.reliability_calibration import ConstructReliabilityCalibrationTables as P

    n, lo, hi, ntimes, mask, fmask, agg, spot = case
    plug = P(n_probability_bins=n, single_value_lower_limit=bool(lo), single_value_upper_limit=bool(hi))
    pv = pvals(plug)
    k = len(pv)
    ny, nx = 3, k
    ths = [280.0, 285.0]
    F, T, M = [], [], []
    for t in range(ntimes):
        f = np.stack([np.stack([np.roll(pv, t + r + th) for r in range(ny)]) for th in range(2)])
        o = np.stack([np.array([[(r * 5 + c * 3 + t + th + (c * c) // 2) % 2 for c in range(nx)] for r in range(ny)]) for th in range(2)]).astype(np.float32)
        if fmask:
            f = f.copy()
            f[:, 1, 2] = np.nan
            f[1, 2, t] = np.nan
        m = np.zeros((ny, nx), bool)
        if mask == 1:
            m[0, 0] = m[2, 3] = True
        elif mask == 2:
            m[0, t] = m[1, 0] = True
        elif mask == 3 and t == ntimes - 1 or mask == 4 and t == 0:
            m[0, :2] = True
        F.append(f)
        T.append(o)
        M.append(m)

    def cube(data, t, truth):
        when, frt = cubes.T0 + t * 86400, cubes.T0 + t * 86400 - (0 if truth else 4 * HOUR)
        if not spot:
            return cubes.prob(data, ths, diag="air_temperature", tunits="K", time=when, frt=frt, attributes=ATT)
        data = data.reshape(2, -1)
        g = cubes.prob(data[:, None, :], ths, diag="air_temperature", tunits="K", time=when, frt=frt, attributes=ATT)
        c = Cube(data, long_name=g.name(), units="1", attributes=dict(ATT))
        c.add_dim_coord(g.coord(var_name="threshold").copy(), 0)
        c.add_dim_coord(DimCoord(np.arange(data.shape[1], dtype=np.int32), long_name="spot_index", units="1"), 1)
        for nm, u, v in (("altitude", "m", 10), ("latitude", "degrees", 50), ("longitude", "degrees", 0)):
            c.add_aux_coord(AuxCoord((v + np.arange(data.shape[1]) / 8).astype(np.float32), nm, units=u), 1)
        c.add_aux_coord(AuxCoord(["%05d" % i for i in range(data.shape[1])], long_name="wmo_id", units="no_unit"), 1)
        for nm in ("time", "forecast_reference_time", "forecast_period"):
            c.add_aux_coord(g.coord(nm).copy())
        return c

    fc = CubeList([cube(F[t], t, False) for t in range(ntimes)])
    tc = CubeList([cube(np.ma.masked_array(T[t], np.broadcast_to(M[t], T[t].shape)) if mask else T[t], t, True) for t in range(ntimes)])
    fcube, tcube = fc.merge_cube(), tc.merge_cube()
    names = [c.name() for c in fcube.coords(dim_coords=True)]
    if ntimes > 1 and "time" in names:
        # threshold first
        order = ["air_temperature", "time"] + [x for x in names if x not in ("air_temperature", "time")]
        fcube, tcube = cubes.transposed(fcube, order), cubes.transposed(tcube, order)
    y, x = fcube.coord(axis="y").name(), fcube.coord(axis="x").name()
    coords = None if agg is None else ["spot_index"] if spot else [y, x] if agg == "xy" else [x]
    r = plug(fcube, tcube, aggregate_coords=coords)
    cov.step()
    B = plug.probability_bins
    shape = (ny * nx,) if spot else (ny, nx)
    obs, sums, cnt = [np.zeros((2, n) + shape) for _ in range(3)]
    for t in range(ntimes):
        for th in range(2):
            for j in range(ny):
                for i in range(nx):
                    p, o = F[t][th, j, i], T[t][th, j, i]
                    if M[t][j, i] or p != p:
                        continue
                    b = [q for q in range(n) if B[q, 0] <= p <= B[q, 1]]
                    expect(len(b) == 1, "one bin for %r" % p)
                    idx = (th, b[0]) + ((j * nx + i,) if spot else (j, i))
                    cnt[idx] += 1
                    sums[idx] += p
                    obs[idx] += o
    allmask = np.all(M, axis=0).reshape(shape)
    if coords:
        ax = tuple(range(2, 2 + len(shape))) if agg == "xy" else (3,)
        obs, sums, cnt = [a.sum(axis=ax) for a in (obs, sums, cnt)]
        allmask = np.zeros(obs.shape[2:], bool) if not (agg == "x") else allmask.all(axis=1)
    import iris

    for nm, want in (("observation_count", obs), ("sum_of_forecast_probabilities", sums), ("forecast_count", cnt)):
        s = r.extract(iris.Constraint(table_row_name=nm))
        want_names = ["air_temperature", "probability_bin"] + ([] if agg == "xy" else [y] if agg == "x" else ["spot_index"] if spot else [y, x])
        got = cubes.arr(s, *want_names)
        gm = np.ma.getmaskarray(got)
        expect(not gm[..., ~allmask].any() if allmask.ndim else True, "points with a truth at some time are not masked", got=np.argwhere(gm).tolist()[:4])
        ok = ~np.broadcast_to(allmask, want.shape)
        expect_close(np.ma.getdata(got)[ok], want[ok], nm, rtol=1e-5, atol=1e-5)
    expect(r.name() == "reliability_calibration_table" and r.attributes["title"] == "Reliability calibration data table", "name and title", got=r.attributes)
    expect(r.data.dtype == np.float32, "type", got=r.data.dtype)
    fr = r.coord("forecast_reference_time")
    expect(fr.points[0] == cubes.T0 + (ntimes - 1) * 86400 - 4 * HOUR and list(fr.bounds[0]) == [cubes.T0 - 4 * HOUR, fr.points[0]], "reference times used", got=(fr.points, fr.bounds))
    return "%d times" % ntimes


# ------------------------------------------------------------ aggregation
def mk_table(obs, sums, cnt, frts, th=280.0, bounds=None):
    """Table [row, bin, y, x] from arrays [bin, y, x] (or [bin])."""
    import numpy as np
    import cubes
    from iris.coords import AuxCoord, DimCoord
    from iris.cube import Cube

    d = np.stack([obs, sums, cnt]).astype(np.float32)
    n = d.shape[1]
    bounds = np.array(bounds if bounds is not None else [(k / n, (k + 1) / n if k == n - 1 else np.nextafter(np.float32((k + 1) / n), np.float32(0))) for k in range(n)], np.float32)
    c = Cube(d, long_name="reliability_calibration_table", units="1", attributes=dict(ATT))
    c.add_dim_coord(DimCoord(np.arange(3, dtype=np.int32), long_name="table_row_index", units="1"), 0)
    c.add_aux_coord(AuxCoord(["observation_count", "sum_of_forecast_probabilities", "forecast_count"], long_name="table_row_name", units="1"), 0)
    c.add_dim_coord(DimCoord(bounds.mean(axis=1, dtype=np.float32), long_name="probability_bin", units="1", bounds=bounds), 1)
    if d.ndim == 4:
        g = cubes.grid(np.zeros(d.shape[2:], np.float32))
        c.add_dim_coord(g.coord(axis="y").copy(), 2)
        c.add_dim_coord(g.coord(axis="x").copy(), 3)
    tc = AuxCoord(np.array([th], np.float32), "air_temperature", units="K", var_name="threshold", attributes={"spp__relative_to_threshold": "greater_than"})
    c.add_aux_coord(tc)
    if frts is not None:
        f = np.array(frts, np.int64)
        c.add_aux_coord(DimCoord([f.max()], "forecast_reference_time", units=cubes.EPOCH, bounds=[[f.min(), f.max()]]))
        c.add_aux_coord(DimCoord([np.int32(4 * HOUR)], "forecast_period", units="seconds"))
    return c


def c_aggregate(tier):
    D = 86400
    for n in (1, 2, 3):
        for order in itertools.permutations(range(n)):
            for ov in ((None,) if n == 1 else (None, "touch", "inside")):
                for co in ((), ("y",), ("y", "x"), ("x",)):
                    yield (n, list(order), ov, list(co))


def aggregate(case, cov):
    import numpy as np
    import cubes
    from iris.cube import CubeList
    from improver.calibration.reliability_calibration import AggregateReliabilityCalibrationTables as A

    n, order, ov, co = case
    D = 86400
    tabs = []
    for k in range(n):
        v = np.arange(1, 13).reshape(2, 2, 3) * (k + 1)
        f = [cubes.T0 + (3 * k) * D, cubes.T0 + (3 * k + 1) * D]
        if ov and k:
            f[0] = cubes.T0 + (3 * (k - 1) + 1) * D - (HOUR if ov == "inside" else 0)
        tabs.append(mk_table(v, v * 2, v * 3, f))
    cs = CubeList([tabs[k] for k in order])
    names = [{"y": PY, "x": PX}[a] for a in co]
    arg = list(names)
    cov.step()
    if ov:
        expect(isinstance(raises(A(), cs, arg), ValueError), "tables that share forecasts are refused")
        return "refused"
    with cubes.Unchanged(*tabs):
        r = A()(cs, arg)
    expect(arg == names, "the caller's list of coordinates is unchanged", expected=names, got=arg)
    tot = sum(t.data for t in tabs)
    ax = tuple({"y": 2, "x": 3}[a] for a in co)
    if ax:
        tot = tot.sum(axis=ax)
    want_names = ["table_row_index", "probability_bin"] + [c for c in (PY, PX) if c not in names]
    expect_close(cubes.arr(r, *want_names), tot, "sum over the tables and the coordinates")
    fr = r.coord("forecast_reference_time")
    hi = cubes.T0 + (3 * (n - 1) + 1) * D
    expect(fr.points[0] == hi and list(fr.bounds[0]) == [cubes.T0, hi], "reference time range", got=(fr.points, fr.bounds))
    return "sum of %d" % n


# ------------------------------------------------------------ manipulation
CNT = [0, 100, 200, 250, 400]
FRQ = [0.0, 0.25, 0.5, 1.0]


def c_manip(tier):
    nb = 3 if tier == "quick" else 4
    for cnt in itertools.product(range(5), repeat=nb):
        for k in range(4 if tier == "quick" else 1):
            yield (list(cnt), k)


def manip(case, cov):
    """All frequency patterns for the counts of one case: minimum counts, monotone frequencies, nothing lost."""
    import numpy as np
    from improver.calibration.reliability_calibration import ManipulateReliabilityTable as M

    ci, k = case
    nb = len(ci)
    cnt = np.array([CNT[c] for c in ci], float)
    for fi in itertools.product(range(4), repeat=nb):
        if fi[0] != k and nb == 3:
            continue
        frq = np.array([FRQ[f] for f in fi])
        mid = (np.arange(nb) + 0.5) / nb
        one(cnt, frq * cnt, mid * cnt, 200, cov)
    return "ok"


def model_manip(obs, sums, cnt, minimum):
    """The documented steps; returns groups of bins, counts, sums and observation frequency."""
    import numpy as np

    g = [[i] for i in range(len(cnt))]
    obs, sums, cnt = list(obs), list(sums), list(cnt)

    def merge(i):  # i and i+1
        g[i] = g[i] + g.pop(i + 1)
        for a in (obs, sums, cnt):
            a[i] = a[i] + a.pop(i + 1)

    while any(c < minimum for c in cnt) and len(cnt) > 1:
        low = [c if c < minimum else -1 for c in cnt]
        i = low.index(max(low))  # the fullest of the under-filled bins, the first if there are several
        if i == 0:
            merge(0)
        elif i == len(cnt) - 1:
            merge(i - 1)
        elif cnt[i + 1] > cnt[i - 1]:
            merge(i - 1)  # with the emptier neighbour
        else:
            merge(i)
    f = [o / c for o, c in zip(obs, cnt)]
    if any(b < a for a, b in zip(f, f[1:])):
        for u in range(len(f) - 1, 0, -1):
            if f[u] < f[u - 1]:
                merge(u - 1)
                break
        f = [o / c for o, c in zip(obs, cnt)]
        if cnt[0] < cnt[-1]:
            for i in range(len(f) - 2, -1, -1):
                f[i] = min(f[i], f[i + 1])
        else:
            for i in range(1, len(f)):
                f[i] = max(f[i], f[i - 1])
    return g, cnt, sums, f


def one(cnt, obs, sums, minimum, cov, pbp=False):
    import numpy as np
    import cubes
    from improver.calibration.reliability_calibration import ManipulateReliabilityTable as M

    if not cnt.sum():
        return
    t = mk_table(obs, sums, cnt, [cubes.T0])
    with cubes.Unchanged(t):
        (r,) = M(minimum_forecast_count=minimum)(t)
    cov.step()
    g, c, s, f = model_manip(obs, sums, cnt, minimum)
    go, gs, gc = r.data[0], r.data[1], r.data[2]
    msg = "counts %s observed %s" % (cnt.tolist(), obs.tolist())
    expect_close(gc, c, "forecast counts of the merged bins; " + msg)
    expect_close(gs, s, "sums of probabilities; " + msg, rtol=1e-5)
    expect_close(go, [a * b for a, b in zip(f, c)], "observations; " + msg, rtol=1e-5, atol=1e-3)
    b0 = t.coord("probability_bin").bounds
    expect_same(r.coord("probability_bin").bounds, np.array([[b0[x[0], 0], b0[x[-1], 1]] for x in g], np.float32), "bounds of the merged bins; " + msg)
    fr = go / gc
    expect(bool(np.all(np.diff(fr) >= -1e-6)), "observation frequencies do not decrease; " + msg, got=fr)
    expect(len(gc) == 1 or (gc >= minimum).all(), "minimum count; " + msg, got=gc)


def c_pbp(tier):
    for seed in range(6):
        yield seed


def manip_pbp(case, cov):
    """Point by point and per threshold: each table is treated as if it were alone."""
    import numpy as np
    import cubes
    from iris.cube import CubeList
    from improver.calibration.reliability_calibration import ManipulateReliabilityTable as M

    k = case
    idx = np.arange(2 * 4 * 2 * 3).reshape(2, 4, 2, 3)
    cnt = np.array(CNT)[(idx * 7 + k * 3 + idx // 5) % 5].astype(float)
    cnt[:, 0][cnt[:, 0] == 0] = 100
    frq = np.array(FRQ)[(idx * 5 + k + idx // 3) % 4]
    obs, sums = frq * cnt, cnt * 0.5
    tabs = CubeList([mk_table(obs[t], sums[t], cnt[t], [cubes.T0], th=280.0 + t) for t in range(2)])
    cube = tabs.merge_cube()
    res = M(minimum_forecast_count=200, point_by_point=True)(cube)
    cov.step()
    expect(len(res) == 12, "one table per threshold and point", got=len(res))
    for r in res:
        th, y, x = float(r.coord("air_temperature").points[0]), float(r.coord(PY).points[0]), float(r.coord(PX).points[0])
        t, j, i = int(th - 280), int(y // 2000), int(x // 2000)
        g, c, s, f = model_manip(obs[t, :, j, i], sums[t, :, j, i], cnt[t, :, j, i], 200)
        expect_close(r.data[2], c, "counts at %s" % ((t, j, i),))
        expect_close(r.data[0], [a * b for a, b in zip(f, c)], "observations at %s" % ((t, j, i),), atol=1e-3)
    # per threshold
    T = [CubeList([mk_table(obs[t, :, 0, 0], sums[t, :, 0, 0], cnt[t, :, 0, 0], [cubes.T0], th=280.0 + t) for t in range(2)])]
    res = M(minimum_forecast_count=200)(T[0].merge_cube())
    cov.step()
    for t, r in enumerate(res):
        g, c, s, f = model_manip(obs[t, :, 0, 0], sums[t, :, 0, 0], cnt[t, :, 0, 0], 200)
        expect(float(r.coord("air_temperature").points[0]) == 280 + t, "threshold order")
        expect_close(r.data[2], c, "counts of threshold %d" % t)
        expect_close(r.data[0], [a * b for a, b in zip(f, c)], "observations of threshold %d" % t, atol=1e-3)
    expect(isinstance(raises(M, minimum_forecast_count=0), ValueError), "a minimum below one is refused")
    return "ok"


# ------------------------------------------------------------ application
TABLES = [  # per bin: mean forecast probability, observation frequency
    ([0.1, 0.3, 0.5, 0.7, 0.9], [0.0, 0.25, 0.5, 0.75, 1.0]),
    ([0.1, 0.3, 0.5, 0.7, 0.9], [0.2, 0.25, 0.25, 0.4, 0.5]),
    ([0.0, 0.25, 0.75, 1.0], [0.1, 0.4, 0.5, 0.9]),
    ([0.25, 0.75], [0.0, 1.0]),
    ([0.2, 0.6], [0.5, 0.5]),
    ([0.5], [0.4]),  # too few bins: not calibrated
]


def interp(table, p):
    xs, ys = table
    if len(xs) < 2:
        return p
    if p <= xs[0] or p >= xs[-1]:
        a, b = (0, 1) if p <= xs[0] else (-2, -1)
        # straight line through the outer two bins, to 0 and 1
        x0, x1, y0, y1 = xs[a], xs[b], ys[a], ys[b]
        v = y0 + (y1 - y0) * (p - x0) / (x1 - x0)
    else:
        for k in range(len(xs) - 1):
            if xs[k] <= p <= xs[k + 1]:
                v = ys[k] + (ys[k + 1] - ys[k]) * (p - xs[k]) / (xs[k + 1] - xs[k])
                break
    return min(1.0, max(0.0, v))


def full(table, p):
    """The implementation joins the extrapolated end points with the second and last but one bins."""
    xs, ys = table
    if len(xs) < 2:
        return p
    lin = lambda a, b, q: ys[a] + (ys[b] - ys[a]) * (q - xs[a]) / (xs[b] - xs[a])  # noqa
    y0, y1 = lin(0, 1, 0.0), lin(-2, -1, 1.0)
    X, Y = [0.0] + xs[1:-1] + [1.0], [y0] + ys[1:-1] + [y1]
    for k in range(len(X) - 1):
        if X[k] <= p <= X[k + 1]:
            return min(1.0, max(0.0, Y[k] + (Y[k + 1] - Y[k]) * (p - X[k]) / (X[k + 1] - X[k])))


def c_apply(tier):
    for a in range(len(TABLES)):
        for b in list(range(len(TABLES))) + [None]:
            for spp in ("greater_than", "less_than_or_equal_to"):
                for mask in (0, 1):
                    for form in ("cube", "list"):
                        if form == "cube" and b is not None and len(TABLES[a][0]) != len(TABLES[b][0]):
                            continue
                        for layout in ("plain", "realization", "scalar", "last", "pbp") if b is not None or True else ():
                            if layout == "scalar" and b is not None:
                                continue
                            if layout == "pbp" and (form == "cube" or mask):
                                continue
                            yield (a, b, spp, mask, form, layout)


def apply(case, cov):
    """Every probability is replaced by the piecewise linear reliability curve of its threshold, kept monotone across thresholds."""
    import numpy as np
    import cubes
    from iris.cube import CubeList
    from improver.calibration.reliability_calibration import ApplyReliabilityCalibration as A

    a, b, spp, mask, form, layout = case
    tabs = [TABLES[a]] + ([TABLES[b]] if b is not None else [])
    P = np.array([0, 0.05, 0.1, 0.2, 0.3, 0.45, 0.5, 0.65, 0.7, 0.9, 0.95, 1.0], np.float32).reshape(3, 4)
    gt = "greater" in spp
    data = np.stack([P, np.clip(P - 0.15, 0, 1) if gt else np.clip(P + 0.15, 0, 1)][:len(tabs)]).astype(np.float32)
    ths = [280.0, 281.0][:len(tabs)]
    m = np.zeros((3, 4), bool)
    if mask:
        m[0, 1] = m[2, 3] = True
    D = np.ma.masked_array(data, np.broadcast_to(m, data.shape)) if mask else data
    kw = dict(diag="air_temperature", tunits="K", spp=spp, attributes=ATT)
    if layout == "realization":
        D = np.ma.stack([D, D[:, ::-1]]) if mask else np.stack([D, D[:, ::-1]])
        fc = cubes.prob(D, ths, before=[("realization", [0, 1], "1")], **kw)
    else:
        fc = cubes.prob(D, ths, **kw)
    if layout == "scalar":
        fc = fc[0]
    elif layout == "last":
        fc = cubes.transposed(fc, [PY, PX, "air_temperature"])

    def tab(k, shape=None):
        xs, ys = map(np.array, tabs[k])
        c = np.full(len(xs), 1000.0)
        o, s = ys * c, xs * c
        t = mk_table(o, s, c, [cubes.T0], th=ths[k])
        if not gt:
            t.coord("air_temperature").attributes["spp__relative_to_threshold"] = spp
        return t

    rel = CubeList([tab(k) for k in range(len(tabs))])
    if layout == "pbp":
        # a table for each point; they differ from point to point: swapped in odd columns
        rel = CubeList()
        for k in range(len(tabs)):
            for j in range(3):
                for i in range(4):
                    t = tab(k)
                    if (i + j) % 2:
                        t.data = t.data * np.array([0.5, 1, 1], np.float32).reshape(3, 1)
                    for ax, v in (("y", j), ("x", i)):
                        cc = fc.coord(axis=ax)[v]
                        t.add_aux_coord(cc)
                    rel.append(t)
    elif form == "cube":
        rel = rel.merge_cube() if len(rel) > 1 else rel[0]
    ref = fc.copy()
    with cubes.Unchanged(fc):
        r = A(point_by_point=layout == "pbp")(fc, rel)
    cov.step()
    names = [c.name() for c in ref.coords(dim_coords=True)]
    thn = ["air_temperature"] if layout != "scalar" else []
    lead = ["realization"] if layout == "realization" else []
    src = np.ma.getdata(cubes.arr(ref, *thn, *lead, PY, PX)).astype(float)
    if len(tabs) == 1 and thn and not r.coord_dims("air_temperature"):
        got = cubes.arr(r, *lead, PY, PX)[None]
        raise Violation("the threshold dimension of the forecast is lost", expected=names, got=[c.name() for c in r.coords(dim_coords=True)])
    got = cubes.arr(r, *thn, *lead, PY, PX)
    if not thn:
        src, got = src[None], got[None]
    want = np.empty(src.shape)
    for idx in np.ndindex(*src.shape):
        t = tabs[idx[0]]
        if layout == "pbp" and (idx[-1] + idx[-2]) % 2:
            t = (t[0], [v / 2 for v in t[1]])
        want[idx] = full((list(t[0]), list(t[1])), float(src[idx]))
    want = np.sort(want, axis=0)
    if gt:
        want = want[::-1]
    gm = np.ma.getmaskarray(got)
    wm = m if layout != "realization" else np.stack([m, m[::-1]])
    expect_same(gm, np.broadcast_to(wm, gm.shape), "masked points stay masked")
    expect_close(np.ma.getdata(got)[~gm], want[~gm], "the reliability curve of each threshold", rtol=1e-4, atol=1e-5)
    expect(r.data.dtype == np.float32, "type")
    if layout in ("plain", "scalar", "pbp"):
        cubes.expect_cube(r, cubes.describe(ref), "metadata of the forecast", ignore=("data", "masked", "title"))
    return layout


def c_missing(tier):
    for form in ("cube", "list"):
        for k in range(3):
            yield (form, k)


def missing(case, cov):
    """A threshold without table is refused, tables of other thresholds are not used."""
    import numpy as np
    import cubes
    from iris.cube import CubeList
    from improver.calibration.reliability_calibration import ApplyReliabilityCalibration as A

    form, k = case
    fc = cubes.prob(np.full((2, 2, 2), 0.5, np.float32), [280.0, 281.0], diag="air_temperature", tunits="K", attributes=ATT)
    xs, ys = map(np.array, TABLES[1])
    c = np.full(5, 1000.0)
    ths = [[280.0, 282.0], [279.0, 281.0], [280.5]][k]
    rel = CubeList([mk_table(ys * c, xs * c, c, [cubes.T0], th=t) for t in ths])
    if form == "cube":
        rel = rel.merge_cube() if len(rel) > 1 else rel[0]
    e = raises(A(), fc, rel)
    cov.step()
    expect(e is not None, "a threshold without a table must be refused")
    return "refused"


SECTIONS = [
    Section("bins", c_bins, bins, "1-12 (60) bins x single-valued ends"),
    Section("construct", c_construct, construct, "every bin edge and midpoint as forecast x 1-3 times x truth mask patterns x missing forecasts x aggregation x grid or sites"),
    Section("aggregate", c_aggregate, aggregate, "1-3 tables in every order x overlaps x collapsed coordinates"),
    Section("manipulate", c_manip, manip, "every table of 3 (4) bins over 5 counts and 4 observation frequencies"),
    Section("manipulate_points", c_pbp, manip_pbp, "per point and threshold"),
    Section("apply", c_apply, apply, "every pair of 6 reliability curves x relations x masks x forms x layouts"),
    Section("missing", c_missing, missing),
]

if __name__ == "__main__":
    main(globals())
