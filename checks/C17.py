"""C17: percentiles from realizations, percentiles and probabilities (ensemble copula coupling)."""
import itertools

from mc import Section, Violation, expect, expect_close, expect_same, main, raises

PROPERTY = "C17"


def frac_interp(x, xs, ys):
    """(smallest, largest) value at x of the polyline through (xs, ys) (xs non-decreasing), constant beyond its ends."""
    eps = 2e-6

    def inv(q, left):
        if q < xs[0] or (q == xs[0] and not left and xs[0] != xs[-1] and False):
            return ys[0]
        if q > xs[-1]:
            return ys[-1]
        best = None
        for a, b, u, v in zip(xs, xs[1:], ys, ys[1:]):
            if a <= q <= b:
                if a == b:
                    vals = (u, v)
                else:
                    t = (q - a) / (b - a)
                    vals = (u + t * (v - u),)
                for w in vals:
                    best = w if best is None else (min(best, w) if left else max(best, w))
        return ys[0] if best is None else best

    return inv(x - eps, True), inv(x + eps, False)


def expect_between(got, lo, hi, msg, rtol=3e-6, scale=1e-3):
    import numpy as np

    g = np.asarray(np.ma.getdata(got), float)
    lo, hi = np.asarray(lo, float), np.asarray(hi, float)
    tol = rtol * np.maximum(scale, np.maximum(abs(lo), abs(hi)))
    if g.shape != lo.shape:
        raise Violation(msg + ": shape", expected=lo.shape, got=g.shape)
    bad = ~((g >= lo - tol) & (g <= hi + tol))
    if bad.any():
        i = tuple(np.argwhere(bad)[0])
        raise Violation("%s at %s" % (msg, i), expected=(lo[i], hi[i]), got=g[i])


# ------------------------------------------------------------------ realizations -> percentiles
def c_rebadge(tier):
    for n in range(1, 6 if tier == "quick" else 8):
        for axis in (0, 1, 2) if n > 1 else (0, -1):
            for crps in (False, True):
                for dt in ("float32", "int32"):
                    for numbers in (0, 3):
                        yield (n, axis, crps, dt, numbers)


def rebadge(case, cov):
    import numpy as np
    import cubes
    from improver.ensemble_copula_coupling.ensemble_copula_coupling import RebadgeRealizationsAsPercentiles as P

    n, axis, crps, dt, first = case
    vals = list(itertools.product(range(3), repeat=n)) if n < 5 else list(itertools.permutations(range(n)))
    k = len(vals)
    ny = 3 if k % 3 == 0 else 2
    data = np.array(vals).T.reshape(n, ny, -1).astype(dt)
    c = cubes.grid(data, name="air_temperature", units="K", leading=[("realization", list(range(first, first + n)), "1")], attributes={"a": "b"})
    if axis > 0:
        names = [d.name() for d in c.coords(dim_coords=True)]
        names.insert(axis, names.pop(0))
        c = cubes.transposed(c, names)
    elif axis < 0:
        c = c[0]
    with cubes.Unchanged(c):
        r = P(crps)(c) if crps else P()(c)
    cov.step()
    want = [100 * (i + 0.5) / n for i in range(n)] if crps else [100 * (i + 1) / (n + 1) for i in range(n)]
    pc = r.coord("percentile")
    expect_close(pc.points, want, "percentile values")
    expect(str(pc.units) == "%" and str(pc.points.dtype) == "float32" and not r.coords("realization"), "percentile coordinate", got=pc)
    d = cubes.describe(c)
    g = cubes.describe(r)
    expect(g["shape"] == d["shape"] and g["dtype"] == d["dtype"], "shape and type are kept")
    if axis >= 0:
        expect_same(cubes.arr(r, "percentile", "projection_y_coordinate", "projection_x_coordinate"), np.sort(data, axis=0), "each point's values in order")
    else:
        expect_same(r.data, data[0], "values")
    d["coords"].pop("realization")
    g["coords"].pop("percentile")
    d["dim_coords"] = [("percentile" if x == "realization" else x) for x in d["dim_coords"]]
    cubes.expect_cube(g, d, "everything else is kept", ignore=("data",))
    expect(isinstance(raises(P(), r), Exception), "a cube without realizations must be refused")
    return n


PCT = [0, 10, 20, 25, 30, 40, 50, 60, 70, 75, 80, 90, 100]


def c_unbadge(tier):
    for n in range(1, 5 if tier == "quick" else 7):
        for s in itertools.combinations(PCT, n):
            yield s
    for m in range(5, 14):
        yield tuple(100 * (i + 1) / (m + 1) for i in range(m))
        yield tuple(100 * (i + 0.5) / m for i in range(m))
        yield tuple(100 * i / (m + 1) for i in range(m + 2))


def unbadge(case, cov):
    import numpy as np
    import cubes
    from improver.ensemble_copula_coupling.ensemble_copula_coupling import RebadgePercentilesAsRealizations as P

    pts = [float(np.float32(x)) for x in case]
    n = len(pts)
    data = np.arange(n * 4, dtype=np.float32).reshape(n, 2, 2)

    def cube():
        return cubes.grid(data, name="air_temperature", units="K", leading=[("percentile", pts, "%")])

    full = sorted(set(pts) | {0.0, 100.0})
    gaps = [b - a for a, b in zip(full, full[1:])]
    ok = max(gaps) - min(gaps) < 1e-3
    numbers = np.arange(5, 5 + 2 * n, 2)
    for nums in (None, numbers):
        c = cube()
        cov.step()
        if not ok:
            expect(isinstance(raises(P(), c, ensemble_realization_numbers=nums), ValueError), "percentiles that do not partition evenly must be refused", got=pts)
            continue
        r = P()(c, ensemble_realization_numbers=nums)
        rc = r.coord("realization")
        expect_same(rc.points, np.arange(n, dtype=np.int32) if nums is None else numbers.astype(np.int32), "realization numbers")
        expect(str(rc.points.dtype) == "int32" and str(rc.units) == "1" and not r.coords("percentile"), "realization coordinate")
        expect_same(r.data, data, "data")
        d, g = cubes.describe(cube()), cubes.describe(r)
        d["coords"].pop("percentile")
        g["coords"].pop("realization")
        cubes.expect_cube(g, d, "everything else is kept", ignore=("dim_coords",))
    if ok:
        from iris.coords import AuxCoord

        c = cube()
        c.add_aux_coord(AuxCoord(np.int32(1), "realization", units="1"))
        expect(raises(P(), c) is not None, "an existing realization coordinate must be refused")
    return ok


# ------------------------------------------------------------------ percentiles -> percentiles
IN_SETS = [(50,), (25, 75), (20, 40, 60, 80), (10, 50, 60), (0, 50, 100), (5, 95), (33.3, 66.6, 99)]
OUT_SETS = [[50], [10, 90], [20, 40, 60, 80], [0, 100], [5, 25, 50, 75, 95], [1], [90, 10], 1, 2, 3, 5, None]
DIAG = [("air_temperature", "K", (173.15, 333.15)), ("lwe_precipitation_rate", "m s-1", (0, 400 / 3.6e6)), ("wind_speed", "km h-1", (0, 180.0)), ("air_temperature", "celsius", (-100, 60))]
LEADS = [(), (("realization", [0, 1], "1"),), (("time", [1510272000 + 3600, 1510272000 + 7200], "seconds since 1970-01-01 00:00:00"),)]


def rows(n, m):
    """All non-decreasing sequences of n indices below m."""
    return list(itertools.combinations_with_replacement(range(m), n))


def c_resample(tier):
    for i in range(len(IN_SETS)):
        for j in range(len(OUT_SETS)):
            for d in range(len(DIAG)) if tier != "quick" else (i % 4, (i + j + 1) % 4):
                for skip in (0, 1):
                    for lead in range(3):
                        for order in (0, 1):
                            yield (i, j, d, skip, lead, order, (i + j + d + lead + order) % 3)


def resample(case, cov):
    import numpy as np
    import cubes
    from improver.ensemble_copula_coupling.ensemble_copula_coupling import ResamplePercentiles as P

    i, j, d, skip, lead, order, mk = case
    pin = [float(np.float32(x)) for x in IN_SETS[i]]
    pout = OUT_SETS[j]
    name, units, (lo, hi) = DIAG[d]
    n = len(pin)
    levels = [lo + (hi - lo) * f for f in (0.0, 0.1, 0.11, 0.6, 1.0)]
    seqs = rows(n, 5)
    k = len(seqs)
    ny = 2 if k % 2 == 0 else 1
    base = np.array([[levels[v] for v in s] for s in seqs], float).T.reshape(n, ny, -1)
    lead_ = list(LEADS[lead])
    if lead_:
        base = np.stack([base, np.roll(base, 1, axis=-1)], axis=1)
    base = base.astype(np.float32)
    base = np.clip(base, np.float32(lo) if name != "air_temperature" else base.min(), base.max())
    mask = None
    if mk:
        m = np.zeros(base.shape[1:], bool)
        m.flat[0] = True
        if mk == 2:
            m.flat[m.size - 1] = True
        mask = np.broadcast_to(m, base.shape).copy()
        data = np.ma.masked_array(base, mask)
    else:
        data = base
    c = cubes.grid(data, name=name, units=units, leading=[("percentile", pin, "%")] + lead_)
    if order:
        names = [x.name() for x in c.coords(dim_coords=True)]
        c = cubes.transposed(c, names[1:] + names[:1])
    kw = {}
    if isinstance(pout, list):
        kw = {"percentiles": pout}
        outs = [float(x) for x in pout]
    else:
        m = n if pout is None else pout
        outs = [100.0 * (q + 1) / (m + 1) for q in range(m)]
        if pout is not None:
            kw = {"no_of_percentiles": pout}
    ref = c.copy()
    # values may exceed the bounds by rounding: allow the documented widening
    r = P(ecc_bounds_warning=True, skip_ecc_bounds=bool(skip))(c, **kw)
    cov.step()
    xs, tail = pin, []
    ends = not skip
    pts = ["projection_y_coordinate", "projection_x_coordinate"]
    nms = [x[0] for x in lead_] + pts
    got = cubes.arr(r, "percentile", *nms) if len(outs) > 1 else cubes.arr(r, *nms)[None]
    pc = r.coord("percentile")
    expect_close(sorted(pc.points), sorted(outs), "percentile coordinate", rtol=1e-6)
    expect(str(pc.units) == "%" and pc.points.dtype == np.float32, "percentile coordinate")
    lo_, hi_ = np.empty(got.shape), np.empty(got.shape)
    for idx in np.ndindex(*base.shape[1:]):
        ys = [float(base[(q,) + idx]) for q in range(n)]
        fx, fy = (list(pin), ys) if skip else ([0.0] + list(pin) + [100.0], [lo] + ys + [hi])
        for q, p in enumerate(pc.points):
            a, b = frac_interp(float(p), fx, fy)
            lo_[(q,) + idx], hi_[(q,) + idx] = a, b
    expect_same(np.ma.getmaskarray(got), np.broadcast_to(np.ma.getmaskarray(data)[:1], got.shape) if mk else np.zeros(got.shape, bool), "mask")
    keep = ~np.ma.getmaskarray(got)
    expect_between(np.ma.getdata(got)[keep], lo_[keep], hi_[keep], "values at the percentiles", rtol=2e-5, scale=0.1 * (hi - lo))
    expect(got.dtype == np.float32, "float32 values", got=got.dtype)
    de, g = cubes.describe(ref), cubes.describe(r)
    de["coords"].pop("percentile")
    g["coords"].pop("percentile")
    drop = ("data", "shape", "dim_coords", "dtype", "masked")
    for dd in (de, g):
        dd["coords"] = {kk: v[0] for kk, v in dd["coords"].items()}
    cubes.expect_cube(g, de, "other metadata is kept", ignore=drop)
    if r.coords("percentile", dim_coords=True):
        expect(r.coord_dims("percentile") == (0,), "percentile is the leading dimension")
    return "%d->%d" % (n, len(outs))


def c_bounds(tier):
    for d in range(4):
        for over in ("low", "high", "both", "none"):
            for warn in (0, 1):
                for skip in (0, 1):
                    for what in ("percentiles", "above", "below"):
                        yield (d, over, warn, skip, what)


def bounds(case, cov):
    """Values outside the bounds of the diagnostic: an error, or (if asked) they become the new bounds."""
    import warnings
    import numpy as np
    import cubes
    from improver.ensemble_copula_coupling.ensemble_copula_coupling import ConvertProbabilitiesToPercentiles, ResamplePercentiles

    d, over, warn, skip, what = case
    name, units, (lo, hi) = DIAG[d]
    w = hi - lo
    vals = [lo + 0.1 * w, lo + 0.4 * w, lo + 0.9 * w]
    if over in ("low", "both"):
        vals[0] = lo - 0.5 * w
    if over in ("high", "both"):
        vals[2] = hi + 0.5 * w
    vals = [float(np.float32(v)) for v in vals]
    outs = [10.0, 20.0, 50.0, 95.0]
    if what == "percentiles":
        inside = [lo + 0.2 * w, lo + 0.5 * w, lo + 0.7 * w]
        # the points outside the bounds are neither the first nor all the same
        more = [lo - 0.2 * w if vals[0] < lo else vals[0], vals[1], hi + 0.2 * w if vals[2] > hi else vals[2]]
        data = np.array([inside, more, vals, inside], np.float32).T.reshape(3, 2, 2)
        c = cubes.grid(data, name=name, units=units, leading=[("percentile", [25, 50, 75], "%")])
        plug = ResamplePercentiles(ecc_bounds_warning=bool(warn), skip_ecc_bounds=bool(skip))
        pts = [([25.0, 50.0, 75.0], v) for v in (inside, more, vals, inside)]
    else:
        pr = np.array([[0.2, 0.0], [0.5, 0.3], [0.8, 1.0]], np.float32).reshape(3, 1, 2)
        c = cubes.prob(1 - pr if what == "above" else pr, vals, diag=name, tunits=units, spp="greater_than" if what == "above" else "less_than")
        plug = ConvertProbabilitiesToPercentiles(ecc_bounds_warning=bool(warn), skip_ecc_bounds=bool(skip))
        pts = [([20.0, 50.0, 80.0], vals), ([0.0, 30.0, 100.0], vals)]
    cov.step()
    with warnings.catch_warnings(record=True) as ws:
        warnings.simplefilter("always")
        err = None
        try:
            r = plug(c.copy(), percentiles=list(outs))
        except ValueError as exc:
            err = exc
    told = [str(x.message) for x in ws if "numba" not in str(x.message).lower() and "bounds" in str(x.message)]
    if over != "none" and not skip and not warn:
        expect(err is not None, "values outside the bounds must be refused", got="accepted")
        return "refused"
    expect(err is None, "must be accepted", got=err)
    expect(bool(told) == (over != "none" and not skip), "a warning is given exactly when values exceed the bounds", got=told)
    nlo, nhi = (min([lo] + vals), max([hi] + vals))
    shape = (4, len(pts) // 2, 2)
    want_lo, want_hi = np.empty(shape), np.empty(shape)
    for k, (xs, ys) in enumerate(pts):
        if not skip:
            xs, ys = [0.0] + xs + [100.0], [nlo] + list(ys) + [nhi]
        for q, p in enumerate(outs):
            want_lo[q, k // 2, k % 2], want_hi[q, k // 2, k % 2] = frac_interp(p, xs, ys)
    expect_between(cubes.arr(r, "percentile", "projection_y_coordinate", "projection_x_coordinate"), want_lo, want_hi, "values", rtol=2e-5, scale=0.1 * (hi - lo))
    return over


# ------------------------------------------------------------------ probabilities -> percentiles
def c_probs(tier):
    dl = range(len(DIAG))
    for n in (1, 2, 3):
        for spp in ("greater_than", "greater_than_or_equal_to", "less_than", "less_than_or_equal_to"):
            for j in range(len(OUT_SETS)):
                for d in dl if tier != "quick" else ((n + j) % 4,):
                    for skip in (0, 1):
                        for lead in range(3):
                            for order in (0, 1):
                                yield (n, spp, j, d, skip, lead, order, (n + j + d + lead) % 3, (j + order + lead) % 2)


def probs(case, cov):
    import numpy as np
    import cubes
    from iris.coords import CellMethod
    from improver.ensemble_copula_coupling.ensemble_copula_coupling import ConvertProbabilitiesToPercentiles as P

    n, spp, j, d, skip, lead, order, mk, capped = case
    name, units, (lo, hi) = DIAG[d]
    pout = OUT_SETS[j]
    above = "greater" in spp
    fr = {1: (0.4,), 2: (0.2, 0.9), 3: (0.05, 0.3, 0.8)}[n]
    th = [float(np.float32(lo + (hi - lo) * f)) for f in fr]
    levels = [0.0, 0.10004, 0.5, 0.75003, 1.0]
    seqs = rows(n, 5)
    cdf = np.array([[levels[v] for v in s] for s in seqs]).T
    k = len(seqs)
    ny = 5 if k % 5 == 0 else 1
    base = cdf.reshape(n, ny, -1)
    lead_ = list(LEADS[lead])
    if lead_:
        base = np.stack([base, np.roll(base, 3, axis=-1)], axis=1)
    pr = (1 - base if above else base).astype(np.float32)
    if mk:
        m = np.zeros(base.shape[1:], bool)
        m.flat[0 if mk == 1 else 4] = True
        data = np.ma.masked_array(pr, np.broadcast_to(m, pr.shape).copy())
    else:
        m = np.zeros(base.shape[1:], bool)
        data = pr
    # prob() puts the threshold dimension after those in 'before'; move it first
    nb = len(lead_)
    c = cubes.prob(np.moveaxis(data, 0, nb) if not mk else np.ma.masked_array(np.moveaxis(data.data, 0, nb), np.moveaxis(data.mask, 0, nb)), th, diag=name, tunits=units, spp=spp, before=lead_)
    if order:
        names = [x.name() for x in c.coords(dim_coords=True)]
        nm = names.pop(nb)
        c = cubes.transposed(c, names + [nm] if order == 1 and lead != 1 else [nm] + names)
    c.cell_methods = (CellMethod("maximum", coords="time", comments="of %s" % name),)
    c.attributes["keep"] = "me"
    ref = c.copy()
    kw = {}
    if isinstance(pout, list):
        kw = {"percentiles": pout}
        outs = [float(x) for x in pout]
    else:
        mm = n if pout is None else pout
        outs = [100.0 * (q + 1) / (mm + 1) for q in range(mm)]
        if pout is not None:
            kw = {"no_of_percentiles": pout}
    r = P(skip_ecc_bounds=bool(skip), mask_percentiles=bool(capped))(c, **kw)
    cov.step()
    nms = [x[0] for x in lead_] + ["projection_y_coordinate", "projection_x_coordinate"]
    got = cubes.arr(r, "percentile", *nms) if len(outs) > 1 else cubes.arr(r, *nms)[None]
    pc = r.coord("percentile")
    expect_close(pc.points, sorted(outs) if len(outs) > 1 else outs, "percentile coordinate", rtol=1e-6)
    expect(str(pc.units) == "%" and pc.points.dtype == np.float32 and got.dtype == np.float32, "types and units")
    gm = np.ma.getmaskarray(got)
    for idx in np.ndindex(*base.shape[1:]):
        f = [float(base[(q,) + idx]) for q in range(n)]
        xs, ys = (f, th) if skip else ([0.0] + f + [1.0], [lo] + th + [hi])
        for q, p in enumerate(pc.points):
            p = float(p) / 100
            i = (q,) + idx
            if m[idx]:
                expect(gm[i], "a masked point stays masked")
                continue
            if capped and abs(f[-1] - p) > 1e-5:
                expect(bool(gm[i]) == (p > f[-1]), "percentiles above the probability of the last threshold are masked", expected=p > f[-1], got=gm[i])
            elif not capped:
                expect(not gm[i], "no point becomes masked", got=(i, p, f))
            if gm[i]:
                continue
            a, b = frac_interp(p, xs, ys)
            tol = 3e-5 * max(abs(a), abs(b), 1e-4 * (hi - lo))
            v = float(np.ma.getdata(got)[i])
            expect(a - tol <= v <= b + tol, "value of percentile %s for distribution %s over %s" % (p, xs, ys), expected=(a, b), got=v)
    expect(r.name() == name and str(r.units) == str(ref.coord(name).units), "name and units of the diagnostic", got=(r.name(), str(r.units)))
    expect([(x.method, tuple(x.coord_names), tuple(x.comments)) for x in r.cell_methods] == [("maximum", ("time",), ())], "cell methods refer to the diagnostic", got=r.cell_methods)
    expect(dict(r.attributes) == {"keep": "me"}, "attributes")
    de, g = cubes.describe(ref)["coords"], cubes.describe(r)["coords"]
    de.pop(name)
    g.pop("percentile")
    cubes.expect_cube({kk: v[0] for kk, v in g.items()}, {kk: v[0] for kk, v in de.items()}, "other coordinates are kept")
    return "%d->%d" % (n, len(outs))


# ------------------------------------------------------------------ the compiled versions of the interpolation
def c_numba(tier):
    for n in (1, 2, 3, 4):
        for q in itertools.permutations((0.0, 0.1, 0.3, 0.5, 0.75, 1.0, 1.2, -0.1), 3 if tier != "quick" else 2):
            yield (n, q)


def numba(case, cov):
    import sys
    import types
    import numpy as np

    if "numba" not in sys.modules:
        # The module only needs the decorators; without compilation the functions compute the same thing.
        m = types.ModuleType("numba")
        m.njit = lambda *a, **k: (a[0] if a and callable(a[0]) else (lambda f: f))
        m.prange = range
        m.config = types.SimpleNamespace()
        m.set_num_threads = lambda n: None
        sys.modules["numba"] = m
        try:
            import improver.ensemble_copula_coupling.numba_utilities as nu
        finally:
            del sys.modules["numba"]
    import improver.ensemble_copula_coupling.numba_utilities as nu
    from improver.ensemble_copula_coupling import utilities as u

    n, q = case
    x = np.array(q)
    levels = [0.0, 0.1, 0.5, 0.75, 1.0]
    grid = np.array([[levels[v] for v in s] for s in rows(n, 5)])
    ys = np.array([2.0, 3.0, 7.0, 7.5, 20.0][:n])
    fast, slow = nu.fast_interp_same_y(x, grid, ys), u.slow_interp_same_y(x, grid, ys)
    cov.step(2)
    for i, row in enumerate(grid):
        for k, p in enumerate(q):
            a, b = frac_interp(p, list(row), list(ys))
            for nm, res in (("fast", fast), ("slow", slow)):
                expect(a - 1e-3 <= res[i, k] <= b + 1e-3, "%s interpolation over thresholds" % nm, expected=(a, b), got=res[i, k])
    xs = np.array([0.1, 0.3, 0.75, 1.0][:n])
    fast, slow = nu.fast_interp_same_x(x, xs, grid), u.slow_interp_same_x(x, xs, grid)
    cov.step(2)
    for i, row in enumerate(grid):
        for k, p in enumerate(q):
            want = np.interp(p, xs, row)
            for nm, res in (("fast", fast), ("slow", slow)):
                expect(abs(want - res[i, k]) < 1e-6, "%s interpolation over percentiles" % nm, expected=want, got=res[i, k])
    expect(fast.dtype == np.float32 and slow.dtype == np.float32, "type")
    return n


# ------------------------------------------------------------------ commands
def c_command(tier):
    for src in ("above", "below", "percentiles", "realizations"):
        for count in (None, 1, 2, 3, 4):
            for skip in (0, 1):
                for cmd in ("generate-realizations", "generate-percentiles"):
                    yield (src, count, skip, cmd)


def command(case, cov):
    import numpy as np
    import cubes
    from improver.cli import command_executor

    src, count, skip, cmd = case
    th = [280.0, 290.0, 300.0]
    p = np.array([[0.1, 0.3], [0.5, 0.3], [0.8, 0.9]], np.float32).reshape(3, 1, 2)
    if src in ("above", "below"):
        c = cubes.prob(1 - p if src == "above" else p, th, diag="air_temperature", tunits="K", spp="greater_than" if src == "above" else "less_than")
        curves = [([0.1, 0.5, 0.8], th), ([0.3, 0.3, 0.9], th)]
    elif src == "percentiles":
        data = np.array([[280, 281], [290, 300], [300, 300]], np.float32).reshape(3, 1, 2)
        c = cubes.grid(data, name="air_temperature", units="K", leading=[("percentile", [10, 50, 80], "%")])
        curves = [([0.1, 0.5, 0.8], [280, 290, 300]), ([0.1, 0.5, 0.8], [281, 300, 300])]
    else:
        data = np.array([[290, 281], [280, 300], [300, 291]], np.float32).reshape(3, 1, 2)
        c = cubes.grid(data, name="air_temperature", units="K", leading=[("realization", [0, 1, 2], "1")])
    cov.step()
    if cmd == "generate-realizations":
        args = [c.copy()] + (["--realizations-count", str(count)] if count else []) + (["--skip-ecc-bounds"] if skip else [])
        call = lambda: command_executor("improver", cmd, *args)  # noqa
        if src == "realizations":
            r = call()
            cubes.expect_cube(r, c, "realizations are returned as they are")
            return "same"
        if count is None:
            expect(isinstance(raises(call), ValueError), "the number of realizations must be given")
            return "refused"
        r = call()
        n = count
        fr = [(i + 1) / (n + 1) for i in range(n)]
        expect_same(r.coord("realization").points, np.arange(n, dtype=np.int32), "realization numbers")
        got = r.data.reshape(n, 2)
    else:
        if src == "percentiles":
            return "n/a"
        if src == "realizations":
            r = command_executor("improver", cmd, c.copy(), *(["--optimal-crps-percentiles"] if skip else []))
            expect_close(r.coord("percentile").points, [100 / 6, 50, 500 / 6] if skip else [25, 50, 75], "percentiles")
            expect_same(r.data, np.sort(data, axis=0), "sorted")
            return "rebadged"
        fr = {None: None, 1: [0.5], 2: [0.2, 0.6], 3: [0.0, 0.5, 1.0], 4: [0.15, 0.3, 0.79, 0.99]}[count]
        args = [c.copy()] + (["--percentiles", ",".join("%g" % (100 * f) for f in fr)] if fr else []) + (["--skip-ecc-bounds"] if skip else [])
        r = command_executor("improver", cmd, *args)
        if fr is None:
            fr = [0.25, 0.5, 0.75]
        expect_close(r.coord("percentile").points, [100 * f for f in fr], "percentiles")
        got = r.data.reshape(len(fr), 2)
    lo, hi = 173.15, 333.15
    for k, (xs, ys) in enumerate(curves):
        if not skip:
            xs, ys = [0.0] + list(xs) + [1.0], [lo] + list(ys) + [hi]
        for i, f in enumerate(fr):
            a, b = frac_interp(f, xs, ys)
            expect(a - 2e-3 <= got[i, k] <= b + 2e-3, "value at %s" % f, expected=(a, b), got=got[i, k])
    return cmd


SECTIONS = [
    Section("rebadge", c_rebadge, rebadge, "every assignment of 3 values to up to 4 realizations, every order of 5 (7); all positions of the realization dimension"),
    Section("unbadge", c_unbadge, unbadge, "every set of up to 4 (6) of 13 percentiles, regular sets of 5-13"),
    Section("resample", c_resample, resample, "7 input x 12 output percentile sets x every non-decreasing forecast over 5 levels x bounds x layouts x masks"),
    Section("bounds", c_bounds, bounds, "exceeding either bound, with and without permission, 4 diagnostics and units"),
    Section("probabilities", c_probs, probs, "every cumulative distribution over 5 levels for up to 3 thresholds x 4 relations x 12 outputs x layouts x masks x capping"),
    Section("interpolation", c_numba, numba, "both interpolation routines on all monotone rows, compiled versions run uncompiled"),
    Section("command", c_command, command, "generate-realizations, generate-percentiles"),
]

if __name__ == "__main__":
    main(globals())
