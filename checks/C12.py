"""C12: neighbourhood processing - means, sums and percentiles over square and circular neighbourhoods, with masks."""
import itertools

from mc import Section, Violation, expect, expect_close, expect_same, main, raises

PROPERTY = "C12"
KERNELS = {}


def weights(method, r):
    """{(dy, dx): weight} of a neighbourhood of r grid cells."""
    out = {}
    for dy in range(-r, r + 1):
        for dx in range(-r, r + 1):
            d = dy * dy + dx * dx
            if method == "square":
                out[dy, dx] = 1.0
            elif method == "circular" and d <= r * r:
                out[dy, dx] = 1.0
            elif method == "weighted" and d < r * r:
                out[dy, dx] = (r * r - d) / (r * r)
    return out


def operator(method, r, ny, nx):
    """Matrix A with A[p, q] = total weight of point q in the neighbourhood of p (outside the domain: nothing for
    squares, the nearest edge point for circles)."""
    import numpy as np

    key = (method, r, ny, nx)
    if key not in KERNELS:
        A = np.zeros((ny * nx, ny * nx))
        for y in range(ny):
            for x in range(nx):
                for (dy, dx), w in weights(method, r).items():
                    yy, xx = y + dy, x + dx
                    if method == "square":
                        if not (0 <= yy < ny and 0 <= xx < nx):
                            continue
                    else:
                        yy, xx = min(max(yy, 0), ny - 1), min(max(xx, 0), nx - 1)
                    A[y * nx + x, yy * nx + xx] += w
        KERNELS[key] = A
    return KERNELS[key]


def model(fields, valid, method, r, sum_only):
    """fields, valid: (n, ny, nx). Neighbourhood mean (nan where nothing is valid) or sum."""
    import numpy as np

    n, ny, nx = fields.shape
    A = operator(method, r, ny, nx)
    v = valid.reshape(n, -1).astype(float)
    f = np.where(valid, fields, 0).reshape(n, -1)
    tot = f @ A.T
    if sum_only:
        return tot.reshape(fields.shape)
    cnt = v @ A.T
    with np.errstate(all="ignore"):
        return np.where(cnt > 1e-9, tot / np.where(cnt > 1e-9, cnt, 1), np.nan).reshape(fields.shape)


def run(fields, mask, mask_cube, method, r, sum_only, re_mask, spacing=2000.0):
    import numpy as np
    import cubes
    from improver.nbhood.nbhood import NeighbourhoodProcessing

    n = fields.shape[0]
    data = fields.astype(np.float32)
    if mask is not None:
        data = np.ma.array(data, mask=np.broadcast_to(mask, data.shape).copy())
    cube = cubes.grid(data, leading=[("realization", range(n), "1")], spacing=spacing)
    mc = None if mask_cube is None else cubes.grid(mask_cube, name="land_binary_mask", time=None, spacing=spacing)
    p = NeighbourhoodProcessing("square" if method == "square" else "circular", r * spacing, weighted_mode=method == "weighted",
                                sum_only=sum_only, re_mask=re_mask)
    with cubes.Unchanged(cube, *([mc] if mc is not None else [])):
        out = p(cube, mask_cube=mc)
    return cube, out


def compare(fields, mask, mask_cube, method, r, sum_only, re_mask, cov, label):
    import numpy as np
    import cubes

    cube, out = run(fields, mask, mask_cube, method, r, sum_only, re_mask)
    valid = np.ones(fields.shape, bool)
    if mask is not None:
        valid &= ~np.broadcast_to(mask, fields.shape)
    if mask_cube is not None:
        valid &= np.broadcast_to(mask_cube != 0, fields.shape)
    want = model(fields.astype(np.float32).astype(float), valid, method, r, sum_only)
    got = out.data
    gm = np.ma.getmaskarray(got)
    want_mask = ~valid if re_mask else np.zeros_like(valid)
    expect_same(gm, want_mask, "mask of the result: %s" % (label,))
    g = np.ma.getdata(got)
    expect(g.dtype == np.float32, "type of the result", "float32", g.dtype)
    ok = ~want_mask
    if not np.allclose(g[ok], want[ok], rtol=1e-5, atol=1e-6, equal_nan=True):
        bad = [k for k in range(len(fields)) if not np.allclose(g[k][ok[k]], want[k][ok[k]], rtol=1e-5, atol=1e-6, equal_nan=True)][0]
        raise Violation("neighbourhood of %s for field %s" % (label, fields[bad].tolist()), expected=want[bad].tolist(), got=g[bad].tolist())
    r1 = cubes.diff(cubes.describe(out, data=False), cubes.describe(cube, data=False))
    expect(r1 is None, "metadata of the result: %s" % r1)
    cov.step(len(fields))
    cov.trace(len(fields))
    for k in range(len(fields)):
        cov.state(method, r, sum_only, re_mask, fields[k], valid[k])
    return got


# ------------------------------------------------------------------ rectangles of special values
PAIRS = [(0, 1), (1, 0), (0, 0.5), (1, 0.5), (0.25, 1), (0.25, "d"), (1, "d"), (0, "d")]


def check_rect(case, cov):
    import numpy as np

    method, r, (bg, sp), mk, opts, rows, (ny, nx) = case
    ys, ye = rows
    sum_only, re_mask = opts
    fields = []
    for xs in range(nx):
        for xe in range(xs + 1, nx + 1):
            f = np.full((ny, nx), float(bg))
            f[ys:ye, xs:xe] = sp if sp != "d" else (1 + np.arange((ye - ys) * (xe - xs)).reshape(ye - ys, xe - xs)) / 64.0
            fields.append(f)
    fields = np.array(fields)
    mask = mc = None
    if "a" in mk:
        mask = np.zeros((ny, nx), bool)
        mask[1:3, 2:] = True
    if "A" in mk:  # everything but a corner
        mask = np.ones((ny, nx), bool)
        mask[0, 0] = mask[0, 1] = False
    if "c" in mk:
        mc = np.ones((ny, nx), np.int32)
        mc[:, 1] = 0
        mc[ny - 1, :] = 0
    compare(fields, mask, mc, method, r, bool(sum_only), bool(re_mask), cov, case)


def cases_rect(tier):
    shape = [5, 6] if tier == "quick" else [6, 8]
    ny, nx = shape
    rows = [[a, b] for a in range(ny) for b in range(a + 1, ny + 1)]
    for method in ("square", "circular", "weighted"):
        for r in (1, 2) if tier == "quick" else (1, 2, 3):
            for pr in PAIRS:
                for mk in ("", "a", "A", "c", "ac"):
                    for opts in ([0, 1], [0, 0], [1, 1]):
                        if tier == "quick" and (mk and r == 2 or mk == "A" and opts[0] or method != "square" and mk in ("a", "c") or mk == "ac" and pr[1] == "d"):
                            continue
                        if not mk and opts == [0, 0]:
                            continue
                        for rw in rows:
                            yield [method, r, pr, mk, opts, rw, shape]


# ------------------------------------------------------------------ every binary field and every mask
def check_binary(case, cov):
    import numpy as np

    method, kind, block = case
    if kind == "field":
        ny, nx = 3, 4
        bits = [(block * 64 + k) for k in range(64)]
        fields = np.array([[(b >> i) & 1 for i in range(12)] for b in bits], float).reshape(-1, ny, nx)
        compare(fields, None, None, method, 1, False, True, cov, case)
    else:
        ny = nx = 3
        fields = np.array([[[1, 0, 1], [0.5, 0.25, 1], [1, 1, 0]], [[1, 2, 4], [8, 16, 32], [64, 128, 256]], [[1, 1, 1], [1, 1, 1], [1, 1, 0.5]]], float)
        for b in range(block * 16, block * 16 + 16):
            m = np.array([(b >> i) & 1 for i in range(9)], bool).reshape(ny, nx)
            if m.all():
                continue
            compare(fields, m, None, method, 1, False, True, cov, case)
            compare(fields, None, (~m).astype(np.int32), method, 1, False, False, cov, case)


def cases_binary(tier):
    for method in ("square", "circular"):
        for blk in range(64):
            yield [method, "field", blk]
        for blk in range(32):
            yield [method, "mask", blk]


# ------------------------------------------------------------------ radii, lead times, refusals
def check_radius(case, cov):
    import numpy as np
    import cubes
    from improver.nbhood.nbhood import NeighbourhoodProcessing, GeneratePercentilesFromANeighbourhood

    what = case[0]
    ny, nx = 7, 9
    f = np.zeros((ny, nx), np.float32)
    f[3, 4] = 1.0
    if what == "radius":
        _, method, spacing, radius = case
        cube = cubes.grid(f, spacing=spacing)
        p = lambda: NeighbourhoodProcessing(method, radius)(cube)  # noqa
        cells = int(radius / abs(spacing))
        half_diag = 0.5 * np.hypot((ny - 1) * spacing, (nx - 1) * spacing)
        if radius > half_diag or cells == 0:
            expect(isinstance(raises(p), ValueError), "radius %s on a grid of %s m is accepted" % (radius, spacing), ValueError)
            return "refused"
        got = p().data
        expect_close(got, model(f[None].astype(float), np.ones((1, ny, nx), bool), method, cells, False)[0], "radius %s m on %s m" % (radius, spacing))
        return "cells%d" % cells
    if what == "lead":
        _, method, fp_hours, radii, leads = case
        cube = cubes.grid(f, spacing=2000.0, time=cubes.T0 + int(fp_hours * 3600))
        radius = float(np.interp(fp_hours, leads, radii))
        got = NeighbourhoodProcessing(method, [float(x) for x in radii], lead_times=list(leads))(cube).data
        want = NeighbourhoodProcessing(method, radius)(cube).data
        expect_close(got, want, "radius interpolated to lead time %s" % fp_hours)
        expect_close(got, model(f[None].astype(float), np.ones((1, ny, nx), bool), method, int(radius / 2000), False)[0], "lead time radius")
        return "r%d" % int(radius / 2000)
    if what == "refuse":
        _, how = case
        cube = cubes.grid(f)
        if how == "nan":
            cube.data[2, 2] = np.nan
            expect(isinstance(raises(NeighbourhoodProcessing("square", 2000.0), cube), ValueError), "NaN is accepted")
        elif how == "maskednan":
            d = np.ma.array(f.copy(), mask=f > 0.5)
            d.data[3, 4] = np.nan
            c = cubes.grid(d)
            r = NeighbourhoodProcessing("square", 2000.0)(c).data
            expect_same(np.ma.getmaskarray(r), f > 0.5, "mask")
            expect(np.all(r[~np.ma.getmaskarray(r)] == 0), "masked NaN leaks", 0, r)
        elif how == "method":
            for m in ("Square", "round", ""):
                expect(isinstance(raises(NeighbourhoodProcessing, m, 2000.0), ValueError), "method %r accepted" % m)
        elif how == "weighted":
            expect(isinstance(raises(NeighbourhoodProcessing, "square", 2000.0, weighted_mode=True), ValueError), "weighted square accepted")
        elif how == "lengths":
            expect(isinstance(raises(NeighbourhoodProcessing, "square", [2000.0], lead_times=[1, 2]), ValueError), "lengths accepted")
        elif how == "latlon":
            c = cubes.grid(f, spatial="latlon", spacing=1.0)
            expect(isinstance(raises(NeighbourhoodProcessing("square", 2000.0), c), ValueError), "lat-lon grid accepted")
        elif how == "unequal":
            c = cubes.grid(f, spacing=(2000.0, 3000.0))
            expect(isinstance(raises(NeighbourhoodProcessing("square", 4000.0), c), ValueError), "grid of unequal spacing accepted")
        elif how == "pmask":
            c = cubes.grid(np.ma.array(f, mask=f > 0.5))
            expect(raises(GeneratePercentilesFromANeighbourhood(2000.0), c) is not None, "masked percentiles accepted")
        return how


def cases_radius(tier):
    for method in ("square", "circular"):
        for spacing in (2000.0, 1000.0, 2500.0):
            for radius in (500, 999, 1000, 1999, 2000, 2500, 3999, 4000, 4500, 6000, 7000, 9999, 10000, 10001, 12000, 13000):
                yield ["radius", method, spacing, float(radius)]
        for fp in (0, 1, 2, 3, 4.5, 6, 9, 12, 15):
            for radii, leads in (([2000, 6000], [3, 9]), ([6000, 2000], [3, 9]), ([2000, 4000, 8000], [0, 6, 12])):
                yield ["lead", method, fp, radii, leads]
    for how in ("nan", "maskednan", "method", "weighted", "lengths", "latlon", "unequal", "pmask"):
        yield ["refuse", how]


# ------------------------------------------------------------------ percentiles
def check_percentiles(case, cov):
    """Each percentile at each point is that of the values under the kernel, the field padded with edge means."""
    import numpy as np
    import cubes
    from improver.nbhood.nbhood import GeneratePercentilesFromANeighbourhood

    nreal, r, pcts, seed = case
    ny, nx = 5, 6
    base = (np.arange(nreal * ny * nx) * (7 + 2 * seed) % 41).reshape(nreal, ny, nx).astype(np.float32) / 4
    cube = cubes.grid(base if nreal > 1 else base[0], name="air_temperature", units="K", leading=[("realization", range(nreal), "1")] if nreal > 1 else [])
    with cubes.Unchanged(cube):
        out = GeneratePercentilesFromANeighbourhood(2000.0 * r, percentiles=pcts)(cube)
    order = [c.name() for c in out.coords(dim_coords=True)]
    want_order = (["realization"] if nreal > 1 else []) + (["percentile"] if len(pcts) > 1 else []) + ["projection_y_coordinate", "projection_x_coordinate"]
    expect(order == want_order, "dimensions", want_order, order)
    expect(np.array_equal(out.coord("percentile").points, np.array(pcts, np.float32)), "percentile coordinate", pcts, out.coord("percentile").points)
    expect(str(out.units) == "K" and out.name() == "air_temperature", "name and units")
    ker = np.array([[dy * dy + dx * dx <= r * r for dx in range(-r, r + 1)] for dy in range(-r, r + 1)])
    got = np.asarray(out.data).reshape(nreal, len(pcts), ny, nx)
    for k in range(nreal):
        pad = np.pad(base[k], r, mode="mean", stat_length=max(1, (2 * r + 1) // 2))
        for y in range(ny):
            for x in range(nx):
                vals = pad[y:y + 2 * r + 1, x:x + 2 * r + 1][ker].astype(np.float64)
                w = np.percentile(vals, pcts)
                expect_close(got[k, :, y, x], w, "percentiles at %s" % ([k, y, x],), rtol=1e-4, atol=1e-4)
                cov.state(case, k, y, x, got[k, :, y, x])
    cov.step(nreal)
    return "ok"


def cases_percentiles(tier):
    for nreal in (1, 2, 3):
        for r in (1, 2):
            for pcts in ([50], [10, 90], [0, 25, 50, 75, 100], [33.3]):
                for seed in range(3 if tier == "quick" else 9):
                    yield [nreal, r, pcts, seed]


# ------------------------------------------------------------------ iterating over masks
def check_zones(case, cov):
    """Each zone is processed on its own points; collapsing takes the weighted mean over the zones with a value."""
    import numpy as np
    import cubes
    from improver.nbhood.use_nbhood import ApplyNeighbourhoodProcessingWithAMask

    seq, lead, collapse, bounds, sum_only, lead_kind = case
    ny, nx = 4, 5
    A = (np.arange(20).reshape(ny, nx) % 7 / 4.0).astype(np.float32)
    B = np.zeros((ny, nx), np.float32)
    B[1, 1] = 1
    masks = {"A": None, "B": None, "M": np.zeros((ny, nx), bool), "N": np.zeros((ny, nx), bool)}
    masks["M"][0, :2] = True
    masks["N"][3, 3:] = True
    base = {"A": A, "B": B, "M": A, "N": A}
    n = len(seq)
    masked = any(s in "MN" for s in seq)
    data = np.stack([base[s] for s in seq])
    if masked:
        data = np.ma.array(data, mask=np.stack([masks[s] if masks[s] is not None else np.zeros((ny, nx), bool) for s in seq]))
    times = [cubes.T0 + 3600 * (3 + 3 * k) for k in range(n)]
    if lead == "time":
        cube = cubes.grid(data, leading=[("time", times, cubes.EPOCH)])
        if bounds:
            cube.coord("time").bounds = np.array([[t - 10800, t] for t in times], np.int64)
            cube.coord("forecast_period").bounds = np.array([[t - 10800 - cubes.T0, t - cubes.T0] for t in times], np.int32)
    else:
        cube = cubes.grid(data, leading=[("realization", range(n), "1")])
    zone = np.zeros((2, ny, nx), np.int32)
    zone[0, :, :3] = 1
    zone[1, :, 2:] = 1
    zone[:, 0, 4] = 0
    zc = cubes.grid(zone, name="topography_mask", leading=[("topographic_zone", [50, 150], "m")], time=None)
    wts = None
    if collapse:
        w = np.zeros((2, ny, nx), np.float32)
        w[0] = np.array([1, 0.75, 0.5, 0.25, 0.0], np.float32)
        w[1] = 1 - w[0]
        if collapse == "masked":
            w = np.ma.array(w, mask=np.broadcast_to(np.arange(nx) == 4, w.shape) & (np.arange(ny)[:, None] == 0))
        wts = cubes.grid(w, name="topographic_zone_weights", leading=[("topographic_zone", [50, 150], "m")], time=None)
    kw = {}
    radii, radius_of = 2000.0, lambda k: 1
    if lead_kind:
        radii, kw["lead_times"] = [2000.0, 4000.0], [3, 6]
        hours = [3 + 3 * k for k in range(n)] if lead == "time" else [4] * n
        radius_of = lambda k: int(np.interp(hours[k], [3, 6], [1, 2]))  # noqa
    p = ApplyNeighbourhoodProcessingWithAMask("topographic_zone", "square", radii, collapse_weights=wts, sum_only=sum_only, **kw)
    out = p(cube, zc)
    order = [c.name() for c in out.coords(dim_coords=True)]
    lname = "time" if lead == "time" else "realization"
    if n > 1:
        expect(order == [lname] + ([] if collapse else ["topographic_zone"]) + ["projection_y_coordinate", "projection_x_coordinate"], "dimensions", None, order)
    for nm in [lname, "time", "forecast_period"]:
        a, b = cube.coord(nm), out.coord(nm)
        expect_same(np.array(b.points), np.array(a.points), "%s points" % nm)
        expect((a.bounds is None) == (b.bounds is None) and (a.bounds is None or np.array_equal(a.bounds, b.bounds)), "%s bounds" % nm, a.bounds, b.bounds)
    got = np.ma.getdata(out.data).reshape((n,) + (() if collapse else (2,)) + (ny, nx))
    gm = np.ma.getmaskarray(out.data).reshape(got.shape)
    for k in range(n):
        valid0 = ~masks[seq[k]] if masks[seq[k]] is not None else np.ones((ny, nx), bool)
        per = np.stack([model(base[seq[k]][None].astype(float), (valid0 & (zone[z] != 0))[None], "square", radius_of(k), sum_only)[0] for z in range(2)])
        if collapse:
            w = np.ma.getdata(wts.data).astype(float)
            wm = np.ma.getmaskarray(wts.data)
            ok = ~np.isnan(per) & ~wm
            with np.errstate(all="ignore"):
                want = np.where(ok, per * w, 0).sum(0) / np.where(ok, w, 0).sum(0)
            check = np.where(ok, w, 0).sum(0) > 0
            expect_close(got[k][check], want[check], "slice %d of %s collapsed over the zones" % (k, seq), rtol=1e-4, atol=1e-5)
        else:
            expect_close(got[k], per, "slice %d of %s per zone" % (k, seq), rtol=1e-4, atol=1e-5)
    cov.step(n)
    cov.state(case, got, gm)
    return "ok"


def cases_zones(tier):
    seqs = ["A", "B"] + ["".join(s) for n in (2, 3) for s in itertools.product("AB", repeat=n)] + ["AM", "MA", "MN", "AMN", "MMN", "NMA"]
    if tier != "quick":
        seqs += ["".join(s) for s in itertools.product("ABMN", repeat=4)]
    for seq in seqs:
        for lead in ("time", "realization"):
            for collapse in (False, True, "masked"):
                for bounds in ((False, True) if lead == "time" else (False,)):
                    for sum_only in (False, True):
                        for lk in (False, True):
                            if collapse and sum_only:
                                continue
                            yield [seq, lead, collapse, bounds, sum_only, lk]


# ------------------------------------------------------------------ commands: nbhood, nbhood-land-and-sea
def check_cli(case, cov):
    import numpy as np
    import cubes
    from improver.cli import command_executor

    what = case[0]
    ny, nx = 5, 6
    if what == "land_sea":
        _, bits, shape, area_sum, lead = case
        f = (np.arange(30).reshape(ny, nx) * 5 % 9 / 8.0).astype(np.float32)
        land = np.zeros((ny, nx), np.int32)
        for i, (ys, xs) in enumerate(((slice(0, 2), slice(0, 3)), (slice(2, 5), slice(0, 3)), (slice(0, 2), slice(3, 6)), (slice(2, 5), slice(3, 6)))):
            land[ys, xs] = (bits >> i) & 1
        cube = cubes.grid(np.stack([f, 1 - f]), leading=[("realization", [0, 1], "1")], time=cubes.T0 + 6 * 3600)
        args = ["--radii", "2000,4000" if lead else "2000", "--neighbourhood-shape", shape]
        if lead:
            args += ["--lead-times", "0,6"]
        if area_sum:
            args.append("--area-sum")
        lc = cubes.grid(land, name="land_binary_mask", time=None)
        out = command_executor("improver", "nbhood-land-and-sea", cube, lc, *args)
        r = 2 if lead else 1
        fields = np.stack([f, 1 - f]).astype(float)
        L = np.broadcast_to(land != 0, fields.shape)
        want = np.where(L, model(fields, L, shape, r, area_sum), model(fields, ~L, shape, r, area_sum))
        expect_close(np.ma.getdata(out.data), want, "land and sea are smoothed separately: %s" % case)
        expect(not np.ma.is_masked(out.data), "nothing is masked")
        cov.state(case, out.data)
        return "land_sea"
    _, output, shape, cplx, wm, halo, pct, summ = case
    rows = (np.arange(42).reshape(6, 7) * 11 % 13).astype(np.float32)
    data = rows * 29 % 360 if cplx else rows / 13
    cube = cubes.grid(data, name="wind_from_direction" if cplx else "x", units="degrees" if cplx else "1")
    args = ["--neighbourhood-output", output, "--neighbourhood-shape", shape, "--radii", "2000"]
    args += ["--degrees-as-complex"] if cplx else []
    args += ["--weighted-mode"] if wm else []
    args += ["--halo-radius", "2000"] if halo else []
    args += ["--percentiles", pct] if pct else []
    args += ["--area-sum"] if summ else []
    bad = (output == "percentiles" and (wm or cplx)) or (shape == "circular" and cplx) or (shape == "square" and wm)
    # percentiles always use a circle
    exc = None
    try:
        out = command_executor("improver", "nbhood", cube.copy(), *args)
    except (RuntimeError, ValueError) as e:
        exc = e
    expect((exc is not None) == bad, "option combination %s" % case, "refused" if bad else "accepted", exc)
    if bad:
        return "refused"
    valid = np.ones((1, 6, 7), bool)
    if output == "probabilities":
        m = "weighted" if wm else shape
        if cplx:
            z = np.exp(1j * np.deg2rad(data.astype(float)))
            s = model(z.real[None], valid, m, 1, summ)[0] + 1j * model(z.imag[None], valid, m, 1, summ)[0]
            want = np.rad2deg(np.angle(s)) % 360
            sel = np.abs(s) > 0.05
        else:
            want = model(data[None].astype(float), valid, m, 1, summ)[0]
            sel = np.ones(want.shape, bool)
        if halo:
            want, sel = want[1:-1, 1:-1], sel[1:-1, 1:-1]
        got = np.ma.getdata(out.data)
        expect(got.shape == want.shape, "shape", want.shape, got.shape)
        d = (got - want)[sel]
        if cplx:
            d = (d + 180) % 360 - 180
        expect(np.all(np.abs(d) < (1e-2 if cplx else 1e-5)), "neighbourhood result of the command %s" % case, want, got)
    else:
        npct = len(pct.split(",")) if pct else 15
        expect(out.coord("percentile").shape[0] == npct, "number of percentiles", npct)
        expect(out.shape[-2:] == ((4, 5) if halo else (6, 7)), "shape", None, out.shape)
    cov.state(case, np.ma.getdata(out.data))
    return output


def cases_cli(tier):
    for bits in range(16):
        for shape in ("square", "circular"):
            for s in (False, True):
                for lead in (False, True):
                    yield ["land_sea", bits, shape, s, lead]
    for output in ("probabilities", "percentiles"):
        for shape in ("square", "circular"):
            for cplx, wm, halo, summ in itertools.product((False, True), repeat=4):
                for pct in ("", "50", "10,50,90"):
                    if output == "probabilities" and pct:
                        continue
                    yield ["nbhood", output, shape, cplx, wm, halo, pct, summ]


def sections():
    import improver.nbhood.use_nbhood  # noqa

    return [
        Section("rectangles", cases_rect, check_rect, "every rectangle of special values on a 5x6 (thorough 6x8) grid x 8 value pairs x 3 methods x radii 1-2 (1-3) x 5 masks x mean/sum x re-mask"),
        Section("binary_fields", cases_binary, check_binary, "all 4096 binary 3x4 fields and all 511 masks of a 3x3 grid, square and circular"),
        Section("radii", cases_radius, check_radius, "16 radii x 3 grids, interpolation to 9 lead times x 3 tables, 8 refusals"),
        Section("percentiles", cases_percentiles, check_percentiles, "1-3 realizations x 2 radii x 4 percentile lists x 3 (9) fields, every point"),
        Section("zones", cases_zones, check_zones, "all sequences of up to 3 slices equal/different in data, mask, time x bounds x weights x lead-time radii"),
        Section("commands", cases_cli, check_cli, "nbhood-land-and-sea: all 16 block masks; nbhood: all option combinations"),
    ]


if __name__ == "__main__":
    main(globals())
