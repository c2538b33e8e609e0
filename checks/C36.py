"""C36: integration over a coordinate, rescaling, linear fits and filling gaps."""
import itertools

from mc import Section, Violation, expect, expect_close, expect_same, main, raises

PROPERTY = "C36"
ATT = {"title": "T", "source": "S", "institution": "I"}
HS = [[5.0, 10.0, 20.0], [-10.0, 0.0, 5.0, 25.0], [0.0, 100.0], [2.0, 3.0, 7.0, 8.0], [-30.0, -20.0, -5.0]]
NM = {"r": "realization", "h": "height", "y": "projection_y_coordinate", "x": "projection_x_coordinate"}


# ------------------------------------------------------------ integration
def c_integrate(tier):
    for hs in range(len(HS)):
        pts = HS[hs]
        mids = sorted(set(pts) | {pts[0] - 1, (pts[0] + pts[1]) / 2, pts[-1] + 5})
        for rev in (False, True):
            for pos in (False, True):
                for s, e in itertools.product([None] + mids, repeat=2):
                    yield ("hyx", hs, rev, pos, [s, e])
    for lay in ["".join(p) for p in itertools.permutations("hyx")] + ["".join(p) for p in itertools.permutations("rhyx")]:
        for hs in (0, 1):
            for rev in (False, True):
                for pos in (False, True):
                    yield (lay, hs, rev, pos, [None, None])
                    yield (lay, hs, rev, pos, [HS[hs][1], HS[hs][-1]] if pos else [HS[hs][-1], HS[hs][1]])


def integrate(case, cov):
    import cubes
    import numpy as np
    from improver.utilities.mathematical_operations import Integration

    lay, hs, rev, pos, (s, e) = case
    pts = HS[hs][::-1] if rev else HS[hs]
    V = [-2.0, 0.0, 1.0, 3.5]
    n = len(pts)
    # every sequence of values, one per point of the grid
    cols = np.array(list(itertools.product(V, repeat=n)), np.float32)
    m = len(cols)
    data = cols.T.reshape(n, m // 4, 4)
    if "r" in lay:
        data = np.stack([data, data[:, ::-1]])
    lead = ([("realization", [0, 4], "1")] if "r" in lay else []) + [("height", pts, "m")]
    c = cubes.grid(data, name="wet_bulb_temperature", units="K", leading=lead, attributes=dict(ATT, extra="e"))
    c = cubes.transposed(c, [NM[d] for d in lay])
    p = Integration("height", start_point=s, end_point=e, positive_integration=pos)
    order = ["height"] + [NM[d] for d in "ryx" if d in lay]
    full = cubes.arr(c, *order).astype(np.float64)
    up = sorted(range(n), key=lambda i: pts[i], reverse=not pos)
    total, want, where, bnds = np.zeros(full.shape[1:]), [], [], []
    for a, b in zip(up[:-1], up[1:]):
        lo, hi = sorted((pts[a], pts[b]))
        if pos and ((s is not None and lo < s) or (e is not None and hi > e)):
            continue
        if not pos and ((s is not None and hi > s) or (e is not None and lo < e)):
            continue
        total = total + (np.maximum(full[a], 0) + np.maximum(full[b], 0)) * 0.5 * (hi - lo)
        want.append(total)
        where.append(hi if pos else lo)
        bnds.append([lo, hi])
    for rnd in range(2):
        with cubes.Unchanged(c):
            if not want:
                er = raises(p.process, c)
                cov.step()
                expect(isinstance(er, ValueError), "nothing to integrate: must be refused", got=er)
                continue
            r = p.process(c)
        cov.step()
        if r.coords("height", dim_coords=True):
            got = cubes.arr(r, *order)
        else:
            got = cubes.arr(r, *order[1:])[None]
        q = r.coord("height")
        idx = [where.index(float(v)) if float(v) in where else -1 for v in q.points]
        expect(sorted(idx) == list(range(len(where))), "levels of the result", expected=where, got=q.points)
        for k, i in enumerate(idx):
            expect_close(got[k], want[i], "integral down to that level", rtol=1e-5, atol=1e-4)
            expect(sorted(q.bounds[k]) == bnds[i], "bounds of the layer", expected=bnds[i], got=q.bounds[k])
        expect(q.dtype == np.float32 and q.bounds.dtype == np.float32, "type of the levels", got=q.dtype)
        expect(r.name() == "wet_bulb_temperature_integral" and str(r.units.format()) in ("K m", "K.m", "m.K", "m K") and r.attributes == ATT, "description", got=(r.name(), str(r.units), r.attributes))
        expect([x.name() for x in r.coords(dim_coords=True)] == [NM[d] for d in lay], "order of dimensions", expected=lay, got=[x.name() for x in r.coords(dim_coords=True)])
    return "integral" if want else "refused"


# ------------------------------------------------------------ rescaling
def c_rescale(tier):
    R = [None, (0.0, 1.0), (1.0, 0.0), (-2.0, 2.0), (3.0, 5.0), (1.0, 1.0)]
    S = [(0.0, 1.0), (1.0, 0.0), (-5.0, 5.0), (2.0, 2.5), (4.0, 4.0)]
    for r in R:
        for s in S:
            for clip in (False, True):
                for mask in (0, 1):
                    for dt in ("float32", "float64", "int32"):
                        yield ("rescale", r, s, clip, [mask, dt])
    for dv in ((0.0, 1.0, 2.0), (-1.0, 0.5, 3.0), (0.0, 2.0, 2.5)):
        for sv in ((0.0, 0.5, 1.0), (1.0, 0.5, 0.0), (0.0, 1.0, 0.0), (0.2, 0.4, 2.0)):
            for f in ("minimum", "maximum", "multiply"):
                yield ("double", dv, sv, f, 0)


def rescaling(case, cov):
    import cubes
    import numpy as np
    from improver.utilities.rescale import apply_double_scaling, rescale

    kind, r, s, clip, x = case
    if kind == "rescale":
        mask, dt = x
        d = np.array([[-3, -2, -1, 0], [1, 2, 3, 7]]).astype(dt)
        if mask:
            d = np.ma.masked_array(d, d % 4 == 3)
        keep = d.copy()
        lo, hi = (float(d.min()), float(d.max())) if r is None else r
        kw = {} if r is None else {"data_range": tuple(r)}
        if lo == hi or s[0] == s[1]:
            e = raises(rescale, d, scale_range=tuple(s), clip=clip, **kw)
            cov.step()
            expect(isinstance(e, ValueError), "an empty range must be refused", got=e)
            return "refused"
        got = rescale(d, scale_range=tuple(s), clip=clip, **kw)
        cov.step()
        w = (np.ma.getdata(d).astype(float) - lo) / (hi - lo) * (s[1] - s[0]) + s[0]
        if clip:
            w = np.minimum(np.maximum(w, min(s)), max(s))
        m = np.ma.getmaskarray(d)
        expect((np.ma.getmaskarray(got) == m).all(), "mask", got=got)
        expect_close(np.ma.getdata(got)[~m], w[~m], "rescaled", rtol=1e-5, atol=1e-5)
        expect((np.ma.getdata(keep) == np.ma.getdata(d)).all(), "the input is not changed", got=d)
        return "rescale"
    vals = np.array(sorted({-5.0, 9.0} | {a + k * 0.25 for a in r for k in (-1, 0, 1)}), np.float32)
    sc = np.array([0.0, 0.3, 0.7, 1.0], np.float32)
    D, Q = np.meshgrid(vals, sc)
    A, B = cubes.grid(D.astype(np.float32)), cubes.grid(Q.astype(np.float32))
    with cubes.Unchanged(A, B):
        got = apply_double_scaling(A, B, tuple(r), tuple(s), combine_function=getattr(np, clip))
        d2 = apply_double_scaling(A, B, tuple(r), tuple(s)) if clip == "minimum" else got
    cov.step()
    w = np.interp(D, r, s)
    expect_close(got, getattr(np, clip)(Q, w), "scaled over two ranges", rtol=1e-5, atol=1e-5)
    expect_same(d2, got, "the minimum is the default")
    return "double"


# ------------------------------------------------------------ linear fits
def c_fit(tier):
    V = [0.0, 1.0, -2.0, 4.0]
    for n in (2, 3, 4) if tier == "quick" else (2, 3, 4, 5):
        for xs in itertools.permutations(V + [7.0], n):
            for mode in ("plain", "nan", "mask"):
                if n == 4 and mode != "plain" and xs[0] > 0:
                    continue
                yield (list(xs), mode)
    for n in (2, 3):
        for xs in itertools.permutations(V, n):
            yield (list(xs), "steep")
    for k in range(4):
        yield ([k], "refuse")


def fit(case, cov):
    import numpy as np
    from improver.utilities.mathematical_operations import fast_linear_fit as F

    xs, mode = case
    V = [0.0, 1.0, -3.0]
    if mode == "steep":
        # steep, flat and far-away lines
        for sx, sy, ox, oy in itertools.product((1.0, 1e-3, 1e4), (1.0, 1e4, 1e-4), (0.0, 300.0), (0.0, -1000.0)):
            x = np.array(xs) * sx + ox
            ys = np.array(list(itertools.product(V, repeat=len(xs)))).T * sy + oy
            X = np.repeat(x[:, None], ys.shape[1], axis=1)
            G, I = F(X, ys, axis=0)
            dx = x - x.mean()
            g = (dx[:, None] * (ys - ys.mean(axis=0))).sum(axis=0) / (dx**2).sum()
            cov.step()
            expect_close(np.asarray(G), g, "gradient", rtol=1e-6, atol=1e-6 * sy / sx)
            big = abs(ys).max() + abs(g).max() * abs(x).max()
            expect_close(np.asarray(I), ys.mean(axis=0) - g * x.mean(), "intercept", rtol=1e-6, atol=1e-6 * big)
        return mode
    if mode == "refuse":
        x = np.array([0.0, 1.0, 2.0, 3.0])
        y = x * 2 + 1
        k = xs[0]
        a, b = x.copy(), y.copy()
        if k == 0:
            a[1] = np.nan
        elif k == 1:
            b[1] = np.nan
        elif k == 2:
            a = np.ma.masked_array(a, [0, 1, 0, 0])
            b = np.ma.masked_array(b, [0, 0, 1, 0])
        else:
            b = np.ma.masked_array(b, [0, 0, 1, 0])
        e = raises(F, a, b, with_nan=k < 2)
        cov.step()
        expect(isinstance(e, ValueError), "gaps at different places must be refused", got=e)
        return "refused"
    n = len(xs)
    ys = np.array(list(itertools.product(V, repeat=n))).T  # n, m
    x = np.array(xs, float)
    keep = np.ones(n, bool)
    X = np.repeat(x[:, None], ys.shape[1], axis=1)
    Y = ys.copy()
    kw = {}
    if mode != "plain":
        if n < 3:
            return "too short"
        keep[1] = False
        if mode == "nan":
            X[1], Y[1] = np.nan, np.nan
            kw = {"with_nan": True}
        else:
            m = np.zeros(X.shape, bool)
            m[1] = True
            X, Y = np.ma.masked_array(X, m), np.ma.masked_array(Y, m)
            X.data[1] = 99
    xm, ym = x[keep], ys[keep]
    dx = xm - xm.mean()
    g = (dx[:, None] * (ym - ym.mean(axis=0))).sum(axis=0) / (dx**2).sum()
    i = ym.mean(axis=0) - g * xm.mean()
    for axis in (0, 1):
        A, B = (X, Y) if axis == 0 else (X.T, Y.T)
        G, I = F(A, B, axis=axis, **kw)
        cov.step()
        expect(G.shape == g.shape and I.shape == g.shape, "shape", got=G.shape)
        expect_close(np.asarray(G), g, "gradient", rtol=1e-9, atol=1e-9)
        expect_close(np.asarray(I), i, "intercept", rtol=1e-9, atol=1e-9)
        G2 = F(A, B, axis=axis, gradient_only=True, **kw)
        expect_close(np.asarray(G2), g, "gradient alone", rtol=1e-9, atol=1e-9)
        G3, I3 = F(A, B, axis=axis, keepdims=True, **kw)
        cov.step(2)
        sh = list(Y.shape if axis == 0 else Y.T.shape)
        sh[axis] = 1
        expect(list(G3.shape) == sh and list(I3.shape) == sh, "shape with kept dimensions", expected=sh, got=G3.shape)
        expect_close(np.asarray(G3).ravel(), g, "gradient", rtol=1e-9, atol=1e-9)
        expect_close(np.asarray(I3).ravel(), i, "intercept", rtol=1e-9, atol=1e-9)
    if mode == "plain":
        G, I = F(X[:, :1], Y, axis=0)
        expect_close(np.asarray(G), g, "one x for all", rtol=1e-9, atol=1e-9)
        G, I = F(x, ys[:, 5 % ys.shape[1]])
        cov.step(2)
        expect_close([float(G), float(I)], [g[5 % ys.shape[1]], i[5 % ys.shape[1]]], "one line", rtol=1e-9, atol=1e-9)
    return mode


# ------------------------------------------------------------ gaps
def c_gaps(tier):
    ny, nx = 3, 3
    for miss in range(1, 2**9):
        for meth in ("linear", "nearest"):
            yield ("fill", miss, meth, 0, None)
            if miss % 3 == 0:
                for lim in (1, 2):
                    yield ("fill", miss, meth, lim, None)
    for miss in (1, 16, 17, 257, 84, 273, 2):
        for inv in range(2**9):
            if not inv & miss and bin(inv).count("1") <= (2 if tier == "quick" else 4):
                for meth in ("linear", "nearest"):
                    yield ("fill", miss, meth, 0, inv)
    for miss in range(1, 2**9 - 1):
        for lim in (0, 1, 2):
            if lim and miss % 5:
                continue
            yield ("difference", miss, [0, lim, 0], 0, None)
    for miss in (16, 17, 3, 84, 73, 510, 255):
        for lay in range(1, 4):
            for lim in (0, 1, 2):
                for units in (0, 1):
                    yield ("difference", miss, [lay, lim, units], 0, None)
    for k in range(4):
        yield ("other", k, 0, 0, None)


def hull(pts, q):
    """Is q inside the convex hull of pts (or None on degenerate sets)?"""
    import numpy as np

    P = np.array(pts, float)
    if len(P) < 3 or np.linalg.matrix_rank(P - P[0]) < 2:
        return None
    # every side of the hull: all points on one side
    ok = True
    for a, b in itertools.permutations(range(len(P)), 2):
        cr = [(P[b][0] - P[a][0]) * (r[1] - P[a][1]) - (P[b][1] - P[a][1]) * (r[0] - P[a][0]) for r in P]
        if min(cr) >= 0:
            s = (P[b][0] - P[a][0]) * (q[1] - P[a][1]) - (P[b][1] - P[a][1]) * (q[0] - P[a][0])
            if s < -1e-9:
                ok = False
    return ok


def gaps(case, cov):
    import cubes
    import numpy as np
    from improver.utilities.interpolation import InterpolateUsingDifference, interpolate_missing_data

    kind, miss, a, lim, inv = case
    ii = [(i, j) for i in range(3) for j in range(3)]
    M = np.array([bool(miss >> k & 1) for k in range(9)]).reshape(3, 3) if kind != "other" else None
    plane = np.array([[2.0 + 3 * i - 2 * j for j in range(3)] for i in range(3)], np.float32)
    if kind == "fill":
        d = plane.copy()
        valid = None
        if inv is not None:
            iv = np.array([bool(inv >> k & 1) for k in range(9)]).reshape(3, 3)
            d[iv] = 1000  # present, but not to be used
            valid = ~iv
        d[M] = np.nan
        src = d.copy()
        use = [p for p in ii if not M[p] and (valid is None or valid[p])]
        lo = np.full((3, 3), 4.0, np.float32)
        kw = {} if not lim else {"limit": lo, "limit_as_maximum": lim == 1}
        vk = valid.copy() if valid is not None else None
        r = interpolate_missing_data(d, method=a, valid_points=valid, **kw)
        cov.step()
        expect(valid is None or (valid == vk).all(), "the points to use are not changed", got=valid)
        expect((lo == 4).all(), "the limit is not changed", got=lo)
        for p in ii:
            if not M[p]:
                expect(r[p] == src[p], "a value that is there is kept", expected=src[p], got=r[p])
                continue
            if not use:
                expect(np.isnan(r[p]), "nothing to fill from", got=r)
                continue
            if a == "linear":
                h = hull(use, p)
                if h is None or not h:
                    expect(np.isnan(r[p]), "outside the points to use nothing is filled", got=r)
                    continue
                w = [float(plane[p])]
            else:
                dist = [(q[0] - p[0]) ** 2 + (q[1] - p[1]) ** 2 for q in use]
                w = [float(plane[q]) for q, s in zip(use, dist) if s == min(dist)]
            if lim == 1:
                w = [min(v, 4.0) for v in w]
            if lim == 2:
                w = [max(v, 4.0) for v in w]
            expect(any(abs(r[p] - v) < 1e-4 for v in w), "filled value", expected=w, got=r)
        return a
    if kind == "difference":
        lay, lm, un = a
        # reference less cube is a plane, so that linear interpolation is exact
        ref = np.array([[280.0, 283, 279], [290, 276, 281], [285, 288, 300]], np.float32)
        use = [p for p in ii if not M[p]]
        diff = plane
        c = ref - diff
        arr = np.ma.masked_array(c.astype(np.float32), M.copy())
        if lay:
            M2 = M[::-1, ::-1]
            arr = np.ma.masked_array(np.stack([arr.data, c]), np.stack([M, M2]).copy())
        lead = [("realization", [1, 5], "1")] if lay else []
        arr.data[arr.mask] = -999
        C = cubes.grid(arr, name="air_temperature", units="K", leading=lead, attributes=ATT)
        R = cubes.grid(np.stack([ref, ref]) if lay else ref, name="air_temperature", units="K", leading=lead)
        L = cubes.grid(np.full((3, 3), 282.0, np.float32), name="air_temperature", units="K") if lm else None
        if un:
            R.convert_units("celsius")
            R.data = R.data.astype(np.float32)
            if L is not None:
                L.convert_units("celsius")
                L.data = L.data.astype(np.float32)
        if lay == 2:
            R = cubes.transposed(R, ["realization", NM["x"], NM["y"]])
            C = cubes.transposed(C, [NM["y"], "realization", NM["x"]])
        if lay == 3:
            C = cubes.transposed(C, [NM["x"], NM["y"], "realization"])
        ins = [C, R] + ([L] if L is not None else [])
        p = InterpolateUsingDifference(limit_as_maximum=lm != 2)
        with cubes.Unchanged(*ins):
            r = p.process(C, R, limit=L)
        cov.step()
        names = (["realization"] if lay else []) + [NM["y"], NM["x"]]
        got = cubes.arr(r, *names)
        got = got if lay else got[None]
        for k in range(2 if lay else 1):
            mk = M if k == 0 else M2
            us = [q for q in ii if not mk[q]]
            dv = [float(diff[q]) for q in us]
            expect(not np.ma.is_masked(got[k]), "no gap remains", got=got)
            for q in ii:
                g = float(np.ma.getdata(got)[(k,) + q])
                if not mk[q]:
                    expect(abs(g - c[q]) < 1e-3, "a value that is there is kept", expected=c[q], got=g)
                    continue
                h = hull(us, q)
                if h:
                    w = [float(diff[q])]
                else:
                    # filled from the nearest value, given or already filled
                    full = {u: float(diff[u]) for u in ii if not mk[u] or hull(us, u)}
                    ds = {u: (u[0] - q[0]) ** 2 + (u[1] - q[1]) ** 2 for u in full}
                    w = [full[u] for u in full if ds[u] == min(ds.values())]
                w = [float(ref[q]) - min(max(v, min(dv)), max(dv)) for v in w]
                if lm:
                    w = [min(v, 282.0) if lm == 1 else max(v, 282.0) for v in w]
                expect(any(abs(g - v) < 2e-3 for v in w), "filled value", expected=w, got=got)
        expect(str(r.units) == "K" and r.attributes == ATT and r.name() == "air_temperature" and r.dtype == np.float32, "description", got=(r.units, r.dtype))
        return "difference"
    z = np.array([[280.0, 281.0], [282.0, 283.0]], np.float32)
    C = cubes.grid(np.ma.masked_array(z, [[1, 0], [0, 0]]), name="air_temperature", units="K")
    R = cubes.grid(z + 1, name="air_temperature", units="K")
    p = InterpolateUsingDifference()
    if miss == 0:
        U = cubes.grid(z, name="air_temperature", units="K")
        r = p.process(U, R)
        cubes.expect_cube(r, cubes.describe(U), "without a gap nothing changes")
        cov.step()
        return "unmasked"
    if miss == 1:
        R.data[0, 0] = np.nan
    if miss == 2:
        R.units = "m"
    lim = cubes.grid(z, name="air_temperature", units="m") if miss == 3 else None
    e = raises(p.process, C, R, limit=lim)
    cov.step()
    expect(isinstance(e, ValueError), "must be refused", got=e)
    return "refused"


SECTIONS = [Section("integrate", c_integrate, integrate), Section("rescale", c_rescale, rescaling), Section("fit", c_fit, fit), Section("gaps", c_gaps, gaps)]

if __name__ == "__main__":
    main(globals())
