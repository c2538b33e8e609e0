"""C26: weighted blending along a dimension: means, angles, percentiles, adjacent points."""
import cmath
import itertools
import math
from fractions import Fraction as F

from mc import Section, Violation, expect, expect_close, expect_same, main, raises

PROPERTY = "C26"
Y, X = "projection_y_coordinate", "projection_x_coordinate"
ATT = {"source": "IMPROVER", "title": "UK blend"}


def build(lead, shape, vals, mask, units, blend, name="air_temperature"):
    """lead: names; the dimension called `blend` is forecast_reference_time (3), realization (3), model_id or percentile."""
    import cubes
    import numpy as np
    from iris.coords import AuxCoord

    spec = {
        "forecast_reference_time": ("forecast_reference_time", [cubes.T0 - 6 * 3600 * i for i in (2, 1, 0)], cubes.EPOCH, np.int64),
        "realization": ("realization", [0, 1, 2], "1"), "model_id": ("model_id", [0, 1000, 2000], "1", np.int32),
        "height": ("height", [10.0, 100.0], "m"), "percentile": ("percentile", [10.0, 50.0, 90.0], "%"),
    }
    data = np.ma.masked_array(vals, mask) if mask is not None else vals
    c = cubes.grid(data, name=name, units=units, leading=[spec[n] for n in lead], attributes=ATT, frt=None)
    t = int(c.coord("time").points[0])
    if "forecast_reference_time" in lead:
        d = lead.index("forecast_reference_time")
        c.add_aux_coord(AuxCoord((t - c.coord("forecast_reference_time").points).astype(np.int32), "forecast_period", units="seconds"), d)
    else:
        c.add_aux_coord(AuxCoord(np.int64(cubes.T0), "forecast_reference_time", units=cubes.EPOCH))
    if "model_id" in lead:
        c.add_aux_coord(AuxCoord(["uk", "gl", "nc"], long_name="model_configuration"), lead.index("model_id"))
    return c


SIZES = {"forecast_reference_time": 3, "realization": 3, "model_id": 3, "height": 2, "percentile": 3}


def values(sh, units):
    import numpy as np

    n = int(np.prod(sh))
    a = np.array([(i * 37 + i * i * 5) % 64 for i in range(n)], np.float32).reshape(sh)
    if units == "degrees":
        return (a * np.float32(5.6) + np.float32(1)).astype(np.float32) % np.float32(360)
    return a / 4 + 250


def c_mean(tier):
    for blend in ("forecast_reference_time", "model_id", "realization"):
        others = [o for o in ("realization", "height") if o != blend]
        for k in range(len(others) + 1):
            names = [blend] + others[:k]
            dims = names + [Y, X]
            orders = [o for o in itertools.permutations(dims) if o.index(Y) < o.index(X) or len(dims) < 5]
            if len(dims) > 4 and tier == "quick":
                orders = orders[::3]
            for order in orders:
                for wk in ("none", "1d", "3d", "full", "fullperm", "sum3"):
                    for mask in (0, 1, 2):
                        for desc in (False, True):
                            for units in ("K", "degrees"):
                                if (units == "degrees" or desc) and (len(dims) > 4 or mask == 1):
                                    continue
                                if tier == "quick" and len(dims) > 3 and (mask == 1 or (desc and wk not in ("1d", "full"))):
                                    continue
                                yield (list(order), blend, wk, mask, desc, units)


def mean(case, cov):
    import cubes
    import numpy as np
    from improver.blending.weighted_blend import WeightedBlendAcrossWholeDimension as B

    order, blend, wk, mk, desc, units = case
    lead = [o for o in order if o not in (Y, X)]
    names = [blend] + [o for o in lead if o != blend]
    sh = tuple(SIZES[n] for n in names) + (2, 3)
    v = values(sh, units)
    m = None
    if mk:
        m = np.zeros(sh, bool)
        m[0, ..., 0, 1] = True
        m[..., 1, 2] = True
        if len(sh) > 3 and mk == 2:
            m[1, 0, ..., 0, 0] = True
        v = v.copy()
        v[m] = 9e3
    c = build(names, None, v, m, units, blend)
    # weights
    w = np.array([0.5, 0.25, 0.25])
    full = np.broadcast_to(w.reshape((3,) + (1,) * (len(sh) - 1)), sh).copy()
    wc = None
    if wk != "none":
        if wk in ("1d", "sum3"):
            wv = (w * (3 if wk == "sum3" else 1)).astype(np.float32)
            wc = build([blend], None, np.zeros((3, 2, 3), np.float32), None, "1", blend, "weights")[:, 0, 0]
            for q in (Y, X):
                wc.remove_coord(q)
            wc.data = wv
        elif wk == "3d":
            wv = np.array([[[0.5, 0.25, 0], [1, 0.125, 0.25]], [[0.25, 0.25, 0.5], [0, 0.125, 0.25]]] + [[[0, 0, 0], [0, 0, 0]]], np.float32)
            wv[2] = 1 - wv[0] - wv[1]
            wc = build([blend], None, wv, None, "1", blend, "weights")
            full = np.broadcast_to(wv.reshape((3,) + (1,) * (len(sh) - 3) + (2, 3)), sh).copy()
        else:
            idx = np.arange(int(np.prod(sh[1:]))).reshape(sh[1:])
            wv = np.stack([(idx % 4) / 8, (idx % 3) / 8, 1 - (idx % 4) / 8 - (idx % 3) / 8]).astype(np.float32)
            full = wv.copy()
            wc = build(names, None, wv, None, "1", blend, "weights")
            if wk == "fullperm":
                wc.transpose(list(range(wc.ndim))[::-1])
        wc.attributes = {}
    c = cubes.transposed(c, order)
    if desc:
        dim = c.coord_dims(blend)[0]
        c = c[(slice(None),) * dim + (slice(None, None, -1),)]
    if wk == "none":
        full = np.full(sh, 1 / 3)
    plug = B(blend)
    with cubes.Unchanged(c, *([wc] if wc is not None else [])):
        r = plug.process(c, wc)
    cov.step()
    rest = [o for o in order if o != blend]
    got = cubes.arr(r, *(names[1:] + [Y, X]))
    dims = [k.name() for k in r.coords(dim_coords=True)]
    expect(dims == rest, "the dimensions keep their order", expected=rest, got=dims)
    want = np.zeros(sh[1:])
    wm = np.zeros(sh[1:], bool)
    for ix in np.ndindex(*sh[1:]):
        num, den = 0, 0.0
        for i in range(3):
            if m is not None and m[(i,) + ix]:
                continue
            x = float(v[(i,) + ix])
            x = cmath.exp(1j * math.radians(x)) if units == "degrees" else x
            num += x * full[(i,) + ix]
            den += full[(i,) + ix]
        if den == 0:
            wm[ix] = True
            continue
        if units == "degrees":
            if abs(num) < 1e-3:
                return "undefined angle"
            want[ix] = math.degrees(cmath.phase(num)) % 360
        else:
            want[ix] = num / den
    if mk:
        # a point all whose contributions are masked is masked; one whose contributions have no weight is not claimed
        allm = m.all(axis=0)
        gm = np.ma.getmaskarray(got)
        expect(bool(gm[allm].all()) and not gm[~wm].any(), "mask of the blend", expected=allm, got=gm)
    g = np.ma.getdata(got)
    if units == "degrees":
        dd = (g[~wm] - want[~wm] + 180) % 360 - 180
        expect(bool((abs(dd) < 1e-2).all()) and bool(((g[~wm] >= 0) & (g[~wm] <= 360)).all()), "mean angle", expected=want, got=g)
    else:
        expect_close(g[~wm], want[~wm], "weighted mean", rtol=1e-5)
    expect(r.dtype == np.float32, "type", got=r.dtype)
    expect(r.name() == "air_temperature" and str(r.units) == units and r.attributes == ATT and r.cell_methods == c.cell_methods, "description", got=(r.name(), r.attributes, r.cell_methods))
    for k in c.coords():
        if c.coord_dims(blend)[0] in c.coord_dims(k):
            continue
        rk = r.coord(k.name())
        r2 = cubes.diff(cubes.describe_coord(rk), cubes.describe_coord(k))
        expect(r2 is None, "coordinate %s" % k.name(), got=r2)
    if wk == "3d":
        again = plug.process(c, wc)
        cubes.expect_cube(again, cubes.describe(r), "the plugin gives the same again")
    return "masked" if mk else "plain"


# ------------------------------------------------------------ percentiles
def interp(x, xp, fp):
    if x <= xp[0]:
        return fp[0]
    if x >= xp[-1]:
        return fp[-1]
    for i in range(len(xp) - 1):
        if xp[i] <= x < xp[i + 1]:
            return fp[i] + (fp[i + 1] - fp[i]) * (x - xp[i]) / (xp[i + 1] - xp[i])
    raise AssertionError


def blend_ref(dists, pcts, weights):
    """dists: per input, distinct increasing values at pcts. Weighted mean of the cumulative distributions, inverted at pcts."""
    use = [(d, w) for d, w in zip(dists, weights) if w > 0]
    s = sum(w for _, w in use)
    vals = sorted(v for d, _ in use for v in d)
    cdf = [sum(w * interp(v, d, pcts) for d, w in use) / s for v in vals]
    out = []
    for p in pcts:
        if p <= cdf[0] and cdf[0] != cdf[1]:
            out.append(vals[0])
            continue
        # the largest value at which the blended distribution has not passed p, then linear to the next
        j = max([i for i in range(len(vals)) if cdf[i] <= p + F(1, 10 ** 9)], default=0)
        if j == len(vals) - 1 or cdf[j + 1] == cdf[j] or abs(cdf[j] - p) < F(1, 10 ** 9):
            out.append(vals[j])
        else:
            out.append(vals[j] + (vals[j + 1] - vals[j]) * (p - cdf[j]) / (cdf[j + 1] - cdf[j]))
    return out


def c_pct(tier):
    pcts = [[10, 50, 90], [0, 50, 100], [25, 75]]
    rng = 6 if tier == "quick" else 8
    for pc in pcts:
        for d0 in itertools.combinations(range(rng), len(pc)):
            for d1 in itertools.combinations(range(rng), len(pc)):
                yield (pc, [d0, d1])
    for d in itertools.product(list(itertools.combinations(range(4), 3)), repeat=3):
        yield ([10, 50, 90], list(d))


WEIGHTS = {2: [(1, 0), (0, 1), (1, 1), (1, 3), (4, 1)], 3: [(1, 1, 1), (0, 1, 1), (2, 1, 1), (1, 0, 0), (0, 1, 3)]}


def pct(case, cov):
    """All weight pairs, laid out over the points of one grid."""
    import cubes
    import numpy as np
    from improver.blending.weighted_blend import WeightedBlendAcrossWholeDimension as B

    pc, dists = case
    n = len(dists)
    ws = WEIGHTS[n]
    np_ = len(pc)
    v = np.zeros((n, np_, 1, len(ws)), np.float32)
    for i, d in enumerate(dists):
        for k, x in enumerate(d):
            v[i, k] = x * 1.5 + 270
    wv = np.array([[w[i] / sum(w) for w in ws] for i in range(n)], np.float32).reshape(n, 1, len(ws))
    lead = [("model_id", [1000 * i for i in range(n)], "1", np.int32), ("percentile", [float(p) for p in pc], "%")]
    c = cubes.grid(v, name="air_temperature", units="K", leading=lead, attributes=ATT)
    wc = cubes.grid(wv, name="weights", units="1", leading=lead[:1])
    r = B("model_id").process(c, wc)
    cov.step()
    got = cubes.arr(r, "percentile", Y, X)
    for k, w in enumerate(ws):
        want = blend_ref([[F(x) for x in d] for d in dists], [F(p) for p in pc], [F(x) for x in w])
        g = got[:, 0, k]
        if sum(1 for x in w if x) == 1:
            only = dists[[i for i, x in enumerate(w) if x][0]]
            expect_close(g, [x * 1.5 + 270 for x in only], "a blend of one input is that input (weights %s)" % (w,), rtol=1e-6, atol=2e-3)
        lo = min(min(d) for d, x in zip(dists, w) if x)
        hi = max(max(d) for d, x in zip(dists, w) if x)
        expect(bool((np.diff(g) >= -1e-4).all()) and g[0] >= lo * 1.5 + 270 - 1e-3 and g[-1] <= hi * 1.5 + 270 + 1e-3, "the blended percentiles are ordered and within the inputs with weight (weights %s)" % (w,), got=g)
        # float32 rounding may move a value along a flat part of the distribution: the blended cumulative distribution at the result must be the percentile
        use = [([F(x) for x in d], F(x)) for d, x in zip(dists, w) if x]
        s = sum(x for _, x in use)
        for p, q, q0 in zip(pc, g, want):
            x0 = (F(float(q)) - 270) / F(3, 2)
            if abs(x0 - q0) < F(2, 1000):
                continue
            xs = [x0 - F(2, 1000), x0 + F(2, 1000)]
            cl, ch = [sum(u * interp(xx, d, [F(z) for z in pc]) for d, u in use) / s for xx in xs]
            expect(cl - F(1, 100) <= p <= ch + F(1, 100), "percentile %s of the blend (weights %s)" % (p, w), expected=float(q0) * 1.5 + 270, got=g)
    return "ok"


def c_pctcube(tier):
    dims = ["model_id", "percentile", Y, X]
    for order in itertools.permutations(dims):
        for wk in ("none", "1d", "3d", "sum3"):
            for desc in (False, True):
                for extra in (False, True):
                    for mk in (0, 1):
                        yield (list(order), wk, desc, extra, mk)


def pctcube(case, cov):
    """Layouts and masks: every point is the blend of its own contributions."""
    import cubes
    import numpy as np
    from improver.blending.weighted_blend import WeightedBlendAcrossWholeDimension as B

    order, wk, desc, extra, mk = case
    pc = [10.0, 50.0, 90.0]
    names = ["model_id", "percentile"] + (["realization"] if extra else [])
    sh = (3, 3) + ((3,) if extra else ()) + (2, 3)
    v = np.zeros(sh, np.float32)
    for ix in np.ndindex(*sh):
        i, k = ix[:2]
        rest = sum((a + 1) * b for a, b in enumerate(ix[2:]))
        v[ix] = 270 + 2 * k + ((i * 5 + rest * 3) % 7) * 0.75 + (k * k * ((i + rest) % 2)) * 0.5
    m = None
    if mk:
        m = np.zeros(sh, bool)
        m[1, ..., 0, 1] = True
        m[..., 1, 1] = True
        m[:2, ..., 1, 2] = True
        v[m] = 9.9e20
    c = build(names, None, v, m, "K", "model_id")
    if extra:
        order = order[:2] + ["realization"] + order[2:]
    w = np.array([0.5, 0.25, 0.25])
    full = np.broadcast_to(w.reshape(3, 1, 1), (3, 2, 3)).copy()
    wc = None
    if wk != "none":
        wc = build(["model_id"], None, np.zeros((3, 2, 3), np.float32), None, "1", "model_id", "weights")
        if wk == "3d":
            wv = np.array([[[0.5, 0.25, 0], [1, 0.125, 0.25]], [[0.25, 0.25, 0.5], [0, 0.125, 0.25]], [[0.25, 0.5, 0.5], [0, 0.75, 0.5]]], np.float32)
            wc.data = wv.copy()
            full = wv
        else:
            wc = wc[:, 0, 0]
            wc.remove_coord(Y)
            wc.remove_coord(X)
            wc.data = (w * (3 if wk == "sum3" else 1)).astype(np.float32)
    else:
        full = np.full((3, 2, 3), 1 / 3)
    c = cubes.transposed(c, order)
    if desc:
        dim = c.coord_dims("model_id")[0]
        c = c[(slice(None),) * dim + (slice(None, None, -1),)]
    with cubes.Unchanged(c, *([wc] if wc is not None else [])):
        r = B("model_id").process(c, wc)
    cov.step()
    dims = [k.name() for k in r.coords(dim_coords=True)]
    expect(dims == [o for o in order if o != "model_id"], "dimensions", got=dims)
    got = cubes.arr(r, "percentile", *(names[2:] + [Y, X]))
    for ix in np.ndindex(*sh[2:]):
        y, x = ix[-2:]
        ws = [F(float(full[i, y, x])) if not (mk and m[(i, 0) + ix]) else F(0) for i in range(3)]
        g = got[(slice(None),) + ix]
        if sum(ws) == 0:
            if mk and m[(slice(None), 0) + ix].all():
                expect(bool(np.ma.getmaskarray(g).all()), "a point masked in every input is masked in the blend", got=g)
            continue
        want = blend_ref([[F(float(v[(i, k) + ix])) for k in range(3)] for i in range(3)], [F(int(p)) for p in pc], ws)
        expect(not np.ma.getmaskarray(g).any(), "mask", got=g)
        expect_close(np.ma.getdata(g), [float(q) for q in want], "blended percentiles at %s" % (ix,), rtol=1e-5, atol=2e-2)
    return "masked" if mk else "plain"


# ------------------------------------------------------------ adjacent points
def c_adj(tier):
    for coord in ("forecast_period",):
        for pts in ([3, 6, 9], [1, 2, 3, 4], [6, 12]):
            for cp in pts:
                for width in (1, 3, 4.5, 12):
                    for units in ("hours", "seconds", "minutes"):
                        for kind in ("mean", "pct", "prob"):
                            yield (coord, pts, cp, width, units, kind)


def adj(case, cov):
    import cubes
    import numpy as np
    from iris.coords import DimCoord
    from improver.blending.blend_across_adjacent_points import TriangularWeightedBlendAcrossAdjacentPoints as T

    coord, pts, cp, width, units, kind = case
    fac = {"hours": 1, "minutes": 60, "seconds": 3600}[units]
    n = len(pts)
    k = {"mean": 0, "pct": 3, "prob": 2}[kind]
    sh = (n,) + ((k,) if k else ()) + (2, 2)
    v = (np.cumsum(np.arange(1, np.prod(sh) + 1)).reshape(sh) % 17).astype(np.float32)
    if kind == "pct":
        v = np.sort(v + np.array([0, 20, 40], np.float32).reshape(1, 3, 1, 1), axis=1)
    lead = [("time", [cubes.T0 + h * 3600 for h in pts], cubes.EPOCH)]
    if kind == "pct":
        lead.append(("percentile", [10.0, 50.0, 90.0], "%"))
    elif kind == "prob":
        lead.append(("air_temperature", [273.0, 280.0], "K", np.float32, {"spp__relative_to_threshold": "greater_than"}, True))
    c = cubes.grid(v, name="probability_of_air_temperature_above_threshold" if kind == "prob" else "air_temperature", units="1" if kind == "prob" else "K", leading=lead, attributes=ATT)
    plug = T("forecast_period", cp * fac, units, width * fac)
    raw = [max(F(0), 1 - abs(F(p) - cp) / F(str(width))) for p in pts]
    s = sum(raw)
    with cubes.Unchanged(c):
        r = plug.process(c)
    cov.step()
    centre = c[pts.index(cp)]
    cubes.expect_cube(r, cubes.describe(centre), "described as the central point", ignore=("data", "dtype", "masked"))
    if kind == "pct":
        for ix in np.ndindex(2, 2):
            want = blend_ref([[F(float(v[(i, q) + ix])) for q in range(3)] for i in range(n)], [F(10), F(50), F(90)], raw)
            expect_close(r.data[(slice(None),) + ix], [float(q) for q in want], "blended percentiles", rtol=1e-5, atol=2e-2)
    else:
        want = sum(v[i].astype(float) * float(raw[i] / s) for i in range(n))
        expect_close(r.data, want, "blend", rtol=1e-5, atol=1e-5)
    expect(r.dtype == np.float32, "type", got=r.dtype)
    again = plug.process(c)
    cubes.expect_cube(again, cubes.describe(r), "the plugin gives the same again")
    return kind


def c_refuse(tier):
    for k in range(11):
        yield (k,)


def refuse(case, cov):
    import cubes
    import numpy as np
    from iris.coords import AuxCoord
    from improver.blending.blend_across_adjacent_points import TriangularWeightedBlendAcrossAdjacentPoints as T
    from improver.blending.weighted_blend import WeightedBlendAcrossWholeDimension as B

    (k,) = case
    v = values((3, 2, 3), "K")
    c = build(["model_id"], None, v, None, "K", "model_id")
    w = build(["model_id"], None, v, None, "1", "model_id", "weights")
    t = cubes.grid(v, name="air_temperature", units="K", leading=[("time", [cubes.T0 + h * 3600 for h in (3, 6, 9)], cubes.EPOCH)])
    one = cubes.grid(v[:, None], name="air_temperature", units="K", leading=[("model_id", [0, 1, 2], "1", np.int32), ("percentile", [50.0], "%")])
    sc = c.copy()
    sc.add_aux_coord(AuxCoord(np.float32(50), long_name="percentile", units="%"))
    w2 = w.copy()
    w2.coord(X).rename("longitude")
    w3 = w.copy()
    w3.coord("model_id").rename("realization")
    f, ty = [
        (lambda: B("threshold"), ValueError), (lambda: B("model_id").process([c]), TypeError), (lambda: B("realization").process(c), Exception),
        (lambda: B("time").process(t), ValueError), (lambda: B("model_id").process(one), ValueError), (lambda: B("model_id").process(sc), ValueError),
        (lambda: B("model_id").process(c, w2), ValueError), (lambda: B("model_id").process(c, w3), Exception), (lambda: B("model_id").process(c, w[:2]), ValueError),
        (lambda: B("time").process(c), ValueError), (lambda: T("forecast_period", 4, "hours", 3).process(t), ValueError),
    ][k]
    e = raises(f)
    cov.step()
    expect(isinstance(e, ty), "must be refused (%d)" % k, got=e)
    return "refused"


SECTIONS = [
    Section("mean", c_mean, mean), Section("percentiles", c_pct, pct), Section("percentile_cubes", c_pctcube, pctcube), Section("adjacent", c_adj, adj),
    Section("refused", c_refuse, refuse),
]

if __name__ == "__main__":
    main(globals())
