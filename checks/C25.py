"""C25: weights used for blending."""
import itertools
from fractions import Fraction as F

from mc import Section, Violation, expect, expect_close, expect_same, main, raises

PROPERTY = "C25"
H = 3600


def cyc(points, name="forecast_period", shape=(2, 3), extra=None, dim_order=None):
    """A cube of forecasts from several cycles valid at one time [forecast_reference_time or forecast_period, (extra), y, x]."""
    import cubes
    import numpy as np
    from iris.coords import AuxCoord, DimCoord

    n = len(points)
    lead = []
    if extra:
        lead.append((extra, [0, 1, 2] if extra == "realization" else [25.0, 50.0, 75.0], "1" if extra == "realization" else "%"))
    sh = (n,) + ((3,) if extra else ()) + shape
    d = np.arange(np.prod(sh), dtype=np.float32).reshape(sh)
    c = cubes.grid(d, name="air_temperature", units="K", leading=[("tmp", range(n), "1", np.int32)] + lead, time=None)
    valid = cubes.T0 + 48 * H
    fp = AuxCoord(np.array(points, np.int32) * H, "forecast_period", units="seconds")
    frt = AuxCoord(valid - np.array(points, np.int64) * H, "forecast_reference_time", units=cubes.EPOCH)
    c.remove_coord("tmp")
    if n == 1:
        pass
    c.add_aux_coord(DimCoord(np.int64(valid), "time", units=cubes.EPOCH))
    from iris.coords import DimCoord as D

    dimc = {"forecast_period": fp, "forecast_reference_time": frt}[name]
    auxc = frt if name == "forecast_period" else fp
    c.add_dim_coord(D(dimc.points, dimc.standard_name, units=dimc.units), 0)
    c.add_aux_coord(auxc, 0)
    return c


def scalar1(c, name):
    return next(c.slices_over(name))


# ------------------------------------------------------------ default weights
def c_default(tier):
    nmax = 9 if tier == "thorough" else 6
    for n in range(1, nmax):
        for layout in ("forecast_period", "forecast_reference_time", "desc", "extra"):
            for y0, yn in itertools.product((0, 1, 2, 20.0, 0.1), repeat=2):
                yield ("linear", n, layout, y0, yn)
            for cval in (0.1, 0.25, 0.5, 0.85, 1.0):
                for inv in ((False, True) if n > 1 else (False,)):
                    yield ("nonlinear", n, layout, cval, inv)


def default(case, cov):
    import cubes
    import numpy as np
    from improver.blending.weights import ChooseDefaultWeightsLinear as L
    from improver.blending.weights import ChooseDefaultWeightsNonLinear as N

    kind, n, layout, a, b = case
    pts = [6 * (i + 1) + i for i in range(n)]
    name = "forecast_reference_time" if layout == "forecast_reference_time" else "forecast_period"
    if layout == "desc":
        pts = pts[::-1]
    if name == "forecast_reference_time":
        pts = pts[::-1]  # the cycles then ascend
    c = cyc(pts, name, extra="realization" if layout == "extra" else None)
    if n == 1:
        c = scalar1(c, name)
    if kind == "linear":
        raw = [F(a).limit_denominator(1000) + (F(b).limit_denominator(1000) - F(a).limit_denominator(1000)) * F(i, n - 1) for i in range(n)] if n > 1 else [F(1)]
        call = lambda: L(a, b)(c, name)
    else:
        q = F(a).limit_denominator(1000)
        raw = [q ** i for i in range(n)]
        if b:
            # the exponents then follow the coordinate from its largest value down, and are returned ascending
            raw = raw[::-1]
        plug = N(a)
        call = lambda: plug(c, name, inverse_ordering=b)
    with cubes.Unchanged(c):
        if sum(raw) == 0:
            e = raises(call)
            cov.step()
            expect(isinstance(e, ValueError), "weights adding up to zero must be refused", got=e)
            return "refused"
        w = call()
    cov.step()
    s = sum(raw)
    want = [float(r / s) for r in raw]
    p = np.atleast_1d(c.coord(name).points)
    if kind == "nonlinear" and b:
        p = np.sort(p)
    lab = {int(q): v for q, v in zip(p, want)}
    wp = np.atleast_1d(w.coord(name).points)
    expect_same(np.sort(wp), np.sort(p), "points of the weights")
    expect_close(np.atleast_1d(w.data), [lab[int(q)] for q in wp], "weights", rtol=1e-5, atol=1e-7)
    expect(w.name() == "weights" and str(w.units) == "1" and w.ndim == 1 and not w.attributes and w.dtype == np.float32, "description of the weights", got=(w.name(), w.ndim, w.dtype, w.attributes))
    other = "forecast_period" if name != "forecast_period" else "forecast_reference_time"
    # both coordinates stay attached to the same cycle
    tot = {int(c.coord(name).points[i]): int(c.coord(other).points[i]) for i in range(n)}
    for q, o in zip(np.atleast_1d(w.coord(name).points), np.atleast_1d(w.coord(other).points)):
        expect(tot[int(q)] == int(o), "the other time coordinate", got=(q, o))
    return kind


# ------------------------------------------------------------ triangular
def c_tri(tier):
    spans = [[0, 1, 2, 3, 4], [3, 6, 9, 12], [6], [2, 3, 7, 11], [1, 2, 3, 4, 5, 6, 7, 8]] + ([[1, 4, 9, 16, 25]] if tier == "thorough" else [])
    for pts in spans:
        for name in ("forecast_period", "time"):
            for units in ("hours", "seconds", "minutes"):
                for mid in sorted({0, 1, 3, 6, 7, 12, 4.5}):
                    for width in (1, 2, 2.5, 3, 5, 12, 0.7):
                        yield (pts, name, units, mid, width)


def tri(case, cov):
    import cubes
    import numpy as np
    from cf_units import Unit
    from improver.blending.weights import ChooseDefaultWeightsTriangular as T

    pts, name, units, mid, width = case
    tn = name == "time"
    d = np.zeros((len(pts), 2, 3), np.float32)
    c = cubes.grid(d, name="air_temperature", units="K", leading=[("time", [cubes.T0 + h * H for h in pts], cubes.EPOCH)])
    if len(pts) == 1:
        c = c[0]
    fac = {"hours": 1, "minutes": 60, "seconds": 3600}[units]
    if tn:
        # the midpoint of a time coordinate is given in the coordinate's own units
        if units != "seconds":
            return "not applicable"
        plug = T(width * 3600, units=c.coord("time").units)
        m = cubes.T0 + mid * 3600
    else:
        plug = T(width * fac, units=Unit(units) if width == 3 else units)
        m = mid * fac
    raw = [max(F(0), 1 - abs(F(p) - F(mid)) / F(str(width))) for p in pts]
    with cubes.Unchanged(c):
        if sum(raw) == 0:
            e = raises(plug, c, name, m)
            cov.step()
            expect(isinstance(e, ValueError), "no point within the width must be refused", got=e)
            return "refused"
        w = plug(c, name, m)
    cov.step()
    expect_close(np.atleast_1d(w.data), [float(r / sum(raw)) for r in raw], "weights", rtol=1e-5, atol=1e-6)
    expect_same(np.atleast_1d(w.coord(name).points), np.atleast_1d(c.coord(name).points), "points")
    w2 = plug(c, name, m)
    cubes.expect_cube(w2, cubes.describe(w), "the plugin gives the same weights again")
    return "ok"


# ------------------------------------------------------------ from a configuration
PROFILES = {
    "up": ([6, 12, 24], [0.0, 0.5, 1.0]), "down": ([6, 12], [1.0, 0.0]), "one": ([12, 13], [0.4, 0.4]), "flat": ([0, 48], [0.7, 0.7]), "tent": ([0, 8, 20], [0.1, 0.9, 0.2]),
    "two": ([3, 4], [2.0, 3.0]),
}


def c_dict(tier):
    names = list(PROFILES)
    fps = [[0], [3], [6], [7], [12], [18], [24], [60]]
    fps += [[6, 12, 24], [0, 9, 60]]
    for models in list(itertools.product(names, repeat=2)) + ([(a,) for a in names]):
        for fp in fps:
            for perm in ("asc", "desc", "rot"):
                for units in ("hours", "seconds", None, "mixed", "mixed2"):
                    if units and units[0] == "m" and (perm != "asc" or len(models) < 2 or len(fp) > 1 and models[0] == models[1]):
                        continue
                    if perm == "rot" and (units != "hours" or not any(len(PROFILES[m][0]) > 2 for m in models)):
                        continue
                    for as_list in (False, True):
                        if (as_list or perm != "asc") and units is None:
                            continue
                        yield (list(models), fp, perm, units, as_list)
    for models in itertools.product(("up", "flat", "tent"), repeat=3):
        yield (list(models), [9], "asc", "hours", False)


def prof(name, h):
    x, y = PROFILES[name]
    if h <= x[0]:
        return F(str(y[0]))
    if h >= x[-1]:
        return F(str(y[-1]))
    for i in range(len(x) - 1):
        if x[i] <= h <= x[i + 1]:
            return F(str(y[i])) + (F(str(y[i + 1])) - F(str(y[i]))) * F(h - x[i], x[i + 1] - x[i])


def reorder(seq, perm):
    seq = list(seq)
    return {"asc": seq, "desc": seq[::-1], "rot": seq[1:] + seq[:1]}[perm]


def models_cube(models, fps):
    """[model_id, (time), y, x]; with several lead times time is a dimension."""
    import cubes
    import numpy as np
    from iris.coords import AuxCoord

    n = len(models)
    lead = [("model_id", [1000 * i for i in range(n)], "1", np.int32)]
    kw = {}
    sh = (n, 2, 3)
    if len(fps) > 1:
        lead.append(("time", [cubes.T0 + f * H for f in fps], cubes.EPOCH))
        sh = (n, len(fps), 2, 3)
    else:
        kw["time"] = cubes.T0 + fps[0] * H
    c = cubes.grid(np.arange(np.prod(sh), dtype=np.float32).reshape(sh), name="air_temperature", units="K", leading=lead, attributes={"title": "x"}, **kw)
    c.add_aux_coord(AuxCoord(["m%d" % i for i in range(n)], long_name="model_configuration"), 0)
    return c


def dictw(case, cov):
    import cubes
    import numpy as np
    from improver.blending.weights import ChooseWeightsLinear as W

    models, fps, perm, units, as_list = case
    c = models_cube(models, fps)
    cfg = {}
    for i, m in enumerate(models):
        x, y = PROFILES[m]
        # in hours for every second model only, the others have no units (those of the cube)
        u = units if units not in ("mixed", "mixed2") else ("hours" if i % 2 == (units == "mixed") else None)
        mul = 1 if u == "hours" else H
        cfg["m%d" % i] = {"forecast_period": [v * mul for v in reorder(x, perm)], "weights": reorder(y, perm)}
        if u is not None:
            cfg["m%d" % i]["units"] = u
    if len(models) == 1:
        c = next(c.slices_over("model_id"))
    arg = [s for s in c.slices_over("model_id")] if as_list else c
    if as_list:
        from iris.cube import CubeList

        arg = CubeList(arg)
    plug = W("forecast_period", cfg)
    raw = [[prof(m, f) for f in fps] for m in models]
    tot = [sum(col) for col in zip(*raw)]
    with cubes.Unchanged(arg if as_list else c, cfg):
        if any(t == 0 for t in tot):
            e = raises(plug, arg)
            cov.step()
            expect(isinstance(e, ValueError), "weights adding up to zero must be refused", got=e)
            return "refused"
        w = plug(arg)
    cov.step()
    names = [k.name() for k in w.coords(dim_coords=True)]
    have = (["model_id"] if len(models) > 1 else []) + (["time"] if len(fps) > 1 else [])
    expect(sorted("time" if x == "forecast_period" else x for x in names) == sorted(have), "dimensions of the weights", got=names)
    for i, m in enumerate(models):
        for k, f in enumerate(fps):
            idx = [slice(None)] * w.ndim
            if len(models) > 1:
                j = [str(s) for s in w.coord("model_configuration").points].index("m%d" % i)
                idx[w.coord_dims("model_configuration")[0]] = j
            if len(fps) > 1:
                j = [int(s) for s in w.coord("forecast_period").points].index(f * H)
                idx[w.coord_dims("forecast_period")[0]] = j
            got = w.data[tuple(idx)]
            expect_close(got, float(raw[i][k] / tot[k]), "weight of %s at T+%d" % (m, f), rtol=1e-5, atol=1e-7)
    expect(w.name() == "weights" and str(w.units) == "1" and not w.attributes, "description", got=(w.name(), w.attributes))
    return "%d" % len(models)


def c_refuse(tier):
    for k in range(12):
        yield (k,)


def refuse(case, cov):
    import numpy as np
    from improver.blending.weights import ChooseDefaultWeightsLinear as L
    from improver.blending.weights import ChooseDefaultWeightsNonLinear as N
    from improver.blending.weights import ChooseDefaultWeightsTriangular as T
    from improver.blending.weights import ChooseWeightsLinear as W
    from improver.blending.weights import WeightsUtilities as U

    (k,) = case
    c = cyc([6, 12])
    f = [
        lambda: L(-1.0, 1.0), lambda: L(1.0, -1.0)(c, "forecast_period"), lambda: L(None, 1.0), lambda: N(0.0), lambda: N(1.5), lambda: N(-0.1), lambda: N(None),
        lambda: W("forecast_period", {"m0": {"forecast_period": [1, 2], "weights": [1.0]}}),
        lambda: U.normalise_weights(np.array([0.5, -0.1, 0.6])), lambda: U.normalise_weights(np.zeros(3)),
        lambda: U.normalise_weights(np.array([[1.0, 0.0], [2.0, 0.0]]), axis=0),
        lambda: U.build_weights_cube(c, np.array([1.0, 2.0, 3.0]), "forecast_period"),
    ][k]
    e = raises(f)
    cov.step()
    expect(isinstance(e, ValueError), "must be refused", got=e)
    return "refused"


def c_norm(tier):
    for sh in [(3,), (2, 2), (1, 3), (3, 2)]:
        for vals in itertools.product((0, 1, 2), repeat=sh[0] * (sh[1] if len(sh) > 1 else 1)):
            for ax in (None,) + tuple(range(len(sh))):
                yield (list(sh), list(vals), ax)


def norm(case, cov):
    import numpy as np
    from improver.blending.weights import WeightsUtilities as U

    sh, vals, ax = case
    a = np.array(vals, np.float32).reshape(sh)
    s = a.sum(axis=ax, keepdims=True)
    e = None
    b = a.copy()
    if (s == 0).any():
        e = raises(U.normalise_weights, a, axis=ax)
        expect(isinstance(e, ValueError), "zero weights must be refused", got=e)
    else:
        expect_close(U.normalise_weights(a, axis=ax), b / s, "normalised")
    expect_same(a, b, "input")
    cov.step()
    return "refused" if e else "ok"


# ------------------------------------------------------------ spatially varying
def c_spatial(tier):
    grids = [(2, 3)] if tier == "quick" else [(2, 4)]
    for ny, nx in grids:
        n = ny * nx
        for w in ([0.5, 0.5], [0.2, 0.8]):
            for m0 in range(2 ** n):
                for m1 in range(m0 % 3, 2 ** n, 3) if tier == "quick" else range(2 ** n):
                    if w[0] == 0.2 and (m1 % 4):
                        continue
                    yield (ny, nx, [m0, m1], w, 2, "model_id", 0)
    for ms in itertools.product((0, 1, 0x003, 0x8f1, 0xfff, 0x0f0, 0x421), repeat=3):
        for fz in (1, 2, 3.5):
            for w in ([0.25, 0.5, 0.25], [0.0, 0.4, 0.6]):
                yield (3, 4, list(ms), w, fz, "model_id", 0)
    for ms in itertools.product((0, 1, 0x003, 0x8f1, 0xfff), repeat=2):
        for fz in (1, 3):
            for extra in (1, 2, 3):
                for coord in ("model_id", "forecast_period", "forecast_reference_time"):
                    yield (3, 4, list(ms), [0.3, 0.7], fz, coord, extra)


def spatial(case, cov):
    """extra: 0 none; 1 realization dimension after the blend dimension; 2 before it; 3 mask differs between realizations."""
    import warnings

    import cubes
    import numpy as np
    from improver.blending.spatial_weights import SpatiallyVaryingWeightsFromMask as S

    ny, nx, ms, w, fz, coord, extra = case
    n = len(ms)
    mask = np.array([[(m >> k) & 1 for k in range(ny * nx)] for m in ms], bool).reshape(n, ny, nx)
    base = cyc([6 * (i + 1) for i in range(n)], "forecast_period", (ny, nx)) if coord != "model_id" else models_cube(["up"] * n, [6])
    if coord == "forecast_reference_time":
        base = cyc([6 * (i + 1) for i in range(n)][::-1], "forecast_reference_time", (ny, nx))
    lead = [(coord, base.coord(coord).points, str(base.coord(coord).units), base.coord(coord).dtype)]
    if extra in (1, 3):
        lead = lead + [("realization", [0, 1], "1")]
    elif extra == 2:
        lead = [("realization", [0, 1], "1")] + lead
    sh = tuple(len(x[1]) for x in lead) + (ny, nx)
    full = np.zeros(sh, bool)
    for i in range(n):
        for r in range(2 if extra else 1):
            ix = (i,) if not extra else ((i, r) if extra != 2 else (r, i))
            full[ix] = mask[i]
    differs = False
    if extra == 3:
        full[0, 1, 2, 3] ^= True
        differs = True
    d = np.ma.masked_array(np.arange(np.prod(sh), dtype=np.float32).reshape(sh), full)
    c = cubes.grid(d, name="air_temperature", units="K", leading=lead, time=None)
    wc = cubes.grid(np.zeros((n, ny, nx), np.float32), name="weights", units="1", leading=[lead[1] if extra == 2 else lead[0]], time=None)
    wc = wc[:, 0, 0]
    wc.data = np.array(w, np.float32)
    plug = S(coord, fuzzy_length=fz)
    with cubes.Unchanged(c, wc):
        with warnings.catch_warnings(record=True) as caught:
            warnings.simplefilter("always")
            e = raises(plug, c, wc) if differs else None
            if not differs:
                r = plug(c, wc)
    cov.step()
    if differs:
        expect(isinstance(e, ValueError), "a mask that varies along another dimension must be refused", got=e)
        return "refused"
    got = cubes.arr(r, coord, "projection_y_coordinate", "projection_x_coordinate")
    # reference
    w32 = [F(str(x)) for x in w]
    want = np.zeros((n, ny, nx))
    if not mask.any():
        for i in range(n):
            want[i] = float(w32[i])
        expect(len([x for x in caught if "Expected masked" in str(x.message)]) >= 1, "a warning is given for unmasked data")
    else:
        init = [[[F(0)] * nx for _ in range(ny)] for _ in range(n)]
        for y, x in itertools.product(range(ny), range(nx)):
            s = sum(w32[i] for i in range(n) if not mask[i, y, x])
            for i in range(n):
                if not mask[i, y, x] and s > 0:
                    init[i][y][x] = w32[i] / s
        for y, x in itertools.product(range(ny), range(nx)):
            res, unres = {}, {}
            for i in range(n):
                v = float(init[i][y][x])
                zeros = [(a, b) for a in range(ny) for b in range(nx) if init[i][a][b] == 0]
                if zeros:
                    dist = min(((a - y) ** 2 + (b - x) ** 2) ** 0.5 for a, b in zeros)
                    f = min(1.0, dist / fz)
                else:
                    f = 1.0
                if v and f < 1:
                    res[i] = v * f
                else:
                    unres[i] = v
            req = 1 - sum(res.values())
            us = sum(unres.values())
            for i in res:
                want[i, y, x] = res[i]
            for i in unres:
                want[i, y, x] = unres[i] * req / us if us > 0 else 0.0
    expect_close(np.asarray(got), want, "weights", rtol=1e-4, atol=1e-5)
    expect(got.dtype == np.float32 and not np.ma.isMaskedArray(r.data), "type of the weights", got=(got.dtype, type(r.data)))
    return "masked" if mask.any() else "plain"


SECTIONS = [
    Section("default", c_default, default), Section("triangular", c_tri, tri), Section("configured", c_dict, dictw), Section("refused", c_refuse, refuse),
    Section("normalise", c_norm, norm), Section("spatial", c_spatial, spatial),
]

if __name__ == "__main__":
    main(globals())
