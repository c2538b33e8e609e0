"""C23: thresholding."""
import itertools
import math

from mc import Section, Violation, expect, expect_close, expect_same, main, raises

PROPERTY = "C23"
ATT = {"source": "IMPROVER", "title": "UK forecast", "institution": "Met Office"}
OPS = {">": "gt", "gt": "gt", ">=": "ge", "ge": "ge", "<": "lt", "lt": "lt", "<=": "le", "le": "le"}
SPP = {"gt": "greater_than", "ge": "greater_than_or_equal_to", "lt": "less_than", "le": "less_than_or_equal_to"}


def hard(v, t, op):
    return float({"gt": v > t, "ge": v >= t, "lt": v < t, "le": v <= t}[op])


def fuzzy(v, t, b, op):
    """Probability of exceedance rising linearly from 0 at the lower bound, through 0.5 at the threshold, to 1 at the upper bound."""
    lo, hi = b
    if lo == hi:
        return hard(v, t, op)
    if v < t:
        p = 0.5 * (v - lo) / (t - lo) if v > lo else 0.0
    else:
        p = 0.5 + 0.5 * (v - t) / (hi - t) if v < hi else 1.0
    return p if op[0] == "g" else 1 - p


def reference(V, M, ths, bounds, op, collapse, radii, landmask, tomodel=None):
    """V, M: [m, y, x] values and mask of the members; result and mask [threshold][radius][m or none, y, x]."""
    import numpy as np

    m, ny, nx = V.shape
    out, om = [], []
    for t, b in zip(ths, bounds):
        p = np.array([[[fuzzy(float(V[k, y, x]), t, b, op) for x in range(nx)] for y in range(ny)] for k in range(m)])
        rows, rm = [], []
        for r in radii or [None]:
            q = p
            if r is not None:
                q = np.zeros_like(p)
                for k, y, x in np.ndindex(*p.shape):
                    near = [p[k, i, j] for i in range(max(0, y - r), min(ny, y + r + 1)) for j in range(max(0, x - r), min(nx, x + r + 1))
                            if not M[k, i, j] and (landmask is None or landmask[i, j] == landmask[y, x])]
                    q[k, y, x] = max(near) if near else 0
            if collapse:
                n = (~M).sum(axis=0)
                rows.append(np.where(n, np.where(M, 0, q).sum(axis=0) / np.maximum(n, 1), 0))
                rm.append(n == 0)
            else:
                rows.append(q)
                rm.append(M)
        out.append(rows)
        om.append(rm)
    return np.array(out), np.array(om)


def values(m, ny, nx, pool, seed):
    import numpy as np

    n = len(pool)
    return np.array([[[pool[(k * 5 + y * 7 + x * 3 + (x * y + seed) // 2 + seed) % n] for x in range(nx)] for y in range(ny)] for k in range(m)], np.float32)


def masks(mode, m, ny, nx):
    import numpy as np

    M = np.zeros((m, ny, nx), bool)
    if mode in ("same", "changing"):
        M[:, 0, 0] = M[:, 1, 2] = True
    if mode == "changing":
        M[0, 2, 1] = M[m - 1, 0, 2] = M[m // 2, 3, 3] = True
    if mode == "row":
        M[:, 1, :] = True
        M[0, 2, :] = True
    return M


def run(V, M, mode, layout, ths, bounds, op, collapse=None, radii=None, landmask=None, kw=None, tunits=None, dunits="K", name="air_temperature", fill=None, cell_method=False, twice=False, cov=None):
    import cubes
    import numpy as np
    from cf_units import Unit
    from iris.coords import CellMethod
    from improver.threshold import Threshold

    m, ny, nx = V.shape
    data = np.ma.masked_array(V, M) if mode else V
    lead = []
    if layout == "yx":
        data = data[0]
        V, M = V[:1], M[:1]
    elif layout == "realization":
        lead = [("realization", list(range(m)), "1")]
    elif layout == "percentile":
        lead = [("percentile", [100.0 * (k + 1) / (m + 1) for k in range(m)], "%")]
    elif layout == "time":
        lead = [("time", [cubes.T0 + 3600 * k for k in range(m)], cubes.EPOCH)]
    elif layout == "rt":
        data = (np.ma if mode else np).stack([data, data[::-1]])
        lead = [("realization", [0, 1], "1"), ("time", [cubes.T0 + 3600 * k for k in range(m)], cubes.EPOCH)]
    if mode and not isinstance(data, np.ma.MaskedArray):
        data = np.ma.masked_array(data)
    fc = cubes.grid(data, name=name, units=dunits, leading=lead, attributes=ATT)
    if cell_method:
        fc.add_cell_method(CellMethod("maximum", coords="time"))
        if cell_method == 2:
            fc.add_cell_method(CellMethod("mean", coords="realization", comments="of 3 members"))
    lm = None
    if landmask is not None:
        lm = cubes.grid(landmask.astype(np.int32), name="land_binary_mask", units="1", time=None)
    kw = dict(kw or {}, comparison_operator=op, collapse_coord=collapse, threshold_units=tunits)
    if radii is not None:
        kw["vicinity"] = [r * 2000.0 for r in radii]
    if fill is not None:
        kw["fill_masked"] = fill
    plug = Threshold(**kw)
    with cubes.Unchanged(fc, lm):
        r = plug.process(fc, lm)
    if cov:
        cov.step()
    if twice:
        with cubes.Unchanged(fc, lm):
            r2 = plug.process(fc, lm)
        cubes.expect_cube(r2, cubes.describe(r), "the plugin gives the same result again")
    # reference
    if fill is not None:
        V, M = np.where(M, np.float32(fill), V), np.zeros_like(M)
    Vt = V
    if tunits is not None:
        Vt = np.asarray(Unit(dunits).convert(V.copy(), Unit(tunits)), np.float32)
    o = OPS[op]
    # the output lists thresholds and radii in increasing order
    order = sorted(range(len(ths)), key=lambda i: ths[i])
    st, sb = [float(np.float32(ths[i])) for i in order], [bounds[i] for i in order]
    sr = sorted(radii) if radii else None
    if layout == "rt":
        a = reference(Vt, M, st, sb, o, False, sr, landmask)
        b = reference(Vt[::-1], M[::-1], st, sb, o, False, sr, landmask)
        if collapse:
            n = (~M).astype(int) + (~M[::-1])
            w = (np.where(M, 0, a[0]) + np.where(M[::-1], 0, b[0])) / np.maximum(n, 1)
            wm = np.broadcast_to(n == 0, w.shape)
        else:
            w, wm = np.stack([a[0], b[0]]), np.stack([a[1], b[1]])
    else:
        w, wm = reference(Vt, M, st, sb, o, bool(collapse), sr, landmask)
    # arrange the result
    have = [c.name() for c in r.coords(dim_coords=True)]
    want_dims = []
    if not collapse and layout in ("realization", "percentile", "rt"):
        want_dims.append("realization" if layout == "rt" else layout)
    if len(ths) > 1:
        want_dims.append(name)
    if radii and len(radii) > 1:
        want_dims.append("radius_of_vicinity")
    if layout in ("time", "rt"):
        want_dims.append("time")
    want_dims += ["projection_y_coordinate", "projection_x_coordinate"]
    expect(have == want_dims, "dimensions", expected=want_dims, got=have)
    # reference arrays: rt: [realization?, threshold, radius, time, y, x]; else [threshold, radius, (member), y, x]
    if layout == "rt":
        if collapse:
            pass
    elif layout in ("realization", "percentile") and not collapse:
        w, wm = np.moveaxis(w, 2, 0), np.moveaxis(wm, 2, 0)
    elif layout == "yx":
        w, wm = w[:, :, 0], wm[:, :, 0]
    got, gm = np.ma.getdata(r.data), np.ma.getmaskarray(r.data)
    if w.size != got.size:
        raise Violation("shape", expected=w.shape, got=got.shape)
    w, wm = w.reshape(got.shape), wm.reshape(got.shape)
    expect_same(gm, wm, "mask")
    expect_close(got[~wm], w[~wm], "probabilities", rtol=0, atol=2e-5)
    expect(r.dtype == np.float32, "type", got=r.dtype)
    # metadata
    rel = "above" if o[0] == "g" else "below"
    nm = "probability_of_%s%s_%s_threshold" % (name, "_in_vicinity" if radii else "", rel)
    expect(r.name() == nm and str(r.units) == "1", "name", expected=nm, got=(r.name(), str(r.units)))
    c = r.coord(var_name="threshold")
    want_t = np.asarray([ths[i] for i in order], np.float64)
    if tunits is not None:
        want_t = np.asarray(Unit(tunits).convert(want_t, Unit(dunits)))
    expect(c.name() == name and str(c.units) == dunits and c.dtype == np.float32, "threshold coordinate", got=(c.name(), str(c.units), c.dtype))
    expect_close(c.points, want_t, "threshold values", rtol=1e-6, atol=1e-6)
    expect(c.attributes == {"spp__relative_to_threshold": SPP[o]}, "relation", got=c.attributes)
    if radii:
        expect_same(r.coord("radius_of_vicinity").points, np.array([q * 2000.0 for q in sr], np.float32), "radii")
    if collapse:
        expect(not r.coords("realization") and not r.coords("percentile"), "the collapsed coordinate is removed")
    if cell_method:
        expect([(x.method, x.coord_names, x.comments) for x in r.cell_methods] == [("maximum", ("time",), ("of " + name,))] + ([("mean", ("realization",), ("of " + name,))] if cell_method == 2 else []), "cell methods", got=[str(x) for x in r.cell_methods])
    for nm2 in ("time", "forecast_period", "forecast_reference_time", "projection_x_coordinate"):
        if fc.coords(nm2):
            expect(nm2 in [k.name() for k in r.coords()] and r.coord(nm2) == fc.coord(nm2), "coordinate " + nm2)
    expect(r.attributes == ATT, "attributes", got=r.attributes)
    return r


def eps(t):
    import numpy as np

    t = np.float32(t)
    return [t, np.nextafter(t, np.float32(-1e9)), np.nextafter(t, np.float32(1e9))]


# ---------------------------------------------------------------- sections
def c_hard(tier):
    for op in OPS:
        for ths in ([280.1], [280.1, 281.0], [281.0, 280.1], [281.0, 279.3, 280.1], [0.0], [-0.5, 0.0], [0.0, -0.5]):
            for layout in ("yx", "realization", "percentile", "time", "rt"):
                for mode in (None, "none", "same", "changing"):
                    yield (op, ths, layout, mode)


def f_hard(case, cov):
    """Each output is 1 exactly where the value satisfies the comparison with the threshold of that output."""
    op, ths, layout, mode = case
    pool = [v for t in ths for v in eps(t)] + [ths[0] - 1, ths[0] + 2]
    V = values(3, 4, 5, pool, len(ths))
    M = masks(mode, 3, 4, 5)
    run(V, M, mode, layout, ths, [(t, t) for t in ths], op, kw={"threshold_values": ths if len(ths) > 1 else ths[0]}, cell_method={"yx": 1, "time": 2}.get(layout, 0), twice=True, cov=cov)
    return op


def c_units(tier):
    for op in (">", "<="):
        for du, tu, ths in (("K", "celsius", [6.85, 7.3]), ("K", "celsius", [7.3, 6.85]), ("celsius", "K", [280.25]), ("m s-1", "mm h-1", [0.1, 2.0]), ("m", "km", [1.0]), ("m", "mm", [1000.0, 400.0])):
            for layout in ("yx", "realization", "rt"):
                for collapse in ((None, "realization") if layout != "yx" else (None,)):
                    for mode in (None, "changing"):
                        for ff in (None, 0.6):
                            yield (op, du, tu, ths, layout, collapse, mode, ff)


def f_units(case, cov):
    """Thresholds and bounds in other units; the output's threshold is in the units of the input, which is not changed."""
    import numpy as np
    from cf_units import Unit

    op, du, tu, ths, layout, collapse, mode, ff = case
    b = [(t * ff, t * (2 - ff)) if ff else (t, t) for t in ths]
    pool = [x for t in ths for x in (t * 0.5, t * 0.75, t * 0.97, t * 1.03, t * 1.2, t * 1.7)]
    pool = [float(Unit(tu).convert(x, Unit(du))) for x in pool]
    V = values(3, 4, 5, pool, 1)
    run(V, masks(mode, 3, 4, 5), mode, layout, ths, b, op, collapse, kw={"threshold_values": ths, "fuzzy_factor": ff}, tunits=tu, dunits=du, twice=True, cov=cov)
    return tu


def c_fuzzy(tier):
    for op in OPS:
        for mode in (None, "changing"):
            for ff in (0.5, 0.9, 0.01):
                for ths in ([4.0], [-4.0], [2.0, 6.0], [6.0, 2.0], [6.0, -4.0, 2.0], [0.25, -0.5], [-1.0, -0.125]):
                    yield (op, mode, "factor", ff, ths, None)
            for ths, b in (([4.0], [[3.0, 6.0]]), ([0.0], [[-1.0, 0.5]]), ([2.0, 6.0], [[1.0, 2.5], [5.0, 8.0]]), ([6.0, 2.0], [[5.0, 8.0], [1.0, 2.5]]), ([2.0, 6.0], ["None", "None"]), ([6.0, 2.0], ["None", "None"]),
                           ([2.0, 6.0], [[1.0, 2.5], "None"]), ([2.0, 6.0], ["None", [5.0, 8.0]]), ([2.0, 4.0, 6.0], [[1.0, 2.5], "None", [5.0, 8.0]]), ([2.0, 4.0], [[2.0, 2.0], [3.0, 5.0]]), ([2.0, 4.0], [[1.0, 5.0], [0.0, 4.5]]), ([4.0, 2.0, -1.0], [[-1.5, 4.5], [1.0, 2.25], [-1.25, 6.0]])):
                yield (op, mode, "config", None, ths, b)


def f_fuzzy(case, cov):
    """Fuzzy factors and bounds."""
    import numpy as np

    op, mode, kind, ff, ths, cfg = case
    if kind == "factor":
        b = [tuple(sorted((t * ff, t * (2 - ff)))) for t in ths]
        kw = {"threshold_values": ths, "fuzzy_factor": ff}
    else:
        b = [(t, t) if x == "None" else tuple(x) for t, x in zip(ths, cfg)]
        kw = {"threshold_config": {repr(t): x for t, x in zip(ths, cfg)}}
    pool = []
    for t, (lo, hi) in zip(ths, b):
        pool += [lo, hi, (lo + t) / 2, (hi + t) / 2, t, lo - 1, hi + 1, (lo * 0.25 + t * 0.75)]
    V = values(3, 5, 8, pool, 0)
    run(V, masks(mode, 3, 5, 8), mode, "realization", ths, b, op, kw=kw, cov=cov)
    run(V, masks(mode, 3, 5, 8), mode, "realization", ths, b, op, "realization", kw=kw, cov=cov)
    return kind


def c_collapse(tier):
    for op in (">", "<="):
        for layout in ("realization", "percentile", "rt"):
            for m in (1, 2, 3, 4) if layout != "rt" else (3,):
                for mode in (None, "none", "same", "changing", "row"):
                    for ths in ([280.0], [281.0, 280.0]):
                        for radii in (None, [1], [2, 1], [1, 3]):
                            for ff in (None, 0.998):
                                if layout == "percentile" and (mode in ("none", "row") or radii == [1, 3]) or m == 1 and mode == "row":
                                    continue
                                yield (op, layout, m, mode, ths, radii, ff)


def f_collapse(case, cov):
    """The mean over the members that are present, with and without vicinity; where no member is present the result is masked."""
    op, layout, m, mode, ths, radii, ff = case
    V = values(m, 5, 6, [278.5, 279.7, 280.0, 280.3, 281.0, 282.5, 281.2], m)
    b = [(t * ff, t * (2 - ff)) if ff else (t, t) for t in ths]
    run(V, masks(mode, m, 5, 6), mode, layout, ths, b, op, "percentile" if layout == "percentile" else "realization", radii, kw={"threshold_values": ths, "fuzzy_factor": ff}, twice=True, cov=cov)
    return layout


def c_vic(tier):
    for op in (">=", "lt"):
        for layout in ("yx", "realization", "time", "rt"):
            for mode in (None, "none", "same", "changing", "row"):
                for radii in ([1], [1, 2], [3, 1], [2, 3, 1]):
                    for land in (None, 0, 1):
                        for ff in (None, 0.998):
                            for fill in (None, 282.0):
                                if fill and (mode != "changing" or land):
                                    continue
                                yield (op, layout, mode, radii, land, ff, fill)


def f_vic(case, cov):
    """The maximum over the vicinity of the points that are present, on like surfaces; masked values (whatever lies beneath) never contribute."""
    import numpy as np

    op, layout, mode, radii, land, ff, fill = case
    ths = [281.0, 280.0]
    V = values(2, 5, 6, [278.5, 279.7, 278.0, 280.3, 277.0, 279.0, 281.2, 279.6, 276.0], 2)
    M = masks(mode, 2, 5, 6)
    V = np.where(M, np.float32(300.0 if op == ">=" else 200.0), V)
    lm = None
    if land is not None:
        lm = np.array([[(y + x * land) % 3 == 0 or x > 3 for x in range(6)] for y in range(5)])
    b = [(t * ff, t * (2 - ff)) if ff else (t, t) for t in ths]
    run(V, M, mode, layout, ths, b, op, None, radii, lm, kw={"threshold_values": ths, "fuzzy_factor": ff}, fill=fill, cov=cov)
    return layout


def c_fill(tier):
    for fill in (0.0, 280.0, 290.0):
        for mode in ("none", "same", "changing", "row"):
            for layout in ("yx", "realization", "rt"):
                for collapse in (None, "realization"):
                    if not (layout == "yx" and collapse):
                        yield (fill, mode, layout, collapse)


def f_fill(case, cov):
    fill, mode, layout, collapse = case
    V = values(3, 4, 5, [278.5, 280.0, 281.2, 279.0, 285.0], 3)
    run(V, masks(mode, 3, 4, 5), mode, layout, [280.0, 284.0], [(280.0, 280.0), (284.0, 284.0)], ">=", collapse, kw={"threshold_values": [280.0, 284.0]}, fill=fill, twice=True, cov=cov)
    return fill


def c_refuse(tier):
    for k in range(12):
        yield (k,)


def f_refuse(case, cov):
    import cubes
    import numpy as np
    from improver.threshold import Threshold as T

    (k,) = case
    V = np.full((2, 3), 280, np.float32)
    fc = cubes.grid(V, name="air_temperature", units="K")
    nan = V.copy()
    nan[1, 1] = np.nan
    acts = [
        lambda: T(threshold_values=[280.0]).process(cubes.grid(nan, name="air_temperature", units="K")),
        lambda: T(threshold_values=[280.0]).process(fc, cubes.grid(V * 0, name="land_binary_mask")),
        lambda: T(),
        lambda: T(threshold_values=[1.0], threshold_config={"1.0": "None"}),
        lambda: T(threshold_values=[1.0], fuzzy_factor=1.0),
        lambda: T(threshold_values=[1.0], fuzzy_factor=0.0),
        lambda: T(threshold_values=[1.0, 0.0], fuzzy_factor=0.5),
        lambda: T(threshold_config={"1.0": [0.0, 2.0]}, fuzzy_factor=0.5),
        lambda: T(threshold_config={"1.0": [0.0, 0.5]}),
        lambda: T(threshold_config={"1.0": [0.0, 0.5, 3.0]}),
        lambda: T(threshold_values=[1.0], comparison_operator="=="),
        lambda: T(threshold_values=[1.0], collapse_coord="time"),
    ]
    e = raises(acts[k])
    cov.step()
    expect(isinstance(e, ValueError), "must be refused (%d)" % k, got=e)
    return "refused"


def c_lat(tier):
    for op in OPS:
        for layout in ("yx", "realization", "rt"):
            for mode in (None, "none", "same", "changing"):
                for tu in (None, "celsius", "K"):
                    yield (op, layout, mode, tu)


def f_lat(case, cov):
    """Each row is compared with the threshold of its own latitude."""
    import cubes
    import numpy as np
    from cf_units import Unit
    from improver.threshold import LatitudeDependentThreshold as L

    op, layout, mode, tu = case
    o = OPS[op]
    off = 273.15 if tu == "celsius" else 0.0
    fn = lambda lat: 280.0 - off + np.asarray(lat) / 16
    V = np.zeros((3, 4, 5), np.float32)
    lats = [-20 + 20.0 * y for y in range(4)]
    for k, y, x in np.ndindex(*V.shape):
        t = 280.0 + lats[y] / 16
        e = [t - 1, t - 0.01, t, t + 0.01, t + 1][(x + k + y) % 5]
        V[k, y, x] = e if tu != "celsius" or e != t else t + 0.5
    M = masks(mode, 3, 4, 5)
    data, lead = (np.ma.masked_array(V, M) if mode else V), []
    if layout == "yx":
        data, V, M = data[0], V[0], M[0]
    elif layout == "realization":
        lead = [("realization", [0, 1, 2], "1")]
    else:
        lead = [("realization", [0, 1], "1"), ("time", [cubes.T0 + 3600 * k for k in range(3)], cubes.EPOCH)]
        st = np.ma.stack if mode else np.stack
        data, V, M = st([data, data[::-1]]), np.stack([V, V[::-1]]), np.stack([M, M[::-1]])
    fc = cubes.grid(data, name="air_temperature", units="K", leading=lead, spatial="latlon", spacing=20.0, origin=(-20.0, 0.0), attributes=ATT)
    plug = L(fn, threshold_units=tu, comparison_operator=op)
    with cubes.Unchanged(fc):
        r = plug.process(fc)
    cov.step()
    w = np.zeros(V.shape)
    for ix in np.ndindex(*V.shape):
        w[ix] = hard(float(V[ix]), 280.0 + lats[ix[-2]] / 16, o)
    gm = np.ma.getmaskarray(r.data)
    expect_same(gm, M if mode else np.zeros(V.shape, bool), "mask")
    expect_same(np.ma.getdata(r.data)[~gm].astype(float), w[~gm], "truth values")
    c = r.coord(var_name="threshold")
    expect(c.name() == "air_temperature" and str(c.units) == "K" and r.coord_dims(c) == (V.ndim - 2,), "threshold coordinate", got=(c.name(), str(c.units), r.coord_dims(c)))
    expect_close(c.points, [280.0 + x / 16 for x in lats], "threshold values")
    expect(c.attributes == {"spp__relative_to_threshold": SPP[o]}, "relation")
    expect(r.name() == "probability_of_air_temperature_%s_threshold" % ("above" if o[0] == "g" else "below") and str(r.units) == "1" and r.dtype == np.float32, "name, units, type", got=(r.name(), str(r.units), r.dtype))
    return layout


SECTIONS = [
    Section("hard", c_hard, f_hard, "8 operators x threshold lists in any order x layouts x masks; values at and next to each threshold"),
    Section("units", c_units, f_units, "threshold units x collapse x fuzzy"),
    Section("fuzzy", c_fuzzy, f_fuzzy, "fuzzy factors and every kind of bounds x operators x masks; values at all bounds and between"),
    Section("collapse", c_collapse, f_collapse, "1-4 members x masks x vicinities x fuzzy"),
    Section("vicinity", c_vic, f_vic, "layouts x masks x radii lists x land masks x fuzzy x filling"),
    Section("fill", c_fill, f_fill),
    Section("refuse", c_refuse, f_refuse),
    Section("latitude", c_lat, f_lat),
]

if __name__ == "__main__":
    main(globals())
