"""C27: blending of cycles and models from end to end: values, time coordinates, attributes, run records."""
import itertools
from fractions import Fraction as F

from mc import Section, Violation, expect, expect_close, expect_same, main, raises

PROPERTY = "C27"
Y, X = "projection_y_coordinate", "projection_x_coordinate"
H = 3600
MSG = "%s will be removed in future and should not be used"


def fmt(t):
    from datetime import datetime

    return datetime.utcfromtimestamp(int(t)).strftime("%Y%m%dT%H%MZ")


def one(i, kind, valid, frt, attributes, mask=None, bounds=False, blend_time=False, shape=(2, 3)):
    """The i-th input."""
    import cubes
    import numpy as np
    from iris.coords import AuxCoord

    k = {"mean": 0, "prob": 2, "pct": 3, "real": 2}[kind]
    sh = ((k,) if k else ()) + shape
    v = np.array([((j * 7 + i * 11 + j * i) % 32) for j in range(int(np.prod(sh)))], np.float32).reshape(sh)
    v = v / 32 if kind == "prob" else v / 2 + 260
    if kind == "pct":
        v = np.sort(v, axis=0) + np.array([0, 1, 2], np.float32).reshape(3, 1, 1)
    if mask is not None:
        m = np.broadcast_to(np.array(mask, bool), sh).copy()
        v = np.ma.masked_array(np.where(m, 777, v).astype(np.float32), m)
    tb = (valid - H, valid) if bounds else None
    kw = dict(time=valid, frt=frt, time_bounds=tb, attributes=attributes)
    if kind == "prob":
        c = cubes.prob(v, [270.0, 280.0], diag="air_temperature", tunits="K", **kw)
    elif kind == "pct":
        c = cubes.grid(v, name="air_temperature", units="K", leading=[("percentile", [10.0, 50.0, 90.0], "%")], **kw)
    elif kind == "real":
        c = cubes.grid(v, name="air_temperature", units="K", leading=[("realization", [0, 1], "1")], **kw)
    else:
        c = cubes.grid(v, name="air_temperature", units="K", **kw)
    if blend_time:
        c.add_aux_coord(AuxCoord(np.int64(frt), long_name="blend_time", units=cubes.EPOCH))
        for q in ("forecast_period", "forecast_reference_time"):
            c.coord(q).attributes["deprecation_message"] = MSG % q
    return c, v


def blended(values, weights, kind):
    import numpy as np
    from C26 import blend_ref

    if kind != "pct" or len(values) == 1:
        return sum(np.asarray(v, float) * float(w) for v, w in zip(values, weights))
    out = np.zeros(values[0].shape)
    for ix in np.ndindex(*values[0].shape[1:]):
        out[(slice(None),) + ix] = [float(q) for q in blend_ref([[F(float(v[(k,) + ix])) for k in range(3)] for v in values], [F(10), F(50), F(90)], [F(w) for w in weights])]
    return out


def order_of(kind):
    return {"mean": [], "prob": ["air_temperature"], "pct": ["percentile"], "real": ["realization"]}[kind] + [Y, X]


def check(r, kind, want, valid, cycle, bounds, attributes, tol=1e-5, fresh=True):
    import cubes
    import numpy as np

    dims = [c.name() for c in r.coords(dim_coords=True)]
    expect(dims == order_of(kind), "dimensions of the blend", got=dims)
    expect_close(np.ma.getdata(r.data), want, "blend", rtol=tol, atol=2e-2 if kind == "pct" else 1e-5)
    expect(r.dtype == np.float32, "type", got=r.dtype)
    t = r.coord("time")
    expect(list(t.points) == [valid] and (t.bounds is None) == (not bounds) and t.points.dtype == np.int64 and t.ndim == 1 and r.coord_dims("time") == (), "time", got=t)
    names = {c.name() for c in r.coords()} - set(dims)
    if cycle is None:
        expect("blend_time" not in names, "coordinates", got=names)
    else:
        expect(names == {"time", "forecast_period", "forecast_reference_time", "blend_time"}, "coordinates", got=names)
        for q in ("forecast_reference_time", "blend_time"):
            c = r.coord(q)
            expect(list(c.points) == [cycle] and c.bounds is None and str(c.units) == cubes.EPOCH and c.points.dtype == np.int64, q, got=(c.points, c.bounds, c.units, c.dtype))
        fp = r.coord("forecast_period")
        expect(list(fp.points) == [valid - cycle] and str(fp.units) == "seconds" and fp.points.dtype == np.int32, "forecast_period", expected=valid - cycle, got=(fp.points, fp.dtype))
        expect((fp.bounds is None) == (not bounds) and (not bounds or [list(b) for b in fp.bounds] == [[valid - H - cycle, valid - cycle]]), "forecast_period bounds", got=fp.bounds)
        for q in ("forecast_reference_time", "forecast_period"):
            expect(r.coord(q).attributes.get("deprecation_message") == MSG % q, "deprecation message of %s" % q, got=r.coord(q).attributes)
        expect(r.coord("blend_time").attributes == {} and t.attributes == {}, "attributes of the time coordinates")
    expect(r.attributes == attributes, "attributes", expected=attributes, got=r.attributes)


# ------------------------------------------------------------ cycles
METHODS = [("linear", {"y0val": 1, "ynval": 3}), ("linear", {"y0val": 0, "ynval": 1}), ("linear", {"y0val": 2, "ynval": 0}), ("nonlinear", {"cval": 0.5})]


def method_weights(method, n):
    name, kw = method
    if n == 1:
        return [F(1)]
    if name == "linear":
        raw = [F(kw["y0val"]) + (F(kw["ynval"]) - F(kw["y0val"])) * F(i, n - 1) for i in range(n)]
    else:
        raw = [F(str(kw["cval"])) ** i for i in range(n)]
        if kw.get("inverse_ordering"):
            raw = raw[::-1]
    s = sum(raw)
    return [w / s for w in raw]


def c_cycles(tier):
    for n in (1, 2, 3, 4):
        perms = list(itertools.permutations(range(n)))
        for perm in perms if tier == "thorough" else perms[:: 7 if n == 4 else 1]:
            for mi in range(len(METHODS) + 1):
                for kind in ("mean", "prob", "pct"):
                    for rec in (0, 1, 2):
                        for bounds in (False, True):
                            for late in (0, 2):
                                if (bounds or late) and (kind == "pct" or mi % 2 or (n > 3 and tier == "quick")):
                                    continue
                                yield (list(perm), mi, kind, rec, bounds, late)


def cycles(case, cov):
    import cubes
    from improver.blending.calculate_weights_and_blend import WeightAndBlend as W

    perm, mi, kind, rec, bounds, late = case
    n = len(perm)
    method = METHODS[mi] if mi < len(METHODS) else ("nonlinear", {"cval": 0.25, "inverse_ordering": True})
    valid = cubes.T0 + 24 * H
    frts = [cubes.T0 - 6 * H * (n - 1 - i) for i in range(n)]
    att = {"source": "IMPROVER", "institution": "MO", "title": "UK", "mosg__model_configuration": "uk_ens"}
    made = []
    for i in range(n):
        a = dict(att)
        if rec == 2:
            a["rr"] = "uk_ens:%s:0.500\nnc_det:%s:0.500" % (fmt(frts[i] - H), fmt(frts[i]))
        made.append(one(i, kind, valid, frts[i], a, bounds=bounds, blend_time=rec == 2))
    if rec == 2:  # inputs that have been blended before have a blend time of their own, which only model blending drops
        for c, _ in made:
            c.remove_coord("blend_time")
    inputs = [made[i][0] for i in perm]
    cyc = frts[-1] + late * H
    p = W("forecast_reference_time", method[0], **method[1])
    kw = dict(cycletime=fmt(cyc), attributes_dict={"title": "blend of {}", "source": "remove"})
    if rec:
        kw.update(record_run_attr="rr", model_id_attr="mosg__model_configuration")
    with cubes.Unchanged(inputs, kw["attributes_dict"]):
        r = p.process(inputs, **kw)
    cov.step()
    w = method_weights(method, n)
    use = [i for i in range(n) if w[i] > 0]
    want = blended([made[i][1] for i in use], [w[i] for i in use], kind)
    a = dict(att, title="blend of UK" if len(use) == 1 else "blend of Post-Processed UK", source="IMPROVER")
    if rec:
        lines = []
        for i in use:
            if rec == 1:
                lines.append("uk_ens:%s:%.3f" % (fmt(frts[i]), float(w[i])))
            else:
                ww = float(F(1, 2) * w[i])
                lines.append("\n".join(sorted(["uk_ens:%s:%.3f" % (fmt(frts[i] - H), ww), "nc_det:%s:%.3f" % (fmt(frts[i]), ww)])))
        got = sorted(r.attributes.get("rr", "").split("\n"))
        expect(got == sorted("\n".join(lines).split("\n")), "run record", expected=lines, got=got)
        a["rr"] = r.attributes["rr"]
    check(r, kind, want, valid, cyc, bounds, a)
    if kind == "mean":
        r2 = p.process(inputs, **kw)
        cubes.expect_cube(r2, cubes.describe(r), "the plugin gives the same again")
    return kind


# ------------------------------------------------------------ models
CONFIG = {
    "a": ("uk_det", [0, 6, 12], [1, 0.5, 0]), "b": ("uk_ens", [3, 9], [0, 1]), "c": ("nc_det", [0, 100], [0.25, 0.25]), "d": ("gl_ens", [0, 1], [0, 0]),
}


def c_models(tier):
    for n in (1, 2, 3):
        for ms in itertools.permutations("abcd", n):
            for lead in (2, 6, 9, 14):
                for method in ("dict", "linear", "nonlinear"):
                    for kind in ("mean", "prob", "pct"):
                        for rec in (0, 1, 2):
                            for late in (None, 0, 1):
                                if method != "dict" and (lead != 6 or "d" in ms):
                                    continue
                                if kind == "pct" and (late != 0 or rec):
                                    continue
                                if late is None and (rec or kind != "mean"):
                                    continue
                                if n == 3 and tier == "quick" and (rec == 1 or late == 1):
                                    continue
                                yield (list(ms), lead, method, kind, rec, late)


def models(case, cov):
    import cubes
    import numpy as np
    from improver.blending.calculate_weights_and_blend import WeightAndBlend as W

    ms, lead, method, kind, rec, late = case
    n = len(ms)
    latest = cubes.T0
    valid = latest + lead * H
    # default weights are spread over the models in the order given, so claimed only for models of one cycle
    frts = [latest - (3 * H * ((i + 1) % n) if method == "dict" else 0) for i in range(n)]
    top = max(frts)
    cyc = top if late is None else top + late * H
    made = []
    for i, m in enumerate(ms):
        a = {"source": "IMPROVER", "title": "forecast of %s" % m, "mosg__model_configuration": CONFIG[m][0]}
        if rec == 2 and i == 0:
            a["rr"] = "old_x:%s:0.250\nold_y:%s:0.750" % (fmt(frts[i]), fmt(frts[i]))
        made.append(one(i, kind, valid, frts[i], a, blend_time=(i == 1 or rec == 2)))
    inputs = [c for c, _ in made]
    cfg = {CONFIG[m][0]: {"forecast_period": CONFIG[m][1], "weights": CONFIG[m][2], "units": "hours"} for m in "abcd"}
    opts = {"dict": dict(weighting_coord="forecast_period", wts_dict=cfg), "linear": dict(y0val=1, ynval=3), "nonlinear": dict(cval=0.5)}[method]
    p = W("model_configuration" if lead % 3 else "model_id", method, **opts)
    kw = dict(cycletime=None if late is None else fmt(cyc), model_id_attr="mosg__model_configuration")
    if rec:
        kw["record_run_attr"] = "rr"
    # weights at the lead time relative to the common cycle
    if method == "dict":
        h = F(valid - cyc, H)
        raw = []
        for m in ms:
            x, y = CONFIG[m][1], [F(str(q)) for q in CONFIG[m][2]]
            if h <= x[0]:
                raw.append(y[0])
            elif h >= x[-1]:
                raw.append(y[-1])
            else:
                j = max(q for q in range(len(x) - 1) if x[q] <= h)
                raw.append(y[j] + (y[j + 1] - y[j]) * (h - x[j]) / (x[j + 1] - x[j]))
        s = sum(raw)
        w = [q / s for q in raw] if s else None
    else:
        w = method_weights((method, {"y0val": 1, "ynval": 3} if method == "linear" else {"cval": 0.5}), n)
    if n == 1:
        w = [F(1)]
    with cubes.Unchanged(inputs, cfg):
        if w is None:
            e = raises(p.process, inputs, **kw)
            cov.step()
            expect(isinstance(e, ValueError), "no weight at all must be refused", got=e)
            return "refused"
        if late is None:
            # without a cycle time model blending is refused
            e = raises(p.process, inputs, **kw)
            cov.step()
            expect(isinstance(e, ValueError), "the cycle time is required", got=e)
            return "refused"
        r = p.process(inputs, **kw)
    cov.step()
    use = [i for i in range(n) if w[i] > 0]
    want = blended([made[i][1] for i in use], [w[i] for i in use], kind)
    a = {"source": "IMPROVER", "institution": "unknown", "title": "forecast of %s" % ms[0] if n == 1 else "unknown", "mosg__model_configuration": " ".join(sorted(CONFIG[ms[i]][0] for i in use))}
    if rec:
        lines = []
        for i in use:
            if rec == 2 and i == 0:
                lines += ["old_x:%s:%.3f" % (fmt(frts[i]), 0.25 * float(w[i])), "old_y:%s:%.3f" % (fmt(frts[i]), 0.75 * float(w[i]))]
            else:
                lines.append("%s:%s:%.3f" % (CONFIG[ms[i]][0], fmt(frts[i]), float(w[i])))
        got = sorted(r.attributes.get("rr", "").split("\n"))
        ok = len(got) == len(lines)
        for g, x in zip(got, sorted(lines)):
            ok = ok and g.rsplit(":", 1)[0] == x.rsplit(":", 1)[0] and abs(float(g.rsplit(":", 1)[1]) - float(x.rsplit(":", 1)[1])) < 0.0011
        expect(ok, "run record", expected=sorted(lines), got=got)
        a["rr"] = r.attributes["rr"]
    check(r, kind, want, valid, cyc, False, a)
    if kind == "mean":
        r2 = p.process(inputs, **kw)
        cubes.expect_cube(r2, cubes.describe(r), "the plugin gives the same again")
    return kind


# ------------------------------------------------------------ spatial weights
def c_spatial(tier):
    masks = (0, 1, 0x003, 0x8f1, 0xfff, 0x0f0)
    for ms in itertools.product(masks, repeat=2):
        for fz in (2000.0, 4000.0, 7000.0):
            for kind in ("mean", "prob", "pct"):
                for spacing in (2000.0, 1000.0):
                    for blend in ("model_id", "forecast_reference_time"):
                        if ms[0] or ms[1]:
                            yield (list(ms), fz, kind, spacing, blend)


def spatial(case, cov):
    """The blend with weights that vary with the mask agrees with the weights (C25) applied pointwise (C26)."""
    import C25
    import cubes
    import numpy as np
    from improver.blending.calculate_weights_and_blend import WeightAndBlend as W

    ms, fz, kind, spacing, blend = case
    ny, nx = 3, 4
    mask = [np.array([(m >> k) & 1 for k in range(12)], bool).reshape(3, 4) for m in ms]
    valid = cubes.T0 + 6 * H
    made = []
    for i in range(2):
        frt = cubes.T0 - (0 if blend == "model_id" else 3 * H * (1 - i))
        c, v = one(i, kind, valid, frt, {"mosg__model_configuration": ["uk_det", "uk_ens"][i] if blend == "model_id" else "uk_det"}, mask=mask[i], shape=(3, 4))
        for q in (Y, X):
            c.coord(q).points = c.coord(q).points * np.float32(spacing / 2000.0)
            c.coord(q).bounds = None
        made.append((c, v))
    p = W(blend, "linear", y0val=1, ynval=3)
    kw = dict(cycletime=fmt(cubes.T0), spatial_weights=True, fuzzy_length=fz)
    if blend == "model_id":
        kw["model_id_attr"] = "mosg__model_configuration"
    with cubes.Unchanged([c for c, _ in made]):
        r = p.process([c for c, _ in made], **kw)
    cov.step()
    w = spatial_ref(np.array(mask), [0.25, 0.75], fz / spacing)
    k = (slice(None),)
    got = r.data
    gm = np.ma.getmaskarray(got)
    allm = mask[0] & mask[1]
    for y, x in itertools.product(range(ny), range(nx)):
        g = got[..., y, x]
        if allm[y, x]:
            expect(bool(gm[..., y, x].all()), "masked in every input, so masked in the blend", got=g)
            continue
        expect(not gm[..., y, x].any(), "not masked", got=g)
        vals = [np.ma.getdata(v)[..., y, x] for _, v in made]
        ww = [float(w[i, y, x]) for i in range(2)]
        if kind == "pct":
            use = [i for i in range(2) if ww[i] > 1e-6]
            from C26 import blend_ref

            want = [float(q) for q in blend_ref([[F(float(z)) for z in vals[i]] for i in use], [F(10), F(50), F(90)], [F(ww[i]) for i in use])] if len(use) > 1 else vals[use[0]]
            expect_close(np.ma.getdata(g), want, "blended percentiles at %s" % ((y, x),), rtol=1e-5, atol=2e-2)
        else:
            s = sum(ww)
            expect_close(np.ma.getdata(g), sum(vals[i].astype(float) * ww[i] for i in range(2)) / s, "blend at %s" % ((y, x),), rtol=1e-5, atol=1e-5)
    return kind


def spatial_ref(mask, w, fz):
    import numpy as np

    n, ny, nx = mask.shape
    want = np.zeros((n, ny, nx))
    init = np.zeros((n, ny, nx))
    for y, x in itertools.product(range(ny), range(nx)):
        s = sum(w[i] for i in range(n) if not mask[i, y, x])
        for i in range(n):
            if not mask[i, y, x] and s > 0:
                init[i, y, x] = w[i] / s
    for y, x in itertools.product(range(ny), range(nx)):
        res, unres = {}, {}
        for i in range(n):
            v = init[i, y, x]
            zeros = [(a, b) for a in range(ny) for b in range(nx) if init[i, a, b] == 0]
            f = min(1.0, min(((a - y) ** 2 + (b - x) ** 2) ** 0.5 for a, b in zeros) / fz) if zeros else 1.0
            if v and f < 1:
                res[i] = v * f
            else:
                unres[i] = v
        req, us = 1 - sum(res.values()), sum(unres.values())
        for i in res:
            want[i, y, x] = res[i]
        for i in unres:
            want[i, y, x] = unres[i] * req / us if us > 0 else 0.0
    return want


# ------------------------------------------------------------ realizations, command line
def c_other(tier):
    for kind in ("real",):
        for mi in range(len(METHODS)):
            for cyc in (None, 0):
                yield ("real", mi, cyc)
    for k in range(6):
        yield ("cli", k, 0)


def other(case, cov):
    import cubes
    import numpy as np
    from improver.blending.calculate_weights_and_blend import WeightAndBlend as W

    which, k, cyc = case
    valid = cubes.T0 + 6 * H
    if which == "real":
        c, v = one(0, "real", valid, cubes.T0, {"title": "t"})
        p = W("realization", METHODS[k][0], **METHODS[k][1])
        with cubes.Unchanged(c):
            r = p.process([c], cycletime=None if cyc is None else fmt(cubes.T0))
        cov.step()
        w = method_weights(METHODS[k], 2)
        want = blended(list(v), w, "mean")
        check(r, "mean", want, valid, None, False, {"title": "t" if k == 1 or k == 2 else "Post-Processed t", "source": "IMPROVER", "institution": "unknown"})
        cubes.expect_cube(r.coord("forecast_period").points, c.coord("forecast_period").points, "x") if False else None
        expect({q.name() for q in r.coords()} == {"time", "forecast_period", "forecast_reference_time", Y, X}, "coordinates", got=[q.name() for q in r.coords()])
        for q in ("forecast_period", "forecast_reference_time"):
            expect_same(r.coord(q).points, c.coord(q).points, q)
        return "real"
    from improver.cli.weighted_blending import process

    fn = getattr(process, "__wrapped__", process)
    fn = getattr(fn, "__wrapped__", fn)
    ins = [one(i, "mean", valid, cubes.T0 - 3 * H * i, {"mid": ["uk", "gl"][i], "title": "x"})[0] for i in range(2)]
    cfg = {"uk": {"forecast_period": [0, 12], "weights": [1, 0], "units": "hours"}, "gl": {"forecast_period": [0, 12], "weights": [0, 1], "units": "hours"}}
    opts = [
        dict(coordinate="forecast_reference_time", y0val=1.0, ynval=4.0, cycletime=fmt(cubes.T0)),
        dict(coordinate="forecast_reference_time", weighting_method="nonlinear", cval=0.25, cycletime=fmt(cubes.T0)),
        dict(coordinate="model_configuration", weighting_method="dict", weighting_config=cfg, model_id_attr="mid", cycletime=fmt(cubes.T0)),
        dict(coordinate="model_configuration", weighting_method="dict", weighting_config=cfg, model_id_attr="mid", cycletime=fmt(cubes.T0), record_run_attr="rr", attributes_config={"title": "made"}),
        dict(coordinate="model_configuration", y0val=1.0, ynval=1.0, model_id_attr="mid", cycletime=fmt(cubes.T0), attributes_config={"institution": "Z"}),
        dict(coordinate="forecast_reference_time", y0val=1.0, ynval=1.0, cycletime=fmt(cubes.T0 + H)),
    ][k]
    r = fn(*ins, **opts)
    cov.step()
    w = [[F(4, 5), F(1, 5)], [F(1, 5), F(4, 5)], [F(1, 2)] * 2, [F(1, 2)] * 2, [F(1, 2)] * 2, [F(1, 2)] * 2][k]
    want = sum(c.data.astype(float) * float(x) for c, x in zip(ins, w))
    expect_close(r.data, want, "blend", rtol=1e-5)
    expect(r.attributes.get("source") == "IMPROVER", "mandatory attributes", got=r.attributes)
    if "model" in opts["coordinate"]:
        expect(r.attributes["mid"] == "gl uk", "models", got=r.attributes)
    if k == 3:
        expect(r.attributes["rr"] == "gl:%s:0.500\nuk:%s:0.500" % (fmt(cubes.T0 - 3 * H), fmt(cubes.T0)) and "made" in r.attributes["title"], "record", got=r.attributes)
    if k == 4:
        expect(r.attributes["institution"] == "Z", "attributes", got=r.attributes)
    expect(r.coord("blend_time").points[0] == cubes.T0 + (H if k == 5 else 0), "blend time", got=r.coord("blend_time"))
    return "cli"


def c_refuse(tier):
    for k in range(16):
        yield (k,)


def refuse(case, cov):
    import cubes
    from improver.blending.calculate_weights_and_blend import WeightAndBlend as W
    from improver.blending.utilities import store_record_run_as_coord
    from improver.cli.weighted_blending import process

    fn = getattr(process, "__wrapped__", process)
    fn = getattr(fn, "__wrapped__", fn)
    (k,) = case
    valid = cubes.T0 + 6 * H
    A = {"mid": "uk"}
    a, b = one(0, "mean", valid, cubes.T0, A)[0], one(1, "mean", valid, cubes.T0 - H, A)[0]
    g = one(1, "mean", valid, cubes.T0 - H, {"mid": "gl"})[0]
    bad = one(1, "mean", valid, cubes.T0 - H, {"mid": "gl", "rr": "gl:20171110T0000Z:"})[0]
    other = one(1, "mean", valid + H, cubes.T0 - H, {"mid": "gl"})[0]
    bd = one(1, "mean", valid, cubes.T0, {"mid": "gl"}, bounds=True)[0]
    bd2 = bd.copy()
    bd2.coord("time").bounds = [[valid - 2 * H, valid]]
    bd2.coord("forecast_period").bounds = [[valid - 2 * H - cubes.T0, valid - cubes.T0]]
    bd2.coord("forecast_reference_time").points = [cubes.T0 - H]
    bd2.coord("forecast_period").points = bd2.coord("forecast_period").points + H
    bd2.coord("forecast_period").bounds = bd2.coord("forecast_period").bounds + H
    noid = one(1, "mean", valid, cubes.T0, {})[0]
    L = lambda coord: W(coord, "linear", y0val=1, ynval=1)
    cyc = fmt(cubes.T0)
    f = [
        lambda: W("forecast_reference_time", "kludge"), lambda: L("forecast_reference_time").process([a, b]), lambda: L("model_id").process([a, b], cycletime=cyc),
        lambda: L("model_id").process([a, b], cycletime=cyc, model_id_attr="mid"), lambda: L("model_id").process([a, noid], cycletime=cyc, model_id_attr="mid"),
        lambda: L("forecast_reference_time").process([a, b], cycletime=cyc, record_run_attr="rr"),
        lambda: L("model_id").process([a, bad], cycletime=cyc, model_id_attr="mid", record_run_attr="rr"), lambda: L("kittens").process([a, b], cycletime=cyc),
        lambda: L("model_id").process([a, other], cycletime=cyc, model_id_attr="mid"), lambda: L("forecast_reference_time").process([bd, bd2], cycletime=cyc),
        lambda: fn(a, b, coordinate="forecast_reference_time", y0val=1.0, ynval=1.0, cval=0.5, cycletime=cyc),
        lambda: fn(a, b, coordinate="forecast_reference_time", weighting_method="nonlinear", y0val=1.0, cval=0.5, cycletime=cyc),
        lambda: fn(a, b, coordinate="forecast_reference_time", weighting_method="dict", cycletime=cyc), lambda: fn(a, g, coordinate="model_id", y0val=1.0, ynval=1.0, cycletime=cyc),
        lambda: fn(a, b, coordinate="forecast_reference_time", y0val=1.0, ynval=1.0, record_run_attr="rr", cycletime=cyc),
        lambda: store_record_run_as_coord([a, b], "rr", None),
    ][k]
    e = raises(f)
    cov.step()
    expect(isinstance(e, Exception) and not isinstance(e, (AttributeError, TypeError, IndexError)), "must be refused (%d)" % k, got=e)
    return "refused"


SECTIONS = [Section("cycles", c_cycles, cycles), Section("models", c_models, models), Section("spatial", c_spatial, spatial), Section("other", c_other, other), Section("refused", c_refuse, refuse)]

if __name__ == "__main__":
    main(globals())
