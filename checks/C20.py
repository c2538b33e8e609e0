"""C20: ensemble model output statistics (EMOS)."""
import itertools
import math

from mc import Section, Violation, expect, expect_close, expect_same, main, raises

PROPERTY = "C20"
PY, PX = "projection_y_coordinate", "projection_x_coordinate"
HOUR = 3600


def stub_statsmodels():
    """statsmodels is not installed: ordinary least squares by numpy stands in for it."""
    import sys
    import types
    import numpy as np

    if "statsmodels.api" in sys.modules:
        return
    m, api = types.ModuleType("statsmodels"), types.ModuleType("statsmodels.api")

    class OLS:
        def __init__(self, y, x):
            self.y, self.x = y, x

        def fit(self):
            r = types.SimpleNamespace()
            r.params = np.linalg.lstsq(self.x, self.y, rcond=None)[0]
            return r

    api.OLS = OLS
    api.add_constant = lambda x, has_constant="skip": np.column_stack([np.ones(len(x)), x])
    m.api = api
    sys.modules["statsmodels"], sys.modules["statsmodels.api"] = m, api


# ---------------------------------------------------------------- the score
def c_crps(tier):
    for dist in ("norm", "truncnorm"):
        for pred in ("mean", "mean2", "realizations"):
            for al in (0.0, 1.5):
                for b in (0.5, 1.0):
                    for ga in (0.0, 0.8):
                        for de in (0.5, 1.5):
                            for nan in (0, 1):
                                yield (dist, pred, al, b, ga, de, nan)


def Phi(z):
    return 0.5 * math.erfc(-z / math.sqrt(2))


def crps_numeric(dist, mu, sd, y):
    import numpy as np
    from scipy.stats import norm

    lo, hi = min(mu - 9 * sd, y - 1), max(mu + 9 * sd, y + 1)
    if dist == "truncnorm":
        lo = 0.0
    out = 0.0
    for a, b, ind in ((lo, y, 0.0), (y, hi, 1.0)):
        if b <= a:
            continue
        x = np.linspace(a, b, 4001)
        F = norm.cdf((x - mu) / sd)
        if dist == "truncnorm":
            F0 = norm.cdf(-mu / sd)
            F = (F - F0) / (1 - F0)
        out += np.trapz((F - ind) ** 2, x)
    return out


def crps(case, cov):
    """The minimised score is the mean continuous ranked probability score of the predicted distributions."""
    import numpy as np
    from improver.calibration.ensemble_calibration import ContinuousRankedProbabilityScoreMinimisers as P

    dist, pred, al, b, ga, de, nan = case
    m = np.array([[1.0, 2.5, 4.0], [2.0, 2.25, 6.0]]).T if pred != "mean" else np.array([1.0, 2.5, 4.0])
    var = np.array([0.25, 1.0, 2.0])
    y = np.array([1.5, 2.0, 6.5])
    if nan:
        y[1] = np.nan
    bs = [b] if pred == "mean" else [b, 0.25]
    guess = np.array([al] + bs + [ga, de])
    p = P("realizations" if pred == "realizations" else "mean")
    f = p.minimisation_dict[dist]
    got = f(guess, m, y, var, np.sqrt(np.pi))
    cov.step()
    w = [x * x for x in bs] if pred == "realizations" else bs
    want = []
    for i in range(3):
        if y[i] != y[i]:
            continue
        mu = al + sum(wk * mk for wk, mk in zip(w, np.atleast_1d(m[i])))
        want.append(crps_numeric(dist, mu, math.sqrt(ga * ga + de * de * var[i]), y[i]))
    expect_close(got, np.mean(want), "mean CRPS", rtol=1e-4, atol=1e-5)
    return dist


# ---------------------------------------------------------------- applying
NR = 3
RAW = [[[281.0, 282.5, 279.0], [283.0, 284.0, 285.5]], [[280.0, 282.5, 281.0], [284.0, 283.0, 286.0]], [[285.0, 281.5, 280.0], [283.5, 280.0, 285.75]]]


def forecast(form, th=None, frt=0, fp=4 * HOUR, n=NR):
    import numpy as np
    import cubes

    a = {"source": "IMPROVER", "title": "UK forecast", "institution": "Met Office", "mosg__model_configuration": "uk_ens"}
    kw = dict(attributes=a, time=cubes.T0 + frt + fp, frt=cubes.T0 + frt)
    d = np.array(RAW, np.float32)[:n]
    if form == "realizations":
        return cubes.grid(d, name="air_temperature", units="K", leading=[("realization", list(range(n)), "1")], **kw)
    if form == "percentiles":
        return cubes.grid(np.sort(d, axis=0), name="air_temperature", units="K", leading=[("percentile", [25, 50, 75], "%")], **kw)
    th = th or [279.0, 281.0, 283.0, 285.0]
    data = np.stack([np.clip((d.mean(0) + 3 - t) / 8, 0, 1) for t in th]).astype(np.float32)
    return cubes.prob(data, th, diag="air_temperature", tunits="K", spp="greater_than", **kw)


def history(n=2, sites=False, days=(1, 2, 3), pred_n=NR, hour=0, fp=4 * HOUR):
    """Historic forecasts [time, realization, y, x] with one forecast period."""
    import numpy as np
    import cubes
    from iris.cube import CubeList

    cl = CubeList()
    for k, d in enumerate(days):
        frt = cubes.T0 - d * 86400 + hour * HOUR
        data = (np.array(RAW, np.float32)[:pred_n] + 0.5 * d + 0.125 * np.arange(6).reshape(2, 3) * (-1) ** d).astype(np.float32)
        cl.append(cubes.grid(data, name="air_temperature", units="K", leading=[("realization", list(range(pred_n)), "1")], time=frt + fp, frt=frt,
                             attributes={"source": "IMPROVER", "title": "UK forecast", "institution": "Met Office"}))
    c = cl.merge_cube()
    c.transpose([c.coord_dims("realization")[0], c.coord_dims("time")[0], 2, 3])
    return c


def coefficients(pred, pbp, vals, dist="norm", extra=None, hour=0, fp=4 * HOUR):
    """vals: alpha, [betas], gamma, delta, each number or [y, x] array."""
    import numpy as np
    from iris.cube import CubeList
    from improver.calibration.ensemble_calibration import EstimateCoefficientsForEnsembleCalibration as E

    h = history(hour=hour, fp=fp)
    e = E(dist, point_by_point=pbp, predictor=pred, desired_units="K")
    fps = CubeList([h] + ([extra] if extra is not None else []))
    al, bs, ga, de = vals
    if pred == "realizations" or extra is not None:
        opt = np.array([al] + list(bs) + [ga, de], np.float32)
    else:
        opt = np.array([al, bs[0], ga, de], np.float32)
    return e.create_coefficients_cubelist(opt, h, fps)


def altitude():
    import numpy as np
    import cubes

    c = cubes.grid(np.array([[10, 20, 30], [40, 50, 65]], np.float32), name="surface_altitude", units="m", time=None)
    return c


def c_apply(tier):
    for pred in ("mean", "altitude", "realizations"):
        for pbp in (False, True):
            for dist in ("norm", "truncnorm"):
                for form in ("realizations", "percentiles", "probabilities"):
                    for out in ("same", "template", "percentiles"):
                        if (out == "template" and form == "probabilities") or (out == "percentiles" and form != "percentiles"):
                            continue
                        for mask in (None, 0, 1, 2) if out != "template" else (None,):
                            if out == "percentiles" and mask == 0:
                                continue
                            if tier == "quick" and dist == "truncnorm" and mask in (0, 1):
                                continue
                            for gd in range(3):
                                for cm in (0, 1):
                                    if cm and (gd or mask):
                                        continue
                                    yield (pred, pbp, dist, form, out, mask, gd, cm)


MASKS = [[[1, 1, 1], [1, 1, 1]], [[0, 0, 0], [0, 0, 0]], [[1, 0, 1], [0, 1, 1]]]


def apply(case, cov):
    import numpy as np
    import cubes
    from iris.cube import CubeList
    from iris.coords import CellMethod
    from scipy.stats import norm, truncnorm
    from improver.calibration.ensemble_calibration import ApplyEMOS
    from improver.ensemble_copula_coupling.ensemble_copula_coupling import ConvertProbabilitiesToPercentiles

    pred, pbp, dist, form, out, mask, gd, cm = case
    ga, de = [(0.5, 1.0), (0.0, 1.5), (1.25, 0.0)][gd]
    vary = np.arange(6).reshape(2, 3) * 0.125
    al = 1.0
    bs = {"mean": [0.98], "altitude": [0.97, 0.05], "realizations": [0.6, 0.5, 0.62]}[pred]
    if pbp:
        vals = (al + vary, [b + 0.01 * vary for b in bs], ga + vary, de + 2 * vary)
    else:
        vals = (al, bs, ga, de)
    alt = altitude() if pred == "altitude" else None
    coeffs = coefficients("realizations" if pred == "realizations" else "mean", pbp, vals, dist, extra=alt)
    al, bs, ga, de = [np.asarray(v, np.float64) for v in (vals[0], vals[1], vals[2], vals[3])]
    fc = forecast(form)
    if cm:
        fc.add_cell_method(CellMethod("mean", coords="time"))
        fc.add_cell_method(CellMethod("mean", coords="height"))
    # what the members are
    if form == "realizations":
        members = fc.data.astype(np.float64)
    elif form == "percentiles":
        members = fc.data.astype(np.float64)
    else:
        members = ConvertProbabilitiesToPercentiles()(fc.copy(), no_of_percentiles=NR).data.astype(np.float64)
    mean, var = members.mean(0), members.var(0, ddof=1)
    if pred == "realizations":
        mu = al + sum((bs[k] ** 2) * members[k] for k in range(NR))
    else:
        mu = al + bs[0] * mean + (bs[1] * alt.data if pred == "altitude" else 0)
    sd = np.sqrt(ga ** 2 + de ** 2 * var)
    lsm = None if mask is None else cubes.grid(np.array(MASKS[mask], np.int8), name="land_binary_mask", units="1", time=None)
    land = np.ones((2, 3), bool) if mask is None else np.array(MASKS[mask], bool)
    tmpl = None
    if out == "template":
        tmpl = forecast("probabilities", th=[278.0, 282.0, 284.5])
        if cm:
            tmpl.add_cell_method(CellMethod("mean", coords="time"))
            tmpl.add_cell_method(CellMethod("mean", coords="height"))
    perc = [10.0, 50.0, 60.0, 95.0] if out == "percentiles" else None
    if out == "percentiles" and mask is not None:
        perc = [20.0, 50.0, 75.0]  # as many as the forecast has
    kw = dict(additional_fields=CubeList([alt]) if alt is not None else None, land_sea_mask=lsm, prob_template=tmpl, realizations_count=NR, predictor="realizations" if pred == "realizations" else "mean",
              randomise=False, random_seed=0)
    plug = ApplyEMOS(percentiles=perc)
    if out == "percentiles" and mask is not None and not land.all():
        # the raw forecast has other percentiles: they cannot be merged
        expect(isinstance(raises(plug, fc, coeffs, **kw), ValueError), "percentiles that the sea points do not have")
        cov.step()
        return "refused"
    with cubes.Unchanged(fc, lsm, tmpl, alt, *coeffs):
        r = plug(fc, coeffs, **kw)
    cov.step()
    expect(r.data.dtype == np.float32, "type", got=r.data.dtype)
    expect(not np.ma.is_masked(r.data), "sea points hold the forecast, they are not masked")
    got = np.ma.getdata(r.data).astype(np.float64)

    def cdf(x):
        F = norm.cdf((x - mu) / sd)
        return F if dist == "norm" else np.clip((F - norm.cdf(-mu / sd)) / norm.cdf(mu / sd), 0, 1)

    def quant(q):
        return norm.ppf(q, mu, sd) if dist == "norm" else truncnorm.ppf(q, -mu / sd, np.inf, mu, sd)

    tol = dict(rtol=0, atol=2e-3)
    with np.errstate(all="ignore"):
        if tmpl is not None or form == "probabilities":
            t = tmpl if tmpl is not None else fc
            ths = t.coord(var_name="threshold").points
            for k, th in enumerate(ths):
                want = np.where(land, np.where(sd > 0, 1 - cdf(float(th)), (mu > th)), t.data[k])
                ok = (sd > 0) | ~land
                expect_close(got[k][ok], want[ok], "probability of exceeding %s" % th, rtol=0, atol=2e-3)
            cubes.expect_cube(r, cubes.describe(t), "metadata of the template", ignore=("data", "masked", "title"))
        elif form == "percentiles":
            ps = perc or [25, 50, 75]
            expect_close(r.coord("percentile").points, ps, "percentiles")
            for k, q in enumerate(ps):
                want = np.where(land, np.where(sd > 0, quant(q / 100), mu), fc.data[min(k, NR - 1)])
                expect_close(got[k], want, "percentile %s" % q, **tol)
            if not perc:
                cubes.expect_cube(r, cubes.describe(fc), "metadata of the forecast", ignore=("data", "masked", "title"))
        else:
            q = np.stack([np.where(sd > 0, quant((k + 1) / (NR + 1)), mu) for k in range(NR)])
            for i in np.ndindex(2, 3):
                v = got[(slice(None),) + i]
                if not land[i]:
                    expect_close(v, fc.data[(slice(None),) + i], "sea points keep the raw forecast")
                    continue
                expect_close(sorted(v), q[(slice(None),) + i], "quantiles at %s" % (i,), **tol)
                raw = fc.data[(slice(None),) + i]
                for a, b in itertools.permutations(range(NR), 2):
                    if raw[a] < raw[b]:
                        expect(v[a] <= v[b] + 1e-6, "rank order of the raw ensemble at %s" % (i,), expected=raw, got=v)
            cubes.expect_cube(r, cubes.describe(fc), "metadata of the forecast", ignore=("data", "masked", "title"))
    want_title = "Post-Processed UK forecast"
    expect(r.attributes["title"] == want_title, "title", expected=want_title, got=r.attributes.get("title"))
    return out + form


# ---------------------------------------------------------------- matching
def c_match(tier):
    for hour in (0, 6):
        for day in (0, 1):
            for fp in (2 * HOUR + 60, 3 * HOUR - 900, 3 * HOUR, 3 * HOUR + 60, 4 * HOUR):
                for cfp in (3 * HOUR - 900, 3 * HOUR, 4 * HOUR):
                    for tol in (False, True):
                        yield ("time", hour, day, fp, cfp, tol)
    for d in range(9):
        yield ("other", d, 0, 0, 0, False)


def match(case, cov):
    """Coefficients are only applied to forecasts of their diagnostic, cycle hour, forecast period and domain."""
    import numpy as np
    import cubes
    from iris.cube import CubeList
    from improver.calibration.ensemble_calibration import ApplyEMOS

    kind, a, b, fp, cfp, tol = case
    vals = (1.0, [0.98], 0.5, 1.0)
    cov.step()
    if kind == "time":
        co = coefficients("mean", False, vals, fp=cfp)
        fc = forecast("realizations", frt=a * HOUR + b * 86400, fp=fp)
        e = raises(ApplyEMOS(), fc, co, tolerate_time_mismatch=tol, realizations_count=3, random_seed=0)
        want = tol or (a == 0 and math.ceil(fp / HOUR) == math.ceil(cfp / HOUR))
        expect((e is None) == want, "a forecast with cycle hour %d, period %.2f h and coefficients for hour 0, period %.2f h" % (a, fp / HOUR, cfp / HOUR), expected=want, got=e)
        return str(want)
    co = coefficients("mean", False, vals)
    fc = forecast("realizations")
    kw = {}
    if a == 0:
        fc.rename("air_pressure")
    elif a == 1:  # shifted domain
        fc.coord(axis="x").points = fc.coord(axis="x").points + 2000
        fc.coord(axis="x").bounds = fc.coord(axis="x").bounds + 2000
    elif a == 2:
        fc = fc[..., :2]
    elif a == 3:
        co[1].attributes["distribution"] = "truncnorm"
    elif a == 4:
        for c in co:
            c.attributes.pop("distribution")
    elif a == 5:
        co = coefficients("mean", False, (1.0, [0.9, 0.05], 0.5, 1.0), extra=altitude())
    elif a == 6:
        kw = dict(additional_fields=CubeList([altitude()]))
    elif a == 7:
        fc = forecast("percentiles")
        kw = dict(realizations_count=None)
    elif a == 8:
        kw = dict(land_sea_mask=cubes.grid(np.ones((2, 3), np.int8), name="land_binary_mask", units="1", time=None), prob_template=forecast("probabilities"))
    e = raises(ApplyEMOS(), fc, co, **kw)
    expect(e is not None, "mismatch %d must be refused" % a)
    return "refused"


# ---------------------------------------------------------------- the command
def c_cli(tier):
    for what in ("none", "coeffs", "validity"):
        for form in ("realizations", "percentiles", "probabilities"):
            for tmpl in (False, True):
                if tmpl and form == "probabilities":
                    continue
                for perc in (False, True):
                    if perc and form != "percentiles":
                        continue
                    for comment in (None, "hello"):
                        for vt in (None, ["0400"], ["0300", "0400"], ["0500"], ["1600", "0401"]):
                            yield (what, form, tmpl, perc, comment, vt)


WARN = "Warning: Calibration of this forecast has been attempted, however, no calibration has been applied."


def command(case, cov):
    import numpy as np
    import cubes
    from iris.cube import CubeList
    from improver.cli.apply_emos_coefficients import process
    from improver.calibration.ensemble_calibration import ApplyEMOS
    from improver.ensemble_copula_coupling.ensemble_copula_coupling import ResamplePercentiles

    what, form, tmpl, perc, comment, vt = case
    fc = forecast(form)
    pt = forecast("probabilities", th=[278.0, 282.0, 284.5]) if tmpl else None
    for c in (fc, pt):
        if c is not None and comment:
            c.attributes["comment"] = comment
    co = coefficients("mean", False, (1.0, [0.98], 0.5, 1.0)) if what != "none" else None
    args = [CubeList([fc])] + ([CubeList(co)] if co else []) + ([CubeList([pt])] if pt is not None else [])
    plist = [30.0, 60.0] if perc else None
    ref_fc, ref_pt = fc.copy(), pt.copy() if pt is not None else None
    f = getattr(process, "__wrapped__", process)
    r = f(*args, validity_times=vt, realizations_count=3, percentiles=plist, random_seed=0)
    cov.step()
    calibrate = co is not None and (vt is None or "0400" in vt)
    if calibrate:
        want = ApplyEMOS(percentiles=plist)(ref_fc, co, prob_template=ref_pt, realizations_count=3, random_seed=0)
        cubes.expect_cube(r, want, "the calibrated forecast")
        return "calibrated"
    if perc and (pt is None or (vt is not None and "0400" not in vt)):
        want = ResamplePercentiles()(ref_fc, percentiles=plist)
    else:
        want = ref_pt if pt is not None else ref_fc
    want.attributes["comment"] = (comment + "\n" if comment else "") + WARN
    cubes.expect_cube(r, want, "without calibration the forecast is returned with a warning")
    return "uncalibrated"


# ---------------------------------------------------------------- estimation
def truth_for(h, days, shift=0.0, nan=None):
    import numpy as np
    import cubes
    from iris.cube import CubeList

    cl = CubeList()
    for d in days:
        t = cubes.T0 - d * 86400 + 4 * HOUR
        base = np.array(RAW, np.float32).mean(0) + 0.5 * d + [0.4, -0.3, 0.2, -0.6, 0.1, 0.5, -0.2][d] + np.array([[0.3, -0.5, 0.1], [0.6, -0.2, 0.25]]) * (1 if d % 2 else -1) + shift
        cl.append(cubes.grid(base.astype(np.float32), name="air_temperature", units="K", time=t, frt=t, attributes={"source": "IMPROVER", "truth": "y", "institution": "Met Office"}))
    return cl.merge_cube()


def c_est(tier):
    for pred in ("mean", "realizations", "altitude"):
        for dist in ("norm", "truncnorm"):
            for default in (True, False):
                for variant in ("plain", "extra_truth", "extra_hist", "shuffled", "masked", "pbp", "missing_point", "pbp_missing", "early", "first"):
                    if pred == "altitude" and variant.startswith("pbp"):
                        continue
                    yield (pred, dist, default, variant)


def model_score(dist, pred, vec, preds, var, y):
    """Mean score of a coefficient vector; preds [k, n]."""
    import numpy as np

    al, bs, ga, de = vec[0], np.array(vec[1:-2]), vec[-2], vec[-1]
    w = bs ** 2 if pred == "realizations" else bs
    mu = al + (w[:, None] * preds).sum(0)
    sd = np.sqrt(ga ** 2 + de ** 2 * var)
    return float(np.mean([crps_numeric(dist, m, s, t) for m, s, t in zip(mu, sd, y)]))


def estimate(case, cov):
    """The estimated coefficients score at least as well as the first guess on exactly the matched, unmasked pairs."""
    import numpy as np
    import cubes
    from iris.cube import CubeList
    from improver.calibration.ensemble_calibration import EstimateCoefficientsForEnsembleCalibration as E

    stub_statsmodels()
    pred, dist, default, variant = case
    hd, td = [1, 2, 3, 4], [1, 2, 3, 4]
    if variant == "extra_truth":
        td = [1, 2, 3, 4, 5, 6]
    elif variant == "extra_hist":
        hd = [1, 2, 3, 4, 5, 6]
    elif variant == "shuffled":
        hd, td = [3, 1, 4, 2], [2, 4, 1, 3]
    h = history(days=hd)
    t = truth_for(h, td)
    if variant == "shuffled":
        h = h[:, ::-1] if False else h
    lsm = None
    sel = np.ones((2, 3), bool)
    if variant == "masked":
        sel = np.array([[1, 0, 1], [1, 1, 0]], bool)
        lsm = cubes.grid(sel.astype(np.int8), name="land_binary_mask", units="1", time=None)
    pbp = variant.startswith("pbp")
    if variant.endswith("missing" if pbp else "missing_point"):
        d = t.data.copy()
        d[1, 0, 2] = np.nan
        if pbp:
            d[:, 1, 1] = np.nan
            d[3, 1, 2] = np.nan
        t.data = d
    e = E(dist, point_by_point=pbp, use_default_initial_guess=default, predictor="realizations" if pred == "realizations" else "mean", tolerance=1e6 if variant == "early" else 1e-2, max_iterations=60 if pbp else 1 if variant == "first" else 300)
    extra = CubeList([altitude()]) if pred == "altitude" else None
    given = [q for q in [h.copy(), t.copy(), lsm] + list(extra or []) if q is not None]
    before = [cubes.describe(q) for q in given]
    co = e(given[0], given[1], additional_fields=extra, landsea_mask=lsm)
    cov.step()
    for q, b in zip(given, before):
        cubes.expect_cube(q, b, "inputs unchanged by the estimation")
    names = [c.name() for c in co]
    expect(names == ["emos_coefficient_" + n for n in ("alpha", "beta", "gamma", "delta")], "coefficient names", got=names)
    # the model's data: pairs at matching times
    order = sorted(set(hd) & set(td))
    H = {int(x): k for k, x in enumerate(h.coord("time").points)}
    T = {int(x): k for k, x in enumerate(t.coord("time").points)}
    times = sorted(set(H) & set(T))
    expect(len(times) == len(order), "times", got=(len(times), len(order)))
    hdat = np.stack([h.data[:, H[x]] for x in times]).astype(np.float64)  # time, realization, y, x
    tdat = np.stack([t.data[T[x]] for x in times]).astype(np.float64)
    var = hdat.var(1, ddof=1)

    def data(mask):
        m = np.broadcast_to(mask, tdat.shape) & ~np.isnan(tdat)
        if pred == "realizations":
            p = np.stack([hdat[:, k][m] for k in range(NR)])
        else:
            p = hdat.mean(1)[m][None]
            if pred == "altitude":
                p = np.concatenate([p, np.broadcast_to(altitude().data, tdat.shape)[m][None]])
        return p, var[m], tdat[m]

    groups = [sel] if not pbp else [np.array([[(j, i) == (y, x) for i in range(3)] for j in range(2)]) for y in range(2) for x in range(3)]
    for k, g in enumerate(groups):
        p, v, y = data(g)
        n = len(p)
        if default or np.isnan(tdat[:, g] if pbp else tdat).any():
            g0 = [0.0] + [math.sqrt(1 / NR) if pred == "realizations" else 1.0 / n] * n + [0.0, 1.0]
        else:
            A = np.column_stack([np.ones(len(y)), p.T])
            s = np.linalg.lstsq(A, y, rcond=None)[0]
            g0 = list(s) + [0.0, 1.0]
        al, be, ga, de = [np.asarray(c.data, np.float64) for c in co]
        if pbp:
            j, i = divmod(k, 3)
            al, ga, de = al[j, i], ga[j, i], de[j, i]
            be = be[..., j, i]
        expect(al.ndim == 0, "one value per group", got=al.shape)
        vec = [float(al)] + [float(b) for b in np.atleast_1d(be)] + [float(ga), float(de)]
        expect(len(vec) == len(g0), "as many coefficients as predictors", expected=len(g0), got=vec)
        if not len(y):
            expect_close(vec, g0, "without any truth the first guess is kept", atol=1e-6)
            continue
        s0, s1 = model_score(dist, pred, g0, p, v, y), model_score(dist, pred, vec, p, v, y)
        # the coefficients are stored in single precision and the temperatures are near 280: allow for that
        expect(s1 <= s0 + 2e-3, "the score of the estimate against that of the first guess", expected=s0, got=(s1, vec))
        if default and pred == "mean" and variant not in ("early", "first"):
            expect(s1 < s0 - 1e-3, "the estimate improves on the first guess", expected=s0, got=s1)
    if variant in ("extra_truth", "extra_hist", "shuffled"):
        base = E(dist, use_default_initial_guess=default, predictor="realizations" if pred == "realizations" else "mean", tolerance=1e-2, max_iterations=300)(
            history(days=[1, 2, 3, 4]), truth_for(None, [1, 2, 3, 4]), additional_fields=extra, landsea_mask=None)
        for c, b in zip(co, base):
            cubes.expect_cube(c, b, "unmatched forecasts and truths and the order of the pairs do not matter")
    for c in co:
        a = c.attributes
        expect(a["distribution"] == dist and a["diagnostic_standard_name"] == "air_temperature" and ("shape_parameters" in a) == (dist == "truncnorm"), "attributes", got=a)
        expect(int(c.coord("forecast_period").points[0]) == 4 * HOUR and c.coord("forecast_reference_time").points[0] == max(x for x in times) - 4 * HOUR, "forecast period, latest reference time")
        expect(list(c.coord("forecast_reference_time").bounds[0]) == [min(times) - 4 * HOUR, max(times) - 4 * HOUR], "range of reference times")
        if not pbp:
            b = c.coord(axis="x").bounds[0]
            expect_close(b, [-1000, 5000], "the domain of the coefficients", atol=1e-3)
    return variant


# ---------------------------------------------------------------- helpers
def c_filter(tier):
    for hs in itertools.product((0, 1, 2), repeat=4):
        for ts in range(16):
            if tier == "quick" and 2 in hs[:2] and ts not in (7, 10, 14, 15):
                continue
            for b in (0, 1):
                yield (list(hs), ts, b)


def filtering(case, cov):
    """Pairs are formed at equal validity times (and bounds) from forecasts that are not wholly missing."""
    import numpy as np
    import cubes
    from iris.cube import CubeList
    from improver.calibration.utilities import filter_non_matching_cubes

    hs, ts, b = case
    # hs[k]: 0 no forecast at time k, 1 forecast, 2 all-NaN forecast; b: period diagnostics whose last truth has other bounds
    def mk(k, v, truth):
        t = cubes.T0 + k * 86400
        bd = None
        if b:
            w = 2 * HOUR if truth and k == 3 else HOUR
            bd = [t - w, t]
        d = np.full((2, 2), v, np.float32)
        if truth:
            return cubes.grid(d, name="air_temperature", units="K", time=t, frt=t, time_bounds=bd)
        return cubes.grid(np.stack([d, d + 1]), name="air_temperature", units="K", leading=[("realization", [0, 1], "1")], time=t, frt=t - 4 * HOUR, time_bounds=bd)

    H = CubeList([mk(k, np.nan if x == 2 else 10 + k, False) for k, x in enumerate(hs) if x])
    T = CubeList([mk(k, 20 + k, True) for k in range(4) if ts >> k & 1])
    want = [k for k in range(4) if hs[k] == 1 and ts >> k & 1 and not (b and k == 3)]
    cov.step()
    if not H or not T:
        return "empty"
    h, t = H.merge_cube(), T.merge_cube()
    if not want:
        expect(isinstance(raises(filter_non_matching_cubes, h, t), ValueError), "no match is refused")
        return "none"
    h2, t2 = filter_non_matching_cubes(h, t)
    for c, base in ((h2, 10), (t2, 20)):
        pts = [int(x - cubes.T0) // 86400 for x in c.coord("time").points]
        expect(pts == want, "the matched times", expected=want, got=pts)
        for k in want:
            import iris

            s = [x for x in c.slices_over("time") if x.coord("time").points[0] == cubes.T0 + k * 86400][0]
            expect(np.ma.getdata(s.data).min() == base + k, "values at time %d" % k, got=s.data)
    return len(want)


def c_frt(tier):
    for pts in itertools.product((0, 86400, 2 * 86400, 5 * 86400), repeat=3):
        if len(set(pts)) == 3 and list(pts) == sorted(pts):
            for b in range(4):
                yield (list(pts), b)


def unified(case, cov):
    import numpy as np
    import cubes
    from iris.coords import DimCoord
    from improver.calibration.utilities import create_unified_frt_coord

    pts, b = case
    P = np.array(pts, np.int64) + cubes.T0
    bd = None if b == 0 else np.stack([P - 3600 * (b - 1), P + 3600 * (b == 3)], axis=1)
    c = DimCoord(P, "forecast_reference_time", units=cubes.EPOCH, bounds=bd)
    r = create_unified_frt_coord(c)
    cov.step()
    lo, hi = (P.min(), P.max()) if bd is None else (bd.min(), bd.max())
    expect(list(r.points) == [P.max()] and [list(x) for x in r.bounds] == [[lo, hi]], "latest point, bounds over all", got=(r.points, r.bounds))
    expect(r.points.dtype == np.int64, "type")
    return "ok"


def c_split(tier):
    kinds = ["fc", "prob", "co", "mask", "alt"]
    for n in range(1, 5):
        for combo in itertools.product(kinds, repeat=n):
            for nm in (True, False):
                yield (list(combo), nm)


def splitting(case, cov):
    """The inputs of a command are told apart by what they are, in any order."""
    import numpy as np
    import cubes
    from iris.cube import CubeList
    from improver.calibration import split_forecasts_and_coeffs

    combo, nm = case
    z = np.zeros((2, 2), np.float32)
    mk = {
        "fc": lambda k: cubes.grid(z, name="air_temperature", units="K", attributes={"k": k}),
        "prob": lambda k: cubes.prob(z[None], [280.0], diag="air_temperature", tunits="K", attributes={"k": k}),
        "co": lambda k: cubes.grid(z, name="emos_coefficient_alpha", attributes={"k": k}),
        "mask": lambda k: cubes.grid(z, name="land_binary_mask", time=None, attributes={"k": k}),
        "alt": lambda k: cubes.grid(z, name="surface_altitude", units="m", time=None, attributes={"k": k}),
    }
    cs = [mk[x](k) for k, x in enumerate(combo)]
    pos = {x: [k for k, y in enumerate(combo) if y == x] for x in mk}
    call = lambda: split_forecasts_and_coeffs([CubeList([c]) for c in cs], "land_binary_mask" if nm else None)  # noqa
    cov.step()
    if len(pos["fc"]) > 1 or len(pos["prob"]) > 1 or not (pos["fc"] or pos["prob"]):
        expect(isinstance(raises(call), ValueError), "refused: several or no forecasts")
        return "refused"
    fc, co, add, lsm, tmpl = call()
    k = lambda c: None if c is None else c.attributes["k"]  # noqa
    ks = lambda cl: None if cl is None else [c.attributes["k"] for c in cl]  # noqa
    expect(k(fc) == (pos["fc"] or pos["prob"])[0], "the forecast", got=k(fc))
    expect(k(tmpl) == (pos["prob"][0] if pos["fc"] and pos["prob"] else None), "the template", got=k(tmpl))
    expect(ks(co) == (pos["co"] or None), "coefficients", got=ks(co))
    adds = sorted(pos["alt"] + ([] if nm else pos["mask"]))
    expect(ks(add) == (adds or None), "additional predictors", expected=adds, got=ks(add))
    expect(k(lsm) == (pos["mask"][-1] if nm and pos["mask"] else None), "land-sea mask", got=k(lsm))
    return "split"


def c_truthsplit(tier):
    kinds = ["f", "F", "t", "m"]
    for n in range(1, 6):
        for combo in itertools.product(kinds, repeat=n):
            if combo.count("f") + combo.count("F") <= 2 and combo.count("t") <= 2 and combo.count("m") <= 2:
                for p in (0, 1):
                    yield (list(combo), p)


def truthsplit(case, cov):
    import numpy as np
    import cubes
    from improver.calibration import split_forecasts_and_truth

    combo, p = case
    cs, nf, nt = [], 0, 0
    for x in combo:
        z = np.zeros((2, 2), np.float32)
        if x == "m":
            cs.append(cubes.grid(z, name="land_binary_mask", time=None))
            continue
        k = nt if x == "t" else nf
        if x == "t":
            nt += 1
        else:
            nf += 1
        a = {"t": {"src": "obs"}, "f": {"src": "model"}, "F": {}}[x]
        t = cubes.T0 + k * 86400
        if p:
            cs.append(cubes.prob(z[None] + 10 * (x == "t") + k, [280.0], diag="air_temperature", tunits="K", attributes=a, time=t, frt=t))
        else:
            cs.append(cubes.grid(z + 10 * (x == "t") + k, name="air_temperature", units="K", attributes=a, time=t, frt=t))
    nm = combo.count("m")
    call = lambda: split_forecasts_and_truth(cs, "src=obs")  # noqa
    cov.step()
    ndiag = nf + nt
    if nm == 2 and ndiag == 1 or not ndiag or not nf or not nt or nm == 2:
        # two masks: neither can be told apart from the diagnostic when there are as many, else too many
        if nm == 2 and nf and nt and ndiag > 2:
            expect(raises(call) is not None, "two masks are refused")
        elif nm != 2:
            expect(raises(call) is not None, "forecast and truth are both needed")
        return "refused"
    if combo.count("f") and combo.count("F"):
        e = raises(call)  # forecasts with different attributes merge or not; not decided here
        return "mixed"
    f, t, m = call()
    expect((m is not None) == (nm == 1) and (m is None or m.name() == "land_binary_mask"), "mask", got=m)
    for c, n, base in ((f, nf, 0), (t, nt, 10)):
        pts = [int(x - cubes.T0) // 86400 for x in c.coord("time").points]
        expect(pts == list(range(n)), "times", got=pts)
        v = sorted(set(np.asarray(c.data).ravel().tolist()))
        expect(v == [base + k for k in range(n)], "values", got=v)
    return "split"


def c_suff(tier):
    for bits in range(4 ** 4):
        for pbp in (False, True):
            for prop in (0.25, 0.5):
                yield (bits, pbp, prop)


def sufficiency(case, cov):
    """Site training data with too large a share of missing forecast and truth pairs are refused."""
    import numpy as np
    from iris.coords import AuxCoord, DimCoord
    from iris.cube import Cube
    from improver.calibration.utilities import check_data_sufficiency

    bits, pbp, prop = case
    # 2 times x 2 sites; per element bit 0: forecast missing, bit 1: truth missing
    v = np.array([(bits >> (2 * k)) & 3 for k in range(4)]).reshape(2, 2)
    f = np.where(v & 1, np.nan, 1.0).astype(np.float32)
    t = np.where(v & 2, np.nan, 1.0).astype(np.float32)

    def mk(d):
        c = Cube(d, long_name="air_temperature", units="K")
        c.add_dim_coord(DimCoord(np.arange(2, dtype=np.int64), long_name="time", units="1"), 0)
        c.add_dim_coord(DimCoord(np.arange(2, dtype=np.int32), long_name="spot_index", units="1"), 1)
        c.add_aux_coord(AuxCoord(["00001", "00002"], long_name="wmo_id", units="no_unit"), 1)
        return c

    hc = Cube(np.stack([f, f]), long_name="air_temperature", units="K")
    hc.add_dim_coord(DimCoord(np.arange(2, dtype=np.int32), "realization", units="1"), 0)
    for k, c in enumerate(mk(f).coords(dim_coords=True)):
        hc.add_dim_coord(c.copy(), k + 1)
    hc.add_aux_coord(AuxCoord(["00001", "00002"], long_name="wmo_id", units="no_unit"), 2)
    both = v == 3
    share = both.mean(axis=0) if pbp else np.array([both.mean()])
    e = raises(check_data_sufficiency, hc, mk(t), pbp, prop)
    cov.step()
    expect((e is not None) == bool((share > prop).any()), "share of missing pairs %s against %s" % (share, prop), got=e)
    return "refused" if e else "ok"


def tosites(cube, order=None, ids=None):
    """The points of a grid as six sites."""
    import numpy as np
    from iris.coords import AuxCoord, DimCoord
    from iris.cube import Cube

    order = list(order or range(6))
    c = Cube(np.ascontiguousarray(cube.data.reshape(cube.shape[:-2] + (6,))[..., order]), units=cube.units, attributes=cube.attributes)
    c.rename(cube.name())
    for k in range(cube.ndim - 2):
        c.add_dim_coord(cube.coord(dimensions=k, dim_coords=True).copy(), k)
    d = cube.ndim - 2
    for k in cube.aux_coords:
        if max(cube.coord_dims(k), default=-1) < d:
            c.add_aux_coord(k.copy(), cube.coord_dims(k))
    n = len(order)
    c.add_dim_coord(DimCoord(np.arange(n, dtype=np.int32), long_name="spot_index", units="1"), d)
    at = np.array(order)
    c.add_aux_coord(AuxCoord((5.0 + at).astype(np.float32), "altitude", units="m"), d)
    c.add_aux_coord(AuxCoord((50.0 + at).astype(np.float32), "latitude", units="degrees"), d)
    c.add_aux_coord(AuxCoord((1.0 * at).astype(np.float32), "longitude", units="degrees"), d)
    c.add_aux_coord(AuxCoord(ids or ["%05d" % k for k in order], long_name="wmo_id", units="no_unit"), d)
    return c


SITE_ORDERS = [tuple(range(6)), (1, 0, 2, 3, 4, 5), (0, 1, 2, 3, 4), (0, 1, 2, 3, 5, 4)]


def c_sites(tier):
    for n in (0, 1, 2):
        for o in itertools.product(range(len(SITE_ORDERS)), repeat=n):
            for form in ("realizations", "percentiles"):
                yield (o, form)


def sitefields(case, cov):
    """Additional predictors at sites are used only where every one of them is for the sites of the forecast, in that order."""
    import numpy as np
    import cubes
    from iris.cube import CubeList
    from improver.calibration.ensemble_calibration import ApplyEMOS
    from improver.calibration.ensemble_calibration import EstimateCoefficientsForEnsembleCalibration as E

    orders, form = case
    F = [altitude(), altitude()]
    F[1].rename("distance_to_water")
    F[1].data = F[1].data[::-1].copy()
    full = [tosites(f) for f in F][: len(orders)]
    h = tosites(history())
    bs = [0.97, 0.05, 0.03][: 1 + len(orders)]
    al, ga, de = 1.0, 0.5, 1.0
    co = E("norm", point_by_point=False, desired_units="K").create_coefficients_cubelist(np.array([al] + bs + [ga, de], np.float32), h, CubeList([h] + full))
    fc = tosites(forecast(form))
    extra = CubeList([tosites(f, SITE_ORDERS[o]) for f, o in zip(F, orders)])
    good = all(o == 0 for o in orders)
    kw = dict(additional_fields=extra if orders else None, realizations_count=NR, randomise=False, random_seed=0)
    if not good:
        e = raises(ApplyEMOS(), fc, co, **kw)
        cov.step()
        expect(isinstance(e, ValueError), "predictors for other sites must be refused: %s" % (orders,), got=e)
        return "refused"
    with cubes.Unchanged(fc, *(list(extra) + list(co))):
        r = ApplyEMOS()(fc, co, **kw)
    cov.step()
    m = fc.data.astype(np.float64)
    mu = al + bs[0] * m.mean(0) + sum(b * x.data for b, x in zip(bs[1:], extra))
    got = np.ma.getdata(r.data).astype(np.float64)
    expect_close(np.sort(got, axis=0)[1], mu, "the middle value of the calibrated distribution", rtol=0, atol=2e-3)
    cubes.expect_cube(r, cubes.describe(fc), "metadata of the forecast", ignore=("data", "masked", "title"))
    return "ok"


SECTIONS = [
    Section("score", c_crps, crps, "2 distributions x 3 predictor kinds x coefficient lattice, numerical integration"),
    Section("apply", c_apply, apply, "predictors x pointwise x distributions x forms x outputs x masks x coefficients"),
    Section("site_fields", c_sites, sitefields, "0-2 additional predictors x 4 lists of sites each"),
    Section("match", c_match, match, "cycle hour x day x forecast period lattice; 9 mismatches"),
    Section("command", c_cli, command, "coefficients or not x forms x template x percentiles x comment x validity times"),
    Section("estimate", c_est, estimate, "predictors x distributions x first guess x 7 data variants"),
    Section("filter", c_filter, filtering, "every pattern of present, missing and all-NaN forecasts and truths at 4 times x bounds"),
    Section("reference_time", c_frt, unified, "3 reference times x bounds"),
    Section("split_apply", c_split, splitting, "every sequence of up to 4 inputs of 5 kinds"),
    Section("split_truth", c_truthsplit, truthsplit, "every sequence of up to 5 inputs of 4 kinds"),
    Section("sufficiency", c_suff, sufficiency, "every missing pattern of 2x2 forecasts and truths"),
]

if __name__ == "__main__":
    main(globals())
