"""C19: percentiles and probabilities from the location and scale parameters of a distribution."""
import itertools
import math

from mc import Section, Violation, expect, expect_close, expect_same, main, raises

PROPERTY = "C19"
PY, PX = "projection_y_coordinate", "projection_x_coordinate"


def Phi(z):
    return 0.5 * math.erfc(-z / math.sqrt(2))


def cdf(dist, shape, mu, sd, x):
    z = (x - mu) / sd
    if dist == "norm":
        return Phi(z)
    if dist == "truncnorm":
        a, b = shape
        if x <= a:
            return 0.0
        if x >= b:
            return 1.0
        za = (a - mu) / sd if a > -math.inf else -math.inf
        zb = (b - mu) / sd if b < math.inf else math.inf
        # subtract in the tail where the numbers are small
        if za > 0:
            q = lambda t: 0.0 if t == math.inf else Phi(-t)  # noqa
            return (q(za) - q(z)) / (q(za) - q(zb))
        p = lambda t: 1.0 if t == math.inf else 0.0 if t == -math.inf else Phi(t)  # noqa
        return (p(z) - p(za)) / (p(zb) - p(za))
    if dist == "laplace":
        return 0.5 * math.exp(z) if z < 0 else 1 - 0.5 * math.exp(-z)
    if dist == "uniform":
        return min(1.0, max(0.0, z))
    raise AssertionError(dist)


DISTS = [("norm", None), ("truncnorm", (0.0, math.inf)), ("truncnorm", (-2.0, 6.0)), ("laplace", None), ("uniform", None)]
MUS = [-3.0, 0.0, 0.5, 4.0, 9.0, 280.0]
SDS = [0.25, 1.0, 3.0]
PERC = [None, [50.0], [10.0, 50.0, 90.0], [1.0, 99.0], [90.0, 30.0]]


def decided(dist, shape, mu, sd):
    """Single precision cannot resolve a range that lies wholly beyond 10 standard deviations."""
    return dist != "truncnorm" or ((shape[0] - mu) / sd < 10 and (shape[1] - mu) / sd > -10)


def plugin(kind, dist, shape):
    import numpy as np
    from improver.ensemble_copula_coupling import ensemble_copula_coupling as e

    cls = getattr(e, "ConvertLocationAndScaleParametersTo" + kind)
    return cls(distribution=dist, shape_parameters=None if shape is None else np.array(shape, np.float32))


def params(mask, mus, sds, units="K"):
    import numpy as np
    import cubes
    from iris.coords import CellMethod

    g = np.array(list(itertools.product(mus, sds)), np.float32)
    loc, sc = g[:, 0].reshape(len(mus), len(sds)), g[:, 1].reshape(len(mus), len(sds))
    ml, ms = np.zeros(loc.shape, bool), np.zeros(loc.shape, bool)
    if mask in (1, 3):
        ml[0, 0] = ml[-1, 1] = True
    if mask in (2, 3):
        ms[0, 1] = ms[-1, 1] = True
    lc = cubes.grid(np.ma.masked_array(loc, ml) if mask else loc, name="location_parameter", units=units)
    sk = cubes.grid(np.ma.masked_array(sc, ms) if mask else sc, name="scale_parameter", units=units)
    lc.cell_methods = (CellMethod("mean", coords="realization"),)
    return lc, sk, loc, sc, ml | ms


def c_percentiles(tier):
    for d in range(len(DISTS)):
        for p in range(len(PERC)):
            for mask in range(4):
                for template in ("realization", "percentile", "scalar", "last"):
                    for n in (1, 2, 3) if PERC[p] is None else (0,):
                        yield (d, p, mask, template, n)


def percentiles(case, cov):
    import numpy as np
    import cubes
    from iris.coords import CellMethod

    d, p, mask, template, n = case
    dist, shape = DISTS[d]
    mus = [m for m in MUS if dist != "truncnorm" or m < 100]
    plug = plugin("Percentiles", dist, shape)
    outs = PERC[p] or [100.0 * (i + 1) / (n + 1) for i in range(n)]
    for rep in (0, 1):  # the plugin is used twice: the first call must not influence the second
        ms = mus if rep == 0 else [m + 0.75 for m in reversed(mus)]
        lc, sk, loc, sc, m = params(mask, ms, SDS)
        lead = [("percentile", [30, 60], "%")] if template == "percentile" else [("realization", [0, 1], "1")]
        t = cubes.grid(np.zeros((2,) + loc.shape, np.float32), name="air_temperature", units="K", leading=lead, attributes={"keep": "x"})
        t.cell_methods = (CellMethod("mean", coords="realization"),)
        if template == "scalar":
            t = t[0]
            t.remove_coord("realization")
            from iris.coords import AuxCoord

            t.add_aux_coord(AuxCoord(np.float32(50), long_name="percentile", units="%"))
            t.remove_coord("percentile")
            t.add_aux_coord(AuxCoord(np.int32(0), "realization", units="1"))
        elif template == "last":
            t = cubes.transposed(t, [PY, PX, "realization"])
        kw = {"percentiles": list(outs)} if PERC[p] else {"no_of_percentiles": n}
        with cubes.Unchanged(lc, sk, t):
            r = plug(lc, sk, t, **kw)
        cov.step()
        got = cubes.arr(r, "percentile", PY, PX) if len(outs) > 1 else cubes.arr(r, PY, PX)[None] if not r.coords("percentile", dim_coords=True) else cubes.arr(r, "percentile", PY, PX)
        pc = r.coord("percentile")
        expect_close(pc.points, sorted(outs), "percentiles", rtol=1e-6)
        expect_same(np.ma.getmaskarray(got), np.broadcast_to(m, got.shape), "points masked in either parameter are masked")
        expect(got.dtype == np.float32, "type", got=got.dtype)
        for k, q in enumerate(pc.points):
            for idx in np.ndindex(*loc.shape):
                if m[idx] or not decided(dist, shape, float(loc[idx]), float(sc[idx])):
                    continue
                x, mu, sd, f = float(np.ma.getdata(got)[(k,) + idx]), float(loc[idx]), float(sc[idx]), float(q) / 100
                e = 2e-4 * sd + 3e-6 * max(abs(mu), abs(x)) + 1e-6
                lo, hi = cdf(dist, shape, mu, sd, x - e), cdf(dist, shape, mu, sd, x + e)
                expect(lo - 2e-6 <= f <= hi + 2e-6, "the value at percentile %s of %s(%s, %s)" % (q, dist, mu, sd), expected=f, got=(x, lo, hi))
        expect(r.name() == "air_temperature" and str(r.units) == "K" and r.attributes == {"keep": "x"} and not r.cell_methods, "metadata of the template without the ensemble mean")
        expect(template == "scalar" or not r.coords("realization"), "no realization coordinate", got=[c.name() for c in r.coords()])
    return dist


def c_zero(tier):
    for d in range(len(DISTS)):
        for zeros in range(16):
            yield (d, zeros)


def zero(case, cov):
    """A scale of zero gives the location parameter at every percentile."""
    import numpy as np
    import cubes

    d, z = case
    dist, shape = DISTS[d]
    loc = np.array([[1.0, 2.0], [3.0, 4.0]], np.float32)
    sc = np.where(np.array([(z >> k) & 1 for k in range(4)], bool).reshape(2, 2), 0, 0.5).astype(np.float32)
    lc, sk = cubes.grid(loc, name="location_parameter", units="K"), cubes.grid(sc, name="scale_parameter", units="K")
    t = cubes.grid(np.zeros((2, 2, 2), np.float32), name="air_temperature", units="K", leading=[("realization", [0, 1], "1")])
    if z and dist == "truncnorm":
        # rescaled bounds divide by zero; scipy answers NaN, which is replaced by the location parameter
        pass
    r = plugin("Percentiles", dist, shape)(lc, sk, t, percentiles=[20.0, 70.0])
    cov.step()
    g = np.ma.getdata(r.data)
    expect_same(g[0][sc == 0], loc[sc == 0], "location where the scale is zero")
    expect_same(g[1][sc == 0], loc[sc == 0], "location where the scale is zero")
    expect(np.all(g[0][sc > 0] < g[1][sc > 0]) and not np.isnan(g).any(), "increasing elsewhere")
    return dist


THR = [[0.5], [-1.0, 0.0, 2.0, 7.0], [3.0, 280.0], [-50.0, 500.0]]


def c_probabilities(tier):
    for d in range(len(DISTS)):
        for t in range(len(THR)):
            for spp in ("greater_than", "less_than", "greater_than_or_equal_to", "less_than_or_equal_to"):
                for mask in range(4):
                    for units in ("K", "mm", "celsius") if DISTS[d][0] != "truncnorm" else ("K",):
                        yield (d, t, spp, mask, units)


def probabilities(case, cov):
    import numpy as np
    import cubes

    d, t, spp, mask, units = case
    dist, shape = DISTS[d]
    mus = [m for m in MUS if dist != "truncnorm" or m < 100]
    plug = plugin("Probabilities", dist, shape)
    th = [float(np.float32(x)) for x in THR[t]]
    for rep in (0, 1):
        ms = mus if rep == 0 else [m + 0.75 for m in reversed(mus)]
        f = 1000.0 if units == "mm" else 1.0
        lc, sk, loc, sc, m = params(mask, ms, SDS, units={"mm": "m"}.get(units, units))
        name, u = ("lwe_thickness", "mm") if units == "mm" else ("air_temperature", "K")
        # a scale is a difference: the offset between celsius and kelvin does not apply to it
        ths = [x * f + (273.15 if units == "celsius" else 0) for x in th]
        data = np.full((len(th),) + loc.shape, 0.5, np.float32)
        tc = cubes.prob(data, ths, diag=name, tunits=u, spp=spp, attributes={"keep": "x"})
        ref = tc.copy()
        r = plug(lc, sk, tc)
        cov.step()
        g = cubes.describe(r)
        expect_same(np.ma.getmaskarray(r.data), np.broadcast_to(m, r.shape), "points masked in either parameter are masked")
        expect(r.data.dtype == np.float32, "type")
        for k, x in enumerate(th):
            for idx in np.ndindex(*loc.shape):
                if m[idx] or not decided(dist, shape, float(loc[idx]), float(sc[idx])):
                    continue
                F = cdf(dist, shape, float(loc[idx]), float(sc[idx]), x)
                want = 1 - F if "greater" in spp else F
                got = float(np.ma.getdata(r.data)[(k,) + idx])
                expect(abs(got - want) < (3e-4 if units == "celsius" else 2e-5), "probability %s %s of %s(%s, %s)" % (spp, x, dist, loc[idx], sc[idx]), expected=want, got=got)
                expect(-1e-7 <= got <= 1 + 1e-7, "a probability", got=got)
        cubes.expect_cube(g, cubes.describe(ref), "metadata of the template", ignore=("data", "masked"))
    return dist


def c_refuse(tier):
    for i in range(7):
        yield i


def refuse(case, cov):
    import numpy as np
    import cubes
    from improver.ensemble_copula_coupling.ensemble_copula_coupling import ConvertLocationAndScaleParametersToPercentiles as A, ConvertLocationAndScaleParametersToProbabilities as B

    lc, sk, loc, sc, m = params(0, MUS, SDS)
    t = cubes.grid(np.zeros((2,) + loc.shape, np.float32), name="air_temperature", units="K", leading=[("realization", [0, 1], "1")])
    pt = cubes.prob(np.zeros((2,) + loc.shape, np.float32), [1.0, 2.0], diag="air_temperature", tunits="K")
    calls = [
        lambda: A(distribution="nonsense"), lambda: A(distribution="truncnorm"), lambda: B(distribution="truncnorm"),
        lambda: A()(lc, sk, t, no_of_percentiles=2, percentiles=[10.0]),
        lambda: B()(lc, sk, cubes.prob(np.zeros((2,) + loc.shape, np.float32), [1.0, 2.0], diag="wind_speed", tunits="m s-1")),
        lambda: B()(lc, sk, t),
        lambda: B()(lc, sk, cubes.prob(np.zeros((2, 2, 2) + loc.shape, np.float32), [1.0, 2.0], diag="air_temperature", tunits="K", before=[("realization", [0, 1], "1"), ("height", [1, 2], "m")])),
    ]
    cov.step()
    expect(raises(calls[case]) is not None, "call %d must be refused" % case)
    return "refused"


def c_set(tier):
    for n in range(1, 60 if tier == "quick" else 300):
        yield n


def chosen(case, cov):
    """choose_set_of_percentiles: equal blocks of probability; bounds in the units asked for."""
    import numpy as np
    from improver.ensemble_copula_coupling.utilities import choose_set_of_percentiles, get_bounds_of_distribution

    n = case
    p = choose_set_of_percentiles(n)
    expect_close(p, [100 * (i + 1) / (n + 1) for i in range(n)], "quantiles")
    r = choose_set_of_percentiles(n, sampling="random")
    cov.step(2)
    expect(len(r) == n and list(r) == sorted(r) and all(100 / (n + 1) - 1e-9 <= x <= 100 * n / (n + 1) + 1e-9 for x in r), "random percentiles are sorted and within the quantiles", got=r)
    expect(isinstance(raises(choose_set_of_percentiles, n, sampling="other"), ValueError), "unknown sampling")
    if n == 1:
        for key, units, want in [("air_temperature", "celsius", (-100, 60)), ("air_temperature", "K", (173.15, 333.15)), ("lwe_precipitation_rate", "m s-1", (0, 400 / 3.6e6)),
                                 ("wind_speed", "km h-1", (0, 180)), ("visibility_in_air", "km", (0, 100)), ("relative_humidity", "%", (0, 120)),
                                 ("air_pressure_at_sea_level", "hPa", (796, 1080)), ("cloud_area_fraction", "1", (0, 1))]:
            expect_close(get_bounds_of_distribution(key, units), want, "bounds of %s in %s" % (key, units), rtol=1e-5)
        expect(isinstance(raises(get_bounds_of_distribution, "nonsense", "1"), KeyError), "unknown diagnostic")
    return "ok"


SECTIONS = [
    Section("percentiles", c_percentiles, percentiles, "5 distributions x 6x3 parameters x percentile sets x masks x templates, plugin reused"),
    Section("zero", c_zero, zero, "every pattern of zero scales on 2x2"),
    Section("probabilities", c_probabilities, probabilities, "5 distributions x 6x3 parameters x threshold sets x relations x masks x units, plugin reused"),
    Section("refusals", c_refuse, refuse),
    Section("sets", c_set, chosen, "1-59 (299) percentiles"),
]

if __name__ == "__main__":
    main(globals())
