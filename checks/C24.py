"""C24: probabilities between thresholds, inversion, names, expected values and percentiles over coordinates."""
import itertools
import math

from mc import Section, Violation, expect, expect_close, expect_same, main, raises

PROPERTY = "C24"
ATT = {"source": "IMPROVER", "title": "UK forecast", "institution": "Met Office"}
REL = {"greater_than": "less_than_or_equal_to", "greater_than_or_equal_to": "less_than", "less_than": "greater_than_or_equal_to", "less_than_or_equal_to": "greater_than"}


def pdata(n, lead, above, mask, coarse=False):
    """Monotone probabilities [lead..., threshold, 3, 4] in multiples of 1/16 and a mask of the points."""
    import numpy as np

    nl = max(lead, 1)
    d = np.zeros((nl, n, 3, 4), np.float32)
    for k, y, x in itertools.product(range(nl), range(3), range(4)):
        inc = [(k * 3 + y * 5 + x * 7 + i * i) % 4 for i in range(n)]
        s = 0
        for i in range(n):
            s = min(16, s + inc[i])
            d[k, i, y, x] = s / 16
    if above:
        d = 1 - d
    m = np.zeros(d.shape, bool)
    if mask:
        m[:, :, 0, 1] = m[:, :, 2, 3] = True
        m[0, :, 1, 1] = True
        d[m] = 7.0
    if not lead:
        d, m = d[0], m[0]
    return d, m


def mk(n, lead, spp, mask, ths, tunits="K", diag="air_temperature"):
    import cubes
    import numpy as np

    d, m = pdata(n, lead, "greater" in spp, mask)
    data = np.ma.masked_array(d, m) if mask else d
    before = [("realization", list(range(lead)), "1")] if lead else []
    return cubes.prob(data, ths, diag=diag, tunits=tunits, spp=spp, before=before, attributes=ATT), d, m


# ------------------------------------------------------------ between
def c_between(tier):
    ths = [279.0, 280.0, 280.5, 283.0]
    pairs = list(itertools.combinations(range(4), 2))
    for spp in REL:
        for lead in (0, 2):
            for mask in (0, 1):
                for tu in ("K", "celsius"):
                    for p in pairs:
                        yield (spp, lead, mask, tu, [p])
                    for ps in itertools.permutations(pairs, 2):
                        if ps[0][1] != ps[1][1]:
                            yield (spp, lead, mask, tu, list(ps))
    for ps in itertools.permutations(pairs, 3):
        if len({p[1] for p in ps}) == 3:
            yield ("greater_than", 0, 0, "K", list(ps))
    for spp in ("greater_than", "less_than_or_equal_to"):
        for tu in [k for k in UNITS if k not in ("K", "celsius")]:
            for lead in (0, 2):
                for p in pairs:
                    yield (spp, lead, 1, tu, [p])
                for ps in itertools.permutations(pairs, 2):
                    if ps[0][1] != ps[1][1]:
                        yield (spp, lead, 0, tu, list(ps))


# requested units: (thresholds, units and name of the cube, function to the requested units)
UNITS = {
    "K": ([279.0, 280.0, 280.5, 283.0], "K", "air_temperature", lambda x: x),
    "celsius": ([279.0, 280.0, 280.5, 283.0], "K", "air_temperature", lambda x: x - 273.15),
    "m": ([0.0, 0.0001, 0.0005, 0.02], "m", "lwe_thickness_of_precipitation_amount", lambda x: x),
    "mm": ([0.0001, 0.00015, 0.0005, 0.02], "m", "lwe_thickness_of_precipitation_amount", lambda x: x * 1000),
    "km": ([50.0, 51.0, 1000.0, 5000.0], "m", "visibility_in_air", lambda x: x / 1000),
    "1": ([0.1, 0.3125, 0.8125, 0.8135], "1", "cloud_area_fraction", lambda x: x),
    "%": ([0.1, 0.3125, 0.8125, 1.0], "1", "cloud_area_fraction", lambda x: x * 100),
    "mm h-1": ([0.0, 2.7777777e-8, 2.7777777e-7, 1.1111111e-6], "m s-1", "rainfall_rate", lambda x: x * 3.6e6),
}


def between(case, cov):
    """The difference of the probabilities at the two ends, labelled with them."""
    import cubes
    import numpy as np
    from improver.between_thresholds import OccurrenceBetweenThresholds as P

    spp, lead, mask, tu, ps = case
    ths, cu, dg, conv = UNITS[tu]
    c, d, m = mk(4, lead, spp, mask, ths, cu, dg)
    rngs = [[conv(ths[a]), conv(ths[b])] for a, b in ps]
    plug = P([list(r) for r in rngs], tu)
    with cubes.Unchanged(c):
        r = plug.process(c)
    cov.step()
    order = sorted(ps, key=lambda p: p[1])
    sgn = 1 if "greater" in spp else -1
    ax = 1 if lead else 0
    w = np.stack([sgn * (np.take(d, a, ax) - np.take(d, b, ax)) for a, b in order], axis=0)
    wm = np.stack([np.take(m, a, ax) for a, b in order], axis=0)
    if len(order) == 1:
        w, wm = w[0], wm[0]
        names = (["realization"] if lead else [])
    else:
        names = [dg] + (["realization"] if lead else [])
    names += ["projection_y_coordinate", "projection_x_coordinate"]
    t = r.coord(dg)
    if len(order) > 1:  # the slices may come in any order, as labelled
        tol = 1e-5 * max(ths)
        near = lambda bd, a, b: abs(bd[0] - ths[a]) < tol and abs(bd[1] - ths[b]) < tol
        place = [[i for i, bd in enumerate(t.bounds) if near(bd, a, b)] for a, b in order]
        expect(all(len(q) == 1 for q in place), "each range is there once", got=t.bounds.tolist())
        place = [q[0] for q in place]
        ax0 = r.coord_dims(t)[0]
        got = np.moveaxis(r.data, ax0, 0)[place]
        names2 = [c.name() for c in r.coords(dim_coords=True) if c.name() in names[1:]]
        expect(names2 == names[1:], "dimensions", got=names2)
    else:
        place = [0]
        got = cubes.arr(r, *names)
    gm = np.ma.getmaskarray(got)
    expect_same(gm, wm, "mask")
    expect_close(np.ma.getdata(got)[~wm], w[~wm], "probabilities between", atol=1e-6)
    expect(str(t.units) == cu and t.attributes == {"spp__relative_to_threshold": "between_thresholds"}, "threshold coordinate", got=(str(t.units), t.attributes))
    expect_close(t.bounds[place], [[ths[a], ths[b]] for a, b in order], "the ends", rtol=1e-6, atol=1e-6 * max(ths))
    expect(r.name() == "probability_of_%s_between_thresholds" % dg and str(r.units) == "1" and r.dtype == np.float32, "name", got=r.name())
    r2 = plug.process(c)
    cubes.expect_cube(r2, cubes.describe(r), "the plugin gives the same result again")
    return spp


def c_brefuse(tier):
    for k in range(6):
        yield (k,)


def brefuse(case, cov):
    import cubes
    import numpy as np
    from improver.between_thresholds import OccurrenceBetweenThresholds as P

    (k,) = case
    c, d, m = mk(4, 0, "greater_than", 0, [279.0, 280.0, 280.5, 283.0])
    f = [
        lambda: P([[279.0, 281.0]], "K").process(c),
        lambda: P([[279.0, 280.0], [278.0, 283.0]], "K").process(c),
        lambda: P([[279.0, 279.0]], "K"),
        lambda: P([[279.0, 280.0]], "celsius").process(c),
        lambda: P([[279.0, 280.0]], "K").process(cubes.grid(d[0], name="air_temperature", units="K")),
        lambda: P([[279.0, 280.0]], "K").process(P([[279.0, 280.0], [280.0, 283.0]], "K").process(c)),
    ][k]
    e = raises(f)
    cov.step()
    expect(isinstance(e, ValueError), "must be refused (%d)" % k, got=e)
    return "refused"


# ------------------------------------------------------------ inversion
def c_invert(tier):
    for diag in ("air_temperature", "height_above_sea_level", "depth_below_ground", "rate_in_vicinity"):
        for spp in REL:
            for above in (True, False, None):
                for mask in (0, 1):
                    for lead in (0, 2):
                        yield (diag, spp, above, mask, lead)


def invert(case, cov):
    """Inverting gives one minus the probabilities of the opposite comparison; asking for the present direction changes nothing."""
    import cubes
    import numpy as np
    from improver.utilities.probability_manipulation import invert_probabilities, to_threshold_inequality

    diag, spp, above, mask, lead = case
    base = diag.replace("_in_vicinity", "")
    c, d, m = mk(3, lead, spp, mask, [279.0, 280.0, 281.0], diag=base)
    name = "probability_of_%s_%s_threshold"
    is_above = "greater" in spp
    c.rename(name % (diag, "above" if is_above else "below"))
    with cubes.Unchanged(c):
        r = invert_probabilities(c) if above is None else to_threshold_inequality(c, above=above)
    cov.step()
    flip = above is None or above != is_above
    if not flip:
        cubes.expect_cube(r, cubes.describe(c), "nothing to do")
        return "same"
    gm = np.ma.getmaskarray(r.data)
    expect_same(gm, m if mask else np.zeros(d.shape, bool), "mask")
    expect_same(np.ma.getdata(r.data)[~gm], (1 - d)[~gm], "one minus the probability")
    expect(r.coord(base).attributes["spp__relative_to_threshold"] == REL[spp], "the opposite comparison", expected=REL[spp], got=r.coord(base).attributes)
    expect(r.name() == name % (diag, "below" if is_above else "above"), "name", got=r.name())
    ref = cubes.describe(c)
    cubes.expect_cube(r, ref, "metadata", ignore=("data", "long_name", "attributes.spp__relative_to_threshold", "spp__relative_to_threshold"))
    twice = invert_probabilities(invert_probabilities(c))
    cubes.expect_cube(twice, cubes.describe(c), "inverting twice", ignore=("data",))
    return "inverted"


# ------------------------------------------------------------ names
def c_names(tier):
    diags = ["air_temperature", "lwe_precipitation_rate_max", "cloud_area_fraction_assuming_only_consider_surface_to_1000_feet", "rainfall_rate_from_convection", "x"]
    for dg in diags:
        for vic in ("", "_in_vicinity", "_in_variable_vicinity"):
            for th in ("_above_threshold", "_below_threshold", "_between_thresholds", ""):
                yield (dg, vic, th)


def names(case, cov):
    """The diagnostic's and the threshold coordinate's name in a probability name."""
    from improver.metadata import probabilistic as p

    dg, vic, th = case
    n = "probability_of_" + dg + vic + th
    cov.step()
    expect(p.get_threshold_coord_name_from_probability_name(n) == dg, "threshold name of " + n, got=p.get_threshold_coord_name_from_probability_name(n))
    expect(p.get_diagnostic_cube_name_from_probability_name(n) == dg + vic, "diagnostic name of " + n, got=p.get_diagnostic_cube_name_from_probability_name(n))
    expect(p.in_vicinity_name_format(n) == "probability_of_" + dg + "_in_vicinity" + th, "vicinity name of " + n, got=p.in_vicinity_name_format(n))
    for bad in (dg + vic + th, "probability" + dg + vic + th):
        expect(isinstance(raises(p.get_threshold_coord_name_from_probability_name, bad), ValueError), "not a probability name: " + bad)
        expect(isinstance(raises(p.get_diagnostic_cube_name_from_probability_name, bad), ValueError), "not a probability name: " + bad)
    return th


def c_kinds(tier):
    for k in ("prob", "oldprob", "percentile", "percentile_over_x", "two percentiles", "plain", "realization"):
        for spp in list(REL) + ["above", "below", "between_thresholds", None]:
            if "prob" in k or spp == "above":
                yield (k, spp)


def kinds(case, cov):
    """What kind of cube it is, and its coordinates."""
    import cubes
    import numpy as np
    from iris.coords import AuxCoord
    from iris.exceptions import CoordinateNotFoundError
    from improver.metadata import probabilistic as p

    k, spp = case
    d = np.zeros((2, 2, 3), np.float32)
    if "prob" in k:
        c = cubes.prob(d, [1.0, 2.0], diag="threshold" if k == "oldprob" else "air_temperature", tunits="K", spp="greater_than")
        t = c.coord(var_name="threshold")
        t.attributes = {} if spp is None else {"spp__relative_to_threshold": spp}
        if k == "oldprob":
            t.var_name = None
    elif "percentile" in k:
        c = cubes.grid(d, name="air_temperature", units="K", leading=[("percentile" if "over" not in k else "percentile_over_realization", [20.0, 40.0], "%")])
        if k.startswith("two"):
            c.add_aux_coord(AuxCoord(np.float32(50), long_name="percentile_over_neighbourhood", units="%"))
    elif k == "realization":
        c = cubes.grid(d, name="air_temperature", units="K", leading=[("realization", [0, 1], "1")])
    else:
        c = cubes.grid(d[0], name="air_temperature", units="K")
    cov.step()
    isp = "prob" in k
    expect(p.is_probability(c) == isp, "is_probability", got=p.is_probability(c))
    if isp:
        expect(p.find_threshold_coordinate(c) is c.coord("threshold" if k == "oldprob" else "air_temperature"), "threshold coordinate")
        w = None if spp in (None, "between_thresholds") else "above" if spp in ("above", "greater_than", "greater_than_or_equal_to") else "below"
        expect(p.probability_is_above_or_below(c) == w, "direction", expected=w, got=p.probability_is_above_or_below(c))
    else:
        expect(isinstance(raises(p.find_threshold_coordinate, c), CoordinateNotFoundError), "no threshold coordinate")
    one = k in ("percentile", "percentile_over_x")
    expect(p.is_percentile(c) == one, "is_percentile", got=p.is_percentile(c))
    if one:
        expect("percentile" in p.find_percentile_coordinate(c).name(), "percentile coordinate")
    else:
        expect(isinstance(raises(p.find_percentile_coordinate, c), ValueError if k.startswith("two") else CoordinateNotFoundError), "no single percentile coordinate")
    expect(isinstance(raises(p.find_threshold_coordinate, d), TypeError) and isinstance(raises(p.find_percentile_coordinate, d), TypeError), "not a cube")
    return k


# ------------------------------------------------------------ expected value
def c_ev(tier):
    for spp in REL:
        for lead in (0, 2):
            for trans in (0, 1):
                yield (spp, [279.0, 280.0, 280.5, 283.0], lead, 2, trans)
        for ths in ([279.0, 280.0, 280.5, 283.0], [0.0, 1.0], [-2.0, 0.0, 5.0], [1e-7, 1e-6, 1e-5]):
            for lead in (0, 2):
                for mask in (0, 1):
                    for trans in (0, 1):
                        yield (spp, ths, lead, mask, trans)


def ev(case, cov):
    """The integral over the thresholds of the midpoints weighted by the probability between them; masked points stay masked."""
    import cubes
    import numpy as np
    from improver.expected_value import ExpectedValue as P

    spp, ths, lead, mask, trans = case
    n = len(ths)
    c, d, m = mk(n, lead, spp, mask, ths)
    if mask == 2:  # missing at some of the thresholds only
        m = m.copy()
        for i in range(n):
            m[..., i, 2, i] = True
        c.data = np.ma.masked_array(d, m)
    names = (["realization"] if lead else []) + ["projection_y_coordinate", "projection_x_coordinate"]
    if trans:
        c = cubes.transposed(c, names + ["air_temperature"])
    with cubes.Unchanged(c):
        r = P().process(c)
    cov.step()
    ax = 1 if lead else 0
    cdf = np.moveaxis(1 - d if "greater" in spp else d, ax, 0).astype(float)
    t = [float(np.float32(x)) for x in ths]
    w = cdf[0] * t[0] + (1 - cdf[-1]) * t[-1]
    for i in range(n - 1):
        w = w + (cdf[i + 1] - cdf[i]) * (t[i] + t[i + 1]) / 2
    got = cubes.arr(r, *names)
    wm = m.any(axis=ax)
    expect_same(np.ma.getmaskarray(got), wm if mask else np.zeros(w.shape, bool), "mask")
    expect_close(np.ma.getdata(got)[~wm], w[~wm], "expected value", rtol=1e-5, atol=1e-5 * max(map(abs, t)))
    expect(r.name() == "air_temperature" and str(r.units) == "K" and r.dtype == np.float32 and not r.coords(var_name="threshold"), "name, units, type")
    expect(("mean", ("realization",)) in [(x.method, x.coord_names) for x in r.cell_methods], "cell method", got=r.cell_methods)
    return spp


def c_ev2(tier):
    for form in ("realization", "percentile", "bad percentile", "decreasing", "not monotone"):
        for n in (1, 2, 3, 4):
            for mask in (0, 1, 2):
                for trans in (0, 1):
                    yield (form, n, mask, trans)


def ev2(case, cov):
    """The mean over the members that are present."""
    import cubes
    import numpy as np
    from improver.expected_value import ExpectedValue as P

    form, n, mask, trans = case
    d = np.array([[[280 + ((k * 5 + y * 7 + x * 3 + k * x) % 13) / 4 for x in range(4)] for y in range(3)] for k in range(n)], np.float32)
    m = np.zeros(d.shape, bool)
    if mask:
        m[:, 0, 1] = True
    if mask == 2:
        m[0, 1, 1] = m[n - 1, 2, 2] = True
    data = np.ma.masked_array(d, m) if mask else d
    if form in ("decreasing", "not monotone"):
        if n < 2 or mask:
            return "skip"
        p = np.zeros((n, 3, 4), np.float32) + np.linspace(0.2, 0.9, n, dtype=np.float32)[:, None, None]
        ths = [280.0 + k for k in range(n)]
        if form == "decreasing":
            ths, p = ths[::-1], p[::-1]
        else:
            p[1, 1, 2] = 0.1
        c = cubes.prob(p, ths, diag="air_temperature", tunits="K", spp="less_than")
        e = raises(P().process, c)
        cov.step()
        expect(isinstance(e, ValueError), "must be refused", got=e)
        return "refused"
    if form == "realization":
        lead = [("realization", list(range(n)), "1")]
    else:
        pc = [100.0 * (k + 1) / (n + 1) for k in range(n)]
        if form == "bad percentile":
            pc = [10.0 + 7 * k * k for k in range(n)]
        lead = [("percentile", pc, "%")]
    c = cubes.grid(data, name="air_temperature", units="K", leading=lead, attributes=ATT)
    if trans:
        c = cubes.transposed(c, ["projection_y_coordinate", "projection_x_coordinate", lead[0][0]])
    cms = []
    if n % 2 == 0:
        from iris.coords import CellMethod

        c.add_cell_method(CellMethod("maximum", coords="time"))
        cms = [("maximum", ("time",))]
    cov.step()
    if form == "bad percentile":
        e = raises(P().process, c)
        expect(isinstance(e, ValueError), "percentiles that are not equally spaced are refused", got=e)
        return "refused"
    with cubes.Unchanged(c):
        r = P().process(c)
    got = cubes.arr(r, "projection_y_coordinate", "projection_x_coordinate")
    cnt = (~m).sum(axis=0)
    w = np.where(m, 0, d.astype(float)).sum(axis=0) / np.maximum(cnt, 1)
    expect_same(np.ma.getmaskarray(got), cnt == 0, "mask")
    expect_close(np.ma.getdata(got)[cnt > 0], w[cnt > 0], "mean", rtol=1e-6)
    expect(not r.coords("realization") and not r.coords("percentile") and r.dtype == np.float32 and r.name() == "air_temperature", "metadata")
    expect([(x.method, x.coord_names) for x in r.cell_methods] == cms + [("mean", ("realization",))], "cell method", got=r.cell_methods)
    return form


# ------------------------------------------------------------ percentiles over coordinates
def c_pct(tier):
    sets = [None, [50.0], [0.0, 100.0], [10.0, 33.3, 90.0], [90.0, 10.0]]
    for coords in (["realization"], ["time"], ["realization", "time"], ["time", "realization"], ["projection_y_coordinate"], ["projection_x_coordinate", "projection_y_coordinate"]):
        for ps in sets:
            for mask in (0, 1, 2, 3):
                for nr in (1, 2, 4):
                    for fast in (True, False):
                        if not (fast and mask >= 2):
                            yield (coords, ps, mask, nr, fast)


def pct(case, cov):
    """Linear interpolation between the sorted members over exactly the requested coordinates, present values only."""
    import cubes
    import numpy as np
    from improver.percentile import PercentileConverter as P
    from improver.constants import DEFAULT_PERCENTILES

    coords, ps, mask, nr, fast = case
    sh = (nr, 3, 2, 3)
    d = np.array([280 + ((k * 29 + k * k * 3) % 101) / 8 for k in range(int(np.prod(sh)))], np.float32).reshape(sh)
    m = np.zeros(sh, bool)
    if mask >= 2:
        m[:, :, 0, 1] = True
    if mask == 3:
        m[0, 1, 1, 2] = m[nr - 1, 0, 1, 0] = True
    data = np.ma.masked_array(d, m) if mask else d
    if mask == 1 and fast:
        data = d
    t0 = cubes.T0
    c = cubes.grid(data, name="air_temperature", units="K", leading=[("realization", list(range(nr)), "1"), ("time", [t0 + 3600 * k for k in range(3)], cubes.EPOCH)], frt=t0 - 7200, attributes=ATT)
    names = ["realization", "time", "projection_y_coordinate", "projection_x_coordinate"]
    args = coords if len(coords) > 1 else coords[0]
    with cubes.Unchanged(c, list(coords)):
        r = P(args, percentiles=ps, fast_percentile_method=fast).process(c)
    cov.step()
    req = [float(np.float32(p)) for p in (DEFAULT_PERCENTILES if ps is None else ps)]
    axes = [names.index(x) for x in coords]
    keep = [x for x in names if x not in coords]
    dm = np.moveaxis(d, axes, range(-len(axes), 0)).reshape([sh[names.index(x)] for x in keep] + [-1])
    mm = np.moveaxis(m, axes, range(-len(axes), 0)).reshape(dm.shape)
    w = np.zeros((len(req),) + dm.shape[:-1])
    wm = np.zeros(w.shape, bool)
    for ix in np.ndindex(*dm.shape[:-1]):
        v = sorted(float(a) for a, b in zip(dm[ix], mm[ix]) if not b)
        for i, p in enumerate(req):
            if not v:
                wm[(i,) + ix] = True
                continue
            h = p / 100 * (len(v) - 1)
            lo = min(int(math.floor(h)), len(v) - 1)
            hi = min(lo + 1, len(v) - 1)
            w[(i,) + ix] = v[lo] + (h - lo) * (v[hi] - v[lo])
    pc = r.coord("percentile")
    expect(str(pc.units) == "%", "units of percentile", got=str(pc.units))
    have = [float(x) for x in pc.points]
    if len(req) > 1:
        got = cubes.arr(r, "percentile", *keep)
        idx = [min(range(len(have)), key=lambda j: abs(have[j] - q)) for q in req]
        got = got[idx]
    else:
        got = cubes.arr(r, *keep)[None]
    expect_close(sorted(have), sorted(req), "percentile points")
    gm = np.ma.getmaskarray(got)
    expect_same(gm, wm, "mask")
    expect_close(np.ma.getdata(got)[~wm], w[~wm], "percentiles", rtol=2e-6)
    expect(r.dtype == np.float32 and not any(r.coords(x) for x in coords), "type, and the collapsed coordinates are removed")
    for x in keep:
        expect(r.coord(x) == c.coord(x), "coordinate " + x)
    return str(coords)


def c_pctbad(tier):
    for k in range(4):
        yield (k,)


def pctbad(case, cov):
    import cubes
    import numpy as np
    from iris.exceptions import CoordinateNotFoundError
    from improver.percentile import PercentileConverter as P

    (k,) = case
    c = cubes.grid(np.zeros((2, 2, 3), np.float32), leading=[("realization", [0, 1], "1")])
    f = [lambda: P("kittens").process(c), lambda: P(["realization", "kittens"]).process(c), lambda: P([1]), lambda: P({"a": 1})][k]
    e = raises(f)
    cov.step()
    expect(isinstance(e, CoordinateNotFoundError if k < 2 else TypeError), "must be refused", got=e)
    return "refused"


SECTIONS = [
    Section("between", c_between, between, "every pair, ordered pair of pairs and triple of ranges of 4 thresholds x relations x masks x units"),
    Section("between_refused", c_brefuse, brefuse),
    Section("invert", c_invert, invert, "4 relations x requested direction x diagnostics x masks"),
    Section("names", c_names, names),
    Section("kinds", c_kinds, kinds),
    Section("expected_probability", c_ev, ev, "relations x threshold sets x masks x dimension orders"),
    Section("expected_members", c_ev2, ev2, "1-4 members or percentiles x masks x dimension orders"),
    Section("percentiles", c_pct, pct, "coordinate sets x percentile sets x masks x methods"),
    Section("percentiles_refused", c_pctbad, pctbad),
]

if __name__ == "__main__":
    main(globals())
