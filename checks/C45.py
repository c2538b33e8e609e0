"""C45: ancillaries (land mask, orography bands and weights, smoothing coefficients) and field texture."""
import itertools
import math

from mc import Section, Violation, expect, expect_close, expect_same, main, raises

PROPERTY = "C45"
ATT = {"title": "T", "source": "S", "institution": "I"}
Y, X = "projection_y_coordinate", "projection_x_coordinate"


def lay(c, order):
    """1: transposed, 2: y reversed, 4: x reversed."""
    if order & 2:
        c = c[::-1]
    if order & 4:
        c = c[:, ::-1]
    if order & 1:
        c.transpose()
    return c


# ------------------------------------------------------------ land mask
LAND = [0.0, 1e-7, 0.2, 0.499, 0.49999997, 0.5, 0.5000001, 0.7, 1.0]


def c_land(tier):
    for r in range(len(LAND)):
        for shape in ((3, 3), (1, 9), (9, 1)):
            for k in range(3):
                yield (r, list(shape), k)


def land(case, cov):
    import cubes
    import numpy as np
    from improver.generate_ancillaries.generate_ancillary import CorrectLandSeaMask

    r, shape, k = case
    v = np.array(LAND[r:] + LAND[:r]).reshape(shape)
    d = [v.astype(np.float32), v, (v > 0.3).astype(np.int32)][k]
    c = cubes.grid(d, name="land_area_fraction", time=None, frt=None, attributes={"a": "b"})
    pl = CorrectLandSeaMask()
    for _ in range(2):
        with cubes.Unchanged(c):
            o = pl.process(c)
        cov.step()
        expect_same(o.data, (d >= 0.5).astype(np.int8), "land where the fraction is at least one half")
        expect(o.data.dtype == np.int8 and o.name() == "land_binary_mask", "description", got=(o.data.dtype, o.name()))
        w = c.copy(data=o.data)
        w.rename("land_binary_mask")
        cubes.expect_cube(o, w, "land mask")
    return "ok"


# ------------------------------------------------------------ bands and weights
BANDS = [
    [[-500.0, 50.0], [50.0, 100.0], [100.0, 150.0], [150.0, 200.0], [200.0, 250.0], [250.0, 300.0], [300.0, 400.0], [400.0, 500.0], [500.0, 650.0], [650.0, 800.0], [800.0, 950.0], [950.0, 6000.0]],
    [[0.0, 50.0], [50.0, 200.0]],
    [[0.0, 64.0]],
    [[-10.0, 10.0], [10.0, 30.0], [30.0, 300.0]],
    [[50.0, 200.0], [0.0, 50.0]],
]


def heights(b):
    b = sorted(b)
    h = []
    for lo, hi in b:
        m = (lo + hi) / 2
        h += [lo + 0.25 * (m - lo), m - 1, m, m + 1, m + 0.75 * (hi - m), hi - 0.5, hi]
    return h + [b[-1][1] + 1, b[-1][1] + 100, b[0][0] - 1]


def c_bands(tier):
    for kind in ("mask", "weights"):
        for k in range(len(BANDS)):
            if kind == "weights" and k == 4:
                continue
            for un in (("m", "m"), ("m", "km"), ("km", "m")):
                for lm in range(4):
                    for order in range(0, 8, 1 if lm in (0, 1) else 3):
                        for extra in range(4):
                            yield (kind, k, list(un), [lm, order, extra])
    for k in range(4):
        yield ("bad", k, 0, 0)


def bands(case, cov):
    import warnings
    import cubes
    import numpy as np
    from improver.generate_ancillaries.generate_ancillary import THRESHOLDS_DICT, GenerateOrographyBandAncils
    from improver.generate_ancillaries.generate_topographic_zone_weights import GenerateTopographicZoneWeights
    from improver.cli import generate_topography_bands_mask as CM, generate_topography_bands_weights as CW

    kind, k, un, z = case
    f = np.float32
    if kind == "bad":
        c = cubes.grid(np.zeros((2, 3), f), name="surface_altitude", units="m", time=None, frt=None)
        c3 = cubes.grid(np.zeros((2, 2, 3), f), name="surface_altitude", units="m", time=None, frt=None, leading=[("realization", [0, 1], "1")])
        t = [lambda: GenerateOrographyBandAncils().process(c, {}), lambda: GenerateOrographyBandAncils().process(c, {"bounds": [[0, 1, 2]], "units": "m"}),
             lambda: GenerateTopographicZoneWeights().process(c3, {"bounds": BANDS[1], "units": "m"}), lambda: GenerateOrographyBandAncils().process(c, {"bounds": [[0, 1]], "units": "K"})]
        expect(raises(t[k]), "incomplete bands and other dimensions are refused", got=k)
        cov.step()
        return "refused"
    lm, order, extra = z
    bd = BANDS[k]
    # the limits themselves are not reproduced exactly in other units
    h = [x for x in heights(bd) if un == ["m", "m"] or all(abs(x - l) > 0.2 and abs(x - sum(b) / 2) > 0.2 for b in bd for l in b)]
    if extra == 3:  # nothing in the upper bands
        h = [x for x in h if x <= sorted(bd)[0][1] - 1]
    nx = 7
    ny = -(-len(h) // nx)
    h = np.array((h * 3)[:nx * ny]).reshape(ny, nx)
    ou, bu = un
    d = (h / (1000.0 if ou == "km" else 1)).astype(f)
    kw = dict(name="surface_altitude", units=ou, time=None, frt=None, attributes=ATT)
    if extra == 1:
        o = cubes.grid(np.stack([d, d * 0]), leading=[("realization", [0, 1], "1")], **kw)
    elif extra == 2:
        kw.update(time=cubes.T0, frt=cubes.T0)
        o = cubes.grid(d, **kw)
    else:
        o = cubes.grid(d, **kw)
    o = lay(o, order) if extra != 1 else o
    order = order if extra != 1 else 0
    l = (np.arange(nx * ny).reshape(ny, nx) * [0, 1, 0, 1][lm] % 3 > 0).astype([np.int8, np.int8, np.int8, f][lm])
    lc = None
    if lm:
        lc = lay(cubes.grid(l, name="land_binary_mask", time=None, frt=None), order)
    elif lm == 2:
        l = l * 0
    cfg = {"bounds": [[q / (1000.0 if bu == "km" else 1) for q in b] for b in bd], "units": bu}
    if k == 0 and un == ["m", "m"] and extra == 0:
        cfg = None
        expect(THRESHOLDS_DICT == {"bounds": BANDS[0], "units": "m"}, "default bands", got=THRESHOLDS_DICT)
    cli = CM if kind == "mask" else CW
    fn = cli.process
    while hasattr(fn, "__wrapped__"):
        fn = fn.__wrapped__
    with cubes.Unchanged(o, lc, cfg), warnings.catch_warnings(record=True) as got:
        warnings.simplefilter("always")
        r = fn(o, lc, bands_config=cfg)
    cov.step()
    if kind == "weights" and len(bd) == 1:
        from iris.util import new_axis

        expect(r.ndim == 2, "a single band has no dimension", got=r.shape)
        r = new_axis(r, "topographic_zone")
    e = sorted(bd)
    hh, ll = (h[::-1], l[::-1]) if order & 2 else (h, l)
    hh, ll = (hh[:, ::-1], ll[:, ::-1]) if order & 4 else (hh, ll)
    w = np.zeros((len(e), ny, nx))
    for b, (lo, hi) in enumerate(e):
        m = (lo + hi) / 2
        for j in range(ny):
            for i in range(nx):
                q = hh[j, i]
                if not lo < q <= hi:
                    continue
                if kind == "mask":
                    w[b, j, i] = 1
                    continue
                p = 0.5 + 0.5 * (1 - abs(q - m) / (hi - m))
                n = b + (1 if q > m else -1)
                if q != m and 0 <= n < len(e):
                    w[b, j, i], w[n, j, i] = p, 1 - p
                else:
                    w[b, j, i] = 1
    if kind == "mask":
        if lc is not None:
            w = w * (ll > 0)
        expect_same(np.ma.filled(r.data, -9), w.astype(np.int32), "each point in the band above its lower and up to its upper limit; sea in none")
        expect(r.name() == "topography_mask" and r.data.dtype == np.int32, "description", got=(r.name(), r.data.dtype))
    else:
        if lc is not None:
            expect_same(np.ma.getmaskarray(r.data), np.broadcast_to(ll == 0, w.shape), "sea is masked")
            w = np.where(ll == 0, 0, w)
        g = np.ma.filled(r.data, 0)
        expect_close(g, w, "linear from one half at the limits to one at the middle of each band", rtol=1e-4, atol=2e-5)
        inside = (hh > e[0][0]) & (hh <= e[-1][1]) & ((ll > 0) | (lc is None))
        expect_close(g.sum(axis=0), inside * 1.0, "weights of a point within the bands add up to one", atol=1e-5)
        expect(r.name() == "topographic_zone_weights" and r.data.dtype == f, "description", got=(r.name(), r.data.dtype))
        expect(sum("maximum orography" in str(x.message) for x in got) == int(h.max() > e[-1][1]) and sum("minimum orography" in str(x.message) for x in got) == int(h.min() < e[0][0]), "warned of points outside the bands", got=[str(x.message) for x in got])
    zc = r.coord("topographic_zone")
    sc = 1000.0 if ou == "km" else 1
    expect_close(zc.bounds, np.array(e) / sc, "limits of the bands in the units of the orography", atol=1e-6)
    expect_close(zc.points, np.mean(e, axis=1) / sc, "middle of the bands", atol=1e-6)
    expect(str(zc.units) == ou and str(r.units) == "1" and r.coord_dims("topographic_zone") == (0,), "topographic zone dimension", got=zc)
    expect([c.name() for c in r.coords(dim_coords=True)] == ["topographic_zone", Y, X], "dimensions", got=r.coords(dim_coords=True))
    for n in (Y, X):
        expect(cubes.diff(cubes.describe_coord(r.coord(n)), cubes.describe_coord(o.coord(n))) is None, "grid of the orography", got=r.coord(n))
    expect(r.attributes == {"topographic_zones_include_seapoints": str(lc is None)}, "attributes", got=r.attributes)
    expect(bool(r.coords("time")) == (extra == 2), "scalar coordinates are kept")
    return kind


# ------------------------------------------------------------ smoothing coefficients
def c_smooth(tier):
    for k in range(5):
        for lim in ((0.5, 0.0), (0.0, 0.5), (0.4, 0.1), (0.25, 0.25), (0.5, 0.5)):
            for p in (1, 0.5, 2, 1.7):
                for m in range(5):
                    yield ("coef", k, list(lim), [p, m, 0, 0])
        for m in range(5):
            for order in range(8):
                for s in range(3):
                    yield ("coef", k, [0.45, 0.05], [1, m, order, s])
    for k in range(9):
        yield ("bad", k, 0, 0)
    for p in itertools.product(range(5), repeat=2):
        yield ("reuse", list(p), 0, 0)


def smooth(case, cov):
    import cubes
    import numpy as np
    from improver.generate_ancillaries.generate_orographic_smoothing_coefficients import OrographicSmoothingCoefficients as P

    kind, k, lim, z = case
    f = np.float32
    ny, nx = 4, 5
    j, i = np.mgrid[:ny, :nx]

    def topo(k):
        return np.array([(i * i * 13.0 + j * 31) % 170, 30.0 * i, 0.0 * i + 5, np.where(i > 2, 100.0, 0.0), (7.0 * i + 11 * j * j) % 23 - 9][k])

    def masks(m):
        return np.array([i * 0, (i > 2), ((i + j) % 2 == 0), (j == 1) | (i == 3), i * 0 + 1][m]).astype(np.int8)

    def judge(pl, k, lim, p, m, order, s, msg=""):
        sp = [(2000.0, 2000.0), (1000.0, 4000.0), (1500.0, 500.0)][s]
        h = topo(k)
        extra = {1: dict(time=cubes.T0, frt=cubes.T0, scalars=()), 2: dict(time=None, frt=None)}.get(order % 3, dict(time=None, frt=None))
        c = lay(cubes.grid(h.astype(f), name="surface_altitude", units="m", spacing=sp, attributes={"mosg__grid_type": "g", "history": "x", "title": "o"}, **extra), order)
        mc_ = None
        if m is not None:
            mc_ = lay(cubes.grid(masks(m[0]), name="land_binary_mask", spacing=sp, time=None, frt=None), order)
        with cubes.Unchanged(c, mc_):
            r = pl.process(c, mc_) if mc_ is not None else pl.process(c)
        cov.step()
        g = [np.abs(np.diff(h, axis=1) / sp[1]) ** p, np.abs(np.diff(h, axis=0) / sp[0]) ** p]
        lo, hi = min(q.min() for q in g), max(q.max() for q in g)
        expect(len(r) == 2, "coefficients along x and y")
        for a, (q, c_, n) in enumerate(zip(g, r, "xy")):
            w = lim[0] + (lim[1] - lim[0]) * ((q - lo) / (hi - lo) if hi > lo else 0)
            w = w * np.ones(q.shape)
            if m is not None:
                b = masks(m[0]).astype(int)
                one, two = (b[:, :-1], b[:, 1:]) if n == "x" else (b[:-1], b[1:])
                zero = one != two if m[1] else ((one == 0) | (two == 0) if m[2] else (one == 1) | (two == 1))
                w = np.where(zero, 0, w)
            got = cubes.arr(c_, Y, X)
            got = got[::-1] if order & 2 else got
            got = got[:, ::-1] if order & 4 else got
            expect_close(got, w, msg + "scaled between the limits by the gradient, zero where masked", rtol=2e-4, atol=1e-6)
            expect([x.name() for x in c_.coords(dim_coords=True)] == [x.name() for x in c.coords(dim_coords=True)], "dimensions in the order of the orography", got=c_.coords(dim_coords=True))
            for e, nm in enumerate((Y, X)):
                pts = c.coord(nm).points
                if nm[11] == n:
                    pts = (pts[1:] + pts[:-1]) / 2
                expect_close(c_.coord(nm).points, pts, "between the points of the orography", rtol=1e-6)
            expect(c_.name() == "smoothing_coefficient_" + n and str(c_.units) == "1" and c_.data.dtype == f, "description", got=(c_.name(), c_.units, c_.data.dtype))
            at = {"title": "Recursive filter smoothing coefficients", "source": "IMPROVER", "institution": "unknown", "mosg__grid_type": "g", "power": p}
            expect(c_.attributes == at, "attributes", at, c_.attributes)
            expect(not [x.name() for x in c_.coords(dim_coords=False) if "time" in x.name() or "period" in x.name()], "no time coordinates")

    FORMS = [None, (1, False, False), (2, True, False), (3, False, True), (3, True, True)]
    if kind == "coef":
        p, m, order, s = z
        kk = FORMS[m]
        for n in range(5) if kk else (0,):
            mm = (n,) + kk[1:] if kk else None
            pl = P(lim[0], lim[1], p, use_mask_boundary=bool(kk and kk[1]), invert_mask=bool(kk and kk[2]))
            judge(pl, k, lim, p, mm, order, s)
        return "coef"
    if kind == "reuse":
        pl = P(0.5, 0.1, 2)
        for n in k:
            judge(pl, n, [0.5, 0.1], 2, (n, False, False), n, n % 3, "a plugin used again: ")
        return "reuse"
    c = cubes.grid(topo(0).astype(f), name="surface_altitude", units="m", time=None, frt=None)
    m2 = cubes.grid(masks(1), name="land_binary_mask", time=None, frt=None, origin=(1.0, 0.0))
    c3 = cubes.grid(np.zeros((2, 3, 4), f), name="surface_altitude", units="m", leading=[("realization", [0, 1], "1")])
    t = [lambda: P(-0.01, 0.5), lambda: P(0.51, 0.5), lambda: P(0.5, -0.01), lambda: P(0.5, 0.51), lambda: P().process(c3), lambda: P().process([c]), lambda: P().process(c, m2), lambda: P().process(c, c3[0]), lambda: P(min_gradient_smoothing_coefficient=1)]
    expect(raises(t[k]), "coefficients outside 0 to 0.5, other dimensions and grids are refused", got=k)
    cov.step()
    return "refused"


# ------------------------------------------------------------ field texture
def texture(d, n):
    """Ratio of actual to possible transitions of the set cells within n cells of each set cell; one where not set."""
    import numpy as np

    ny, nx = d.shape
    t = np.zeros(d.shape)
    for j in range(ny):
        for i in range(nx):
            if d[j, i]:
                t[j, i] = sum(not d[y, x] for y, x in ((j - 1, i), (j + 1, i), (j, i - 1), (j, i + 1)) if 0 <= y < ny and 0 <= x < nx)
    o = np.ones(d.shape)
    for j in range(ny):
        for i in range(nx):
            if d[j, i]:
                s = (slice(max(j - n, 0), j + n + 1), slice(max(i - n, 0), i + n + 1))
                o[j, i] = t[s].sum() / (4.0 * d[s].sum())
    return o


def c_text(tier):
    for b in range(512):
        yield ("all", b, 1 + b % 2, [0.05, 0.25, 0.5, 0.4][b // 2 % 4])
    for k in range(6):
        for n in (1, 2, 3):
            for t in (0.05, 0.3, 0.5, 0.75):
                for form in range(5):
                    yield ("field", [k, form], n, t)
    for k in range(5):
        yield ("bad", k, 1, 0.05)


def text(case, cov):
    import cubes
    import numpy as np
    from improver.utilities.textural import FieldTexture

    kind, k, n, t = case
    f = np.float32
    N = "cloud_area_fraction"
    TH = [0.25, 0.8125, 0.9]

    def cube(d, th=TH, lead=(), **kw):
        kw.setdefault("attributes", dict(ATT, mosg__model_configuration="uk_ens"))
        return cubes.grid(
            d.astype(f), name="probability_of_%s_above_threshold" % N, leading=list(lead) + [(N, th, "1", np.float32, {"spp__relative_to_threshold": "greater_than"}, True)], **kw)

    def judge(c, fields, mid=None, want_n=None):
        with cubes.Unchanged(c):
            r = FieldTexture(n * 2000.0, t, 0.8125, model_id_attr=mid).process(c)
        cov.step()
        w = np.mean([(texture(x, n) > t) * 1.0 for x in fields], axis=0)
        expect(r.shape == w.shape, "shape", w.shape, r.shape)
        expect_close(r.data, w, "fraction of realizations in which the texture is above the threshold", atol=1e-6)
        expect(r.name() == "probability_of_texture_of_%s_above_threshold" % N and r.data.dtype == f and str(r.units) == "1", "description", got=(r.name(), r.data.dtype))
        tc = r.coord("texture_of_" + N)
        expect(tc.var_name == "threshold" and tc.points.tolist() == [f(t)] and tc.attributes == {"spp__relative_to_threshold": "greater_than"}, "threshold of the texture", got=tc)
        expect(not r.coords("realization") and not r.coords(N), "no realizations nor thresholds left")
        for q in ("time", "forecast_reference_time", "forecast_period", Y, X):
            expect(cubes.diff(cubes.describe_coord(r.coord(q)), cubes.describe_coord(c.coord(q))) is None, "other coordinates", got=r.coord(q))
        expect(r.attributes == dict(ATT, **({"mosg__model_configuration": "uk_ens"} if mid else {})), "attributes", got=r.attributes)

    if kind == "all":
        d = np.array([[k >> (3 * j + i) & 1 for i in range(3)] for j in range(3)])
        if n == 2:
            d = np.pad(d, ((1, 1), (0, 2)))
        judge(cube(np.stack([1 - d, d, 0 * d])), [d])
        return "all"
    ny, nx = 6, 7

    def field(k, r=0):
        j, i = np.mgrid[:ny, :nx]
        return np.array([(i * (r + 1) + j) % 2, (i * i + j * 3 + r) % 5 < 3, (i > 2 + r), 0 * i, 0 * i + 1, (i * 7 + j * 5 + 2 * r) % 11 < 6][k]).astype(int)

    if kind == "field":
        k, form = k
        if form == 0:
            d = field(k)
            judge(cube(np.stack([1 - d, d, 0 * d])), [d], "mosg__model_configuration")
        elif form == 1:
            fs = [field(k, r) for r in range(3)]
            judge(cube(np.stack([np.stack([1 - d, d, 0 * d]) for d in fs]), lead=[("realization", [0, 1, 2], "1")]), fs)
        elif form == 2:
            fs = [field(k, r) for r in range(2)]
            c = cube(np.stack([np.stack([d]) for d in fs]), th=[0.8125], lead=[("realization", [0, 3], "1")])
            judge(c[:, 0], fs)
        elif form == 3:
            d = field(k, 1)
            judge(cube(np.stack([d, 1 - d]), th=[0.8125, 0.9])[0], [d])
        else:
            d = field(k, 2)
            judge(cube(np.stack([np.stack([1 - d, d, 0 * d])]), lead=[("realization", [4], "1")]), [d])
        return "field%d" % form
    d = field(1)
    c = cube(np.stack([1 - d, d, 0 * d]))
    c2 = cube(np.stack([1 - d, d * 0.5, 0 * d]))
    t_ = [lambda: FieldTexture(2000.0, t, 0.5).process(c), lambda: FieldTexture(2000.0, t, 0.8125).process(c2), lambda: FieldTexture(2000.0, t, 0.8125).process(cube(np.stack([2 * d, d, d]))), lambda: FieldTexture(2000.0, t, 0.8125).process(cubes.grid(d.astype(f))), lambda: FieldTexture(2000.0, t, 0.81).process(c)]
    expect(raises(t_[k]), "absent thresholds and fields that are not binary are refused", got=k)
    cov.step()
    return "refused"


SECTIONS = [Section("land", c_land, land), Section("bands", c_bands, bands), Section("smoothing", c_smooth, smooth), Section("texture", c_text, text)]

if __name__ == "__main__":
    main(globals())
