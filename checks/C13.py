"""C13: recursive filter smoothing and its orographic smoothing coefficients."""
import itertools

from mc import Section, Violation, expect, expect_close, expect_same, main, raises

PROPERTY = "C13"
SHAPES = [(3, 3), (3, 4), (4, 3), (5, 3)]
COEFF_KINDS = ["zero", "half", "graded", "spike", "x-only", "y-only"]


def coeffs(kind, ny, nx):
    import numpy as np

    cx = np.zeros((ny, nx - 1))
    cy = np.zeros((ny - 1, nx))
    if kind == "half":
        cx[:] = cy[:] = 0.5
    elif kind == "graded":
        cx += (np.arange(cx.size) % 11).reshape(cx.shape) / 22.0
        cy += ((np.arange(cy.size) * 7 + 3) % 11).reshape(cy.shape) / 22.0
    elif kind == "spike":
        cx[ny // 2, (nx - 1) // 2] = 0.5
        cy[(ny - 1) // 2, nx // 2] = 0.25
    elif kind == "x-only":
        cx += 0.375
    elif kind == "y-only":
        cy += 0.25
    return cx, cy


def coeff_cubes(cx, cy, spacing=2000.0):
    import cubes
    import numpy as np
    from iris.cube import CubeList

    a = cubes.grid(cx.astype(np.float32), name="smoothing_coefficient_x", time=None, spacing=spacing, origin=(0.0, spacing / 2))
    b = cubes.grid(cy.astype(np.float32), name="smoothing_coefficient_y", time=None, spacing=spacing, origin=(spacing / 2, 0.0))
    return a, b


def sym(n, w):
    """Indices of symmetric padding by w."""
    idx = []
    for i in range(-w, n + w):
        j = i % (2 * n)
        idx.append(j if j < n else 2 * n - 1 - j)
    return idx


def model(f, cx, cy, iterations, w):
    """The filter by its documented recursion, float64, one scalar at a time on the padded field."""
    import numpy as np

    ny, nx = f.shape
    F = f[np.ix_(sym(ny, w), sym(nx, w))].astype(np.float64).copy()
    CX = cx[np.ix_(sym(ny, w), sym(nx - 1, w))]
    CY = cy[np.ix_(sym(ny - 1, w), sym(nx, w))]

    def sweep(F, C):  # along axis 1, both ways
        n = F.shape[1]
        out = F.copy()
        for i in range(1, n):
            c = C[:, i - 1]
            out[:, i] = (1 - c) * out[:, i] + c * out[:, i - 1]
        for i in range(n - 2, -1, -1):
            c = C[:, i]
            out[:, i] = (1 - c) * out[:, i] + c * out[:, i + 1]
        return out

    for _ in range(iterations):
        F = sweep(F, CX)
        F = sweep(F.T, CY.T).T
    return F[w:-w, w:-w]


def cases_filter(tier):
    shapes = SHAPES if tier == "quick" else SHAPES + [(6, 6), (3, 8), (8, 3), (7, 5)]
    for shp in shapes:
        for kind in COEFF_KINDS:
            for it in (1, 2, 3):
                for edge in (1, 2, 15):
                    if tier == "quick" and edge == 15 and (it == 2 or shp != (3, 4)):
                        continue
                    yield [shp, kind, it, edge]


def fields(ny, nx):
    """Every unit impulse (the operator is linear) plus a position-unique and a constant field."""
    import numpy as np

    n = ny * nx
    f = np.zeros((n + 2, ny, nx), np.float32)
    for k in range(n):
        f[k].flat[k] = 1.0
    f[n] = 1 + np.arange(n).reshape(ny, nx) ** 2
    f[n + 1] = 7.25
    return f


def check_filter(case, cov):
    import numpy as np
    import cubes
    from iris.cube import CubeList
    from improver.nbhood.recursive_filter import RecursiveFilter

    (ny, nx), kind, it, edge = case
    f = fields(ny, nx)
    cx, cy = coeffs(kind, ny, nx)
    cx, cy = cx.astype(np.float32), cy.astype(np.float32)
    a, b = coeff_cubes(cx, cy)
    cube = cubes.grid(f, leading=[("realization", range(len(f)), "1")], attributes={"a": "b"})
    plugin = RecursiveFilter(iterations=it, edge_width=edge)
    with cubes.Unchanged(a, b):
        out = plugin(cube.copy(), CubeList([a, b]))
        swapped = plugin(cube.copy(), CubeList([b, a]))
    expect_same(out.data, swapped.data, "order of the coefficient cubes matters")
    want = np.stack([model(x, cx.astype(float), cy.astype(float), it, 2 * edge) for x in f])
    expect_close(out.data, want, "recursive filter", rtol=2e-5, atol=2e-6)
    expect(out.data.dtype == np.float32, "dtype %s" % out.data.dtype)
    cubes.expect_cube(cubes.describe(out, data=False), cubes.describe(cube, data=False), "metadata")
    if kind == "zero":
        expect_same(out.data, f, "zero coefficients change the field")
    expect_close(out.data[-1], f[-1], "constant field")
    cov.step(2)
    cov.trace(len(f) * 2)
    return "%s/%d" % (kind, it)


def cases_mask(tier):
    for shp in [(3, 3)] + ([(3, 4)] if tier != "quick" else []):
        n = shp[0] * shp[1]
        for m in range(1, 2 ** n):
            if n <= 9 or m % 1 == 0:
                yield [shp, m, 1 + m % 2]


def check_mask(case, cov):
    """Every mask: masked points stay masked, contribute nothing, and nothing crosses them."""
    import numpy as np
    import cubes
    from iris.cube import CubeList
    from improver.nbhood.recursive_filter import RecursiveFilter

    (ny, nx), m, it = case
    mask = np.array([(m >> k) & 1 for k in range(ny * nx)], bool).reshape(ny, nx)
    cx, cy = [c.astype(np.float32) for c in coeffs("graded" if m % 3 else "half", ny, nx)]
    a, b = coeff_cubes(cx, cy)
    f = np.stack([1.0 + np.arange(ny * nx).reshape(ny, nx), (np.arange(ny * nx).reshape(ny, nx) * 5 % 7) / 7.0]).astype(np.float32)
    zx = np.where(mask[:, 1:] | mask[:, :-1], 0, cx).astype(float)
    zy = np.where(mask[1:] | mask[:-1], 0, cy).astype(float)
    results = []
    for junk in (0.0, 1e20, np.nan):
        data = np.ma.array(np.where(mask, np.float32(junk), f), mask=np.broadcast_to(mask, f.shape).copy())
        cube = cubes.grid(data, leading=[("realization", [0, 1], "1")])
        plugin = RecursiveFilter(iterations=it, edge_width=2)
        with cubes.Unchanged(a, b):
            out = plugin(cube, CubeList([a, b]))
        expect_same(np.ma.getmaskarray(out.data), np.broadcast_to(mask, f.shape), "mask")
        want = np.stack([model(np.where(mask, 0, x), zx, zy, it, 4) for x in f])
        want = np.ma.array(want, mask=np.broadcast_to(mask, f.shape))
        expect_close(out.data, want, "masked recursive filter, value under the mask %s" % junk, rtol=2e-5)
        # unmasked use of the same coefficients afterwards is unaffected
        results.append(out)
        cov.step()
        cov.trace()
    plain = cubes.grid(f, leading=[("realization", [0, 1], "1")])
    out = RecursiveFilter(iterations=it, edge_width=2)(plain, CubeList([a, b]))
    want = np.stack([model(x, cx.astype(float), cy.astype(float), it, 4) for x in f])
    expect_close(out.data, want, "coefficients after a masked call", rtol=2e-5)
    return "masked%d" % mask.sum()


def cases_refuse(tier):
    return list(itertools.product(["name", "value", "grid-x", "grid-y", "shift", "iterations", "times", "value-edge"], [0, 1]))


def check_refuse(case, cov):
    import numpy as np
    import cubes
    from iris.cube import CubeList
    from improver.nbhood.recursive_filter import RecursiveFilter

    what, which = case
    f = np.arange(12, dtype=np.float32).reshape(3, 4)
    cx, cy = coeffs("graded", 3, 4)
    a, b = coeff_cubes(cx, cy)
    bad = (a, b)[which]
    cube = cubes.grid(f)
    it, want = 1, ValueError
    if what == "name":
        bad.rename("smoothing_coefficient_z")
    elif what == "value":
        bad.data[1, 1] = 0.51
    elif what == "value-edge":
        bad.data[1, 1] = 0.5
        want = None
    elif what in ("grid-x", "grid-y"):
        if which:
            b = b[:, :-1] if what == "grid-x" else b[:-1]
        else:
            a = a[:, :-1] if what == "grid-x" else a[:-1]
    elif what == "shift":
        c = bad.coord(axis="x")
        c.points = c.points + np.float32(500)
    elif what == "iterations":
        it = 0 if which else -1
    elif what == "times":
        cube = cubes.grid(np.ma.masked_less(np.stack([f, f + 1]), 2), leading=[("time", [cubes.T0, cubes.T0 + 3600], cubes.EPOCH)], frt=cubes.T0 - 3600)
    exc = raises(lambda: RecursiveFilter(iterations=it)(cube, CubeList([a, b])))
    expect(type(exc) is want if want else exc is None, "refusal of %s" % what, want, exc)
    cov.step()
    return what


# ------------------------------------------------------------------ smoothing coefficients
OROG = ["ramp", "bowl", "unique", "flat", "step"]


def orography(kind, ny, nx):
    import numpy as np

    y, x = np.mgrid[0:ny, 0:nx].astype(float)
    return {"ramp": 10 * x + 3 * y, "bowl": 5 * (x - 1) ** 2 + 2 * (y - 2) ** 2, "unique": (x * 37 + y * 101 + x * y * 13) % 53,
            "flat": 0 * x + 40, "step": 100.0 * (x > 1) + 30 * (y > 0)}[kind].astype(np.float32)


def cases_coeff(tier):
    for kind in OROG:
        for shp in [(3, 3), (3, 4)] + ([(5, 5), (6, 3), (4, 3)] if tier != "quick" else []):
            for lo, hi in [(0.5, 0.0), (0.0, 0.5), (0.3, 0.1), (0.25, 0.25)]:
                for power in (1, 2, 0.5):
                    for sp in (2000.0, (1000.0, 4000.0)):
                        yield [kind, shp, lo, hi, power, sp]


def coeff_model(orog, lo, hi, power, sy, sx):
    import numpy as np

    gx = np.abs(np.diff(orog.astype(float), axis=1) / sx) ** power
    gy = np.abs(np.diff(orog.astype(float), axis=0) / sy) ** power
    mn, mx = min(gx.min(), gy.min()), max(gx.max(), gy.max())
    if mx == mn:
        return np.full(gx.shape, lo), np.full(gy.shape, lo)
    return tuple((g - mn) / (mx - mn) * (hi - lo) + lo for g in (gx, gy))


def check_coeff(case, cov):
    import numpy as np
    import cubes
    from improver.generate_ancillaries.generate_orographic_smoothing_coefficients import OrographicSmoothingCoefficients as O

    kind, (ny, nx), lo, hi, power, sp = case
    sy, sx = (sp, sp) if not isinstance(sp, (list, tuple)) else sp
    orog = orography(kind, ny, nx)
    cube = cubes.grid(orog, name="surface_altitude", units="m", time=None, spacing=sp, attributes={"history": "x", "source": "s"})
    with cubes.Unchanged(cube):
        out = O(lo, hi, power)(cube)
    want = coeff_model(orog, lo, hi, power, sy, sx)
    for c, w, ax in zip(out, want, "xy"):
        expect(c.name() == "smoothing_coefficient_" + ax, "name", ax, c.name())
        expect_close(c.data, w, "coefficients " + ax, rtol=1e-4, atol=1e-5)
        expect(str(c.units) == "1" and "history" not in c.attributes and c.attributes["power"] == power, "metadata", got=c.attributes)
        for t in "xy":
            p = cube.coord(axis=t).points
            expect_close(c.coord(axis=t).points, (p[1:] + p[:-1]) / 2 if t == ax else p, "coordinate %s of %s" % (t, ax))
    # a mask: zero where the pair touches a masked point / outside / at the boundary only
    n = ny * nx
    masks = range(2 ** n) if n <= 9 and kind == "unique" and power == 1 and lo == 0.3 else (0, 1, 2 ** n - 1, 0b101, 1 << (n // 2))
    for m in masks:
        mk = np.array([(m >> k) & 1 for k in range(n)], np.int8).reshape(ny, nx)
        mc = cubes.grid(mk, name="land_binary_mask", time=None, spacing=sp)
        for boundary, invert in [(False, False), (False, True), (True, False)]:
            with cubes.Unchanged(cube, mc):
                res = O(lo, hi, power, use_mask_boundary=boundary, invert_mask=invert)(cube, mc)
            for c, w, axis in zip(res, want, (1, 0)):
                p = np.take(mk, range(mk.shape[axis] - 1), axis), np.take(mk, range(1, mk.shape[axis]), axis)
                if boundary:
                    zero = p[0] != p[1]
                elif invert:
                    zero = (p[0] == 0) | (p[1] == 0)
                else:
                    zero = (p[0] == 1) | (p[1] == 1)
                expect_close(c.data, np.where(zero, 0, w), "masked coefficients (mask %d, boundary %s, invert %s)" % (m, boundary, invert), rtol=1e-4, atol=1e-5)
            cov.step()
            cov.trace()
    return kind


def cases_chain(tier):
    return [[k, it] for k in OROG for it in (1, 2)]


def check_chain(case, cov):
    """The commands: coefficients from an orography, then the filter with them, keep constants and the range."""
    import numpy as np
    import cubes
    from iris.cube import CubeList
    from improver.cli import command_executor as run

    kind, it = case
    ny, nx = 4, 5
    orog = cubes.grid(orography(kind, ny, nx), name="surface_altitude", units="m", time=None)
    f = ((np.arange(ny * nx).reshape(ny, nx) * 7) % 11 / 10.0).astype(np.float32)
    cube = cubes.grid(np.stack([f, f * 0 + 0.5]), leading=[("realization", [0, 1], "1")])
    out = run("improver", "recursive-filter", cube.copy(), ["generate-orographic-smoothing-coefficients", orog], "--iterations", str(it))
    want = np.stack([model(x, *coeff_model(orog.data, 0.5, 0.0, 1, 2000.0, 2000.0), it, 30) for x in cube.data])
    expect_close(out.data, want, "chain", rtol=1e-4, atol=1e-5)
    expect(out.data.min() >= f.min() - 1e-6 and out.data.max() <= f.max() + 1e-6, "range")
    for bad in [("--min-gradient-smoothing-coefficient", "0.6"), ("--max-gradient-smoothing-coefficient", "-0.1")]:
        expect(isinstance(raises(run, "improver", "generate-orographic-smoothing-coefficients", orog, *bad), ValueError), "limit accepted: %s" % (bad,))
    cov.step(4)
    cov.trace(2)
    return kind


def sections():
    import improver.nbhood.recursive_filter  # noqa
    import improver.generate_ancillaries.generate_orographic_smoothing_coefficients  # noqa

    return [
        Section("filter", cases_filter, check_filter, "4 (8) shapes x 6 coefficient fields x 1-3 iterations x 3 edge widths, all impulses"),
        Section("masked", cases_mask, check_mask, "every non-empty mask of 3x3 (3x4) grids x 3 values under the mask"),
        Section("refusals", cases_refuse, check_refuse, "8 kinds x 2"),
        Section("coefficients", cases_coeff, check_coeff, "5 orographies x 2 (5) shapes x 4 ranges x 3 powers x 2 spacings x masks x 3 modes"),
        Section("commands", cases_chain, check_chain, "5 orographies x 2"),
    ]


if __name__ == "__main__":
    main(globals())
