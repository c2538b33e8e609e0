"""C14: halos, grid spacing, differences and gradients."""
import itertools

from mc import Section, Violation, expect, expect_close, expect_same, main, raises

PROPERTY = "C14"


def base(ny, nx, lead=(), masked=None, spatial="equalarea", spacing=2000.0, origin=(-4000.0, 6000.0), name="air_temperature", units="K"):
    import numpy as np
    import cubes

    shape = [n for _, n in lead] + [ny, nx]
    n = int(np.prod(shape))
    data = (np.arange(n).reshape(shape) ** 2 % 97 + np.arange(n).reshape(shape) * 0.5).astype(np.float32)
    if masked is not None:
        m = np.zeros(n, bool)
        m[[k % n for k in masked]] = True
        data = np.ma.array(data, mask=m.reshape(shape))
    leading = []
    for nm, k in lead:
        if nm == "time":
            leading.append((nm, [cubes.T0 + 3600 * (i + 1) for i in range(k)], cubes.EPOCH))
        elif nm == "realization":
            leading.append((nm, range(k), "1"))
        else:
            leading.append((nm, [float(i) for i in range(k)], "m"))
    return cubes.grid(data, name=name, units=units, leading=leading, spatial=spatial, spacing=spacing, origin=origin, attributes={"title": "t"})


# ------------------------------------------------------------------ halos
METHODS = ["constant", "symmetric", "mean", "maximum"]


def cases_halo(tier):
    sizes = [2, 3, 4] if tier == "quick" else [2, 3, 4, 5]
    for ny, nx in itertools.product(sizes, repeat=2):
        for wy, wx in itertools.product([0, 1, 2, 3], repeat=2):
            for method in METHODS:
                if method in ("mean", "maximum") and (min(wy, wx) < 2):
                    continue
                for sp in (2000.0, -2000.0, (1000.0, 2500.0)):
                    for masked in (None, (1, 2)):
                        if masked and method != "constant":
                            continue
                        yield [ny, nx, wy, wx, method, sp, masked]


def check_halo(case, cov):
    import numpy as np
    import cubes
    from improver.utilities.pad_spatial import pad_cube_with_halo, remove_halo_from_cube

    ny, nx, wy, wx, method, sp, masked = case
    cube = base(ny, nx, spacing=sp, masked=masked)
    with cubes.Unchanged(cube):
        out = pad_cube_with_halo(cube, wx, wy, pad_method=method)
    expect(out.shape == (ny + 2 * wy, nx + 2 * wx), "shape", (ny + 2 * wy, nx + 2 * wx), out.shape)
    inner = out.data[wy:wy + ny, wx:wx + nx]
    expect_same(np.ma.getdata(inner), np.ma.getdata(cube.data), "interior")
    raw = np.ma.getdata(cube.data)
    for iy in range(out.shape[0]):
        for ix in range(out.shape[1]):
            y, x = iy - wy, ix - wx
            inside = 0 <= y < ny and 0 <= x < nx
            if method == "constant":
                want = raw[y, x] if inside else 0.0
            elif method == "symmetric":
                def s(k, n):
                    k %= 2 * n
                    return k if k < n else 2 * n - 1 - k
                want = raw[s(y, ny), s(x, nx)]
            elif 0 <= y < ny:
                if inside:
                    continue
                row = raw[y]
                k = min(wx // 2, nx)
                part = row[:k] if x < 0 else row[nx - k:]
                want = part.mean() if method == "mean" else part.max()
            else:
                continue
            got = np.ma.getdata(out.data)[iy, ix]
            expect(abs(float(got) - float(want)) <= 1e-4 * (1 + abs(float(want))), "value at %d,%d" % (y, x), want, got)
    for ax, w, s in (("x", wx, sp if not isinstance(sp, (list, tuple)) else sp[1]), ("y", wy, sp if not isinstance(sp, (list, tuple)) else sp[0])):
        old, new = cube.coord(axis=ax), out.coord(axis=ax)
        n = len(old.points)
        expect_close(new.points, old.points[0] + s * (np.arange(n + 2 * w) - w), "padded points " + ax, rtol=1e-6)
        expect_close(new.bounds, np.stack([new.points - s / 2, new.points + s / 2], 1), "padded bounds " + ax, rtol=1e-6)
        expect(new.points.dtype == old.points.dtype and new.units == old.units and new.coord_system == old.coord_system, "coordinate metadata")
    ignore = tuple("coords.projection_%s_coordinate" % a for a in "xy") + ("shape",)
    cubes.expect_cube(cubes.describe(out, data=False), cubes.describe(cube, data=False), "metadata", ignore=ignore)
    with cubes.Unchanged(out):
        back = remove_halo_from_cube(out, wx, wy)
    cubes.expect_cube(cubes.describe(back, data=False), cubes.describe(cube, data=False), "halo added and removed")
    expect_same(np.ma.getdata(back.data), np.ma.getdata(cube.data), "data after adding and removing the halo")
    cov.step(2)
    return method


LEADS = [(), (("realization", 1),), (("realization", 2),), (("time", 3),), (("realization", 2), ("time", 2)), (("time", 1), ("realization", 1)), (("height", 2), ("realization", 3))]


def cases_cut(tier):
    for lead in LEADS:
        for shp in [(5, 6), (6, 5), (7, 7)]:
            for radius in (2000.0, 3999.0, 4000.0, 4100.0):
                for masked in (None, (0, 13, 14, 40)):
                    yield [lead, shp, radius, masked]


def check_cut(case, cov):
    """remove_cube_halo for whole cubes, remove-halo round trips, create_cube_with_halo."""
    import numpy as np
    import cubes
    from improver.utilities.pad_spatial import create_cube_with_halo, remove_cube_halo

    lead, (ny, nx), radius, masked = case
    lead = [tuple(x) for x in lead]
    cube = base(ny, nx, lead, masked)
    w = int(radius // 2000)
    with cubes.Unchanged(cube):
        out = remove_cube_halo(cube, radius)
        big = create_cube_with_halo(cube, radius)
    want = cubes.describe(cube[..., w:ny - w, w:nx - w])
    cubes.expect_cube(cubes.describe(out, data=False), {k: v for k, v in want.items() if k not in ("data", "dtype", "masked")}, "halo removed",
                      ignore=("coords.forecast_period",) if ("time", 1) in lead else ())
    expect_same(out.data, cube.data[..., w:ny - w, w:nx - w], "data without halo")
    expect(big.shape == (ny + 2 * w, nx + 2 * w) and big.name() == "grid_with_halo" and not big.data.any(), "halo grid", got=(big.shape, big.name()))
    for ax in "xy":
        p = cube.coord(axis=ax).points
        expect_close(big.coord(axis=ax).points, p[0] + 2000.0 * (np.arange(len(p) + 2 * w) - w), "halo grid points")
    for bad in (0.0, -1.0, 1999.0):
        expect(isinstance(raises(remove_cube_halo, cube, bad), ValueError), "radius %s accepted" % bad)
    cov.step(5)
    return "cut"


INCS = (1.0, 2.0, 3.0)


def cases_uniform(tier):
    for n in (1, 2, 3, 4) if tier == "quick" else (1, 2, 3, 4, 5):
        for incs in itertools.product(INCS, repeat=n):
            for scale in (500.0, 2000.0, -2000.0):
                yield [list(incs), scale]


def check_uniform(case, cov):
    """Only evenly spaced axes have a spacing; everything else is refused wherever the irregularity is."""
    import numpy as np
    import cubes
    from improver.utilities.pad_spatial import pad_coord
    from improver.utilities.spatial import calculate_grid_spacing, check_if_grid_is_equal_area, distance_to_number_of_grid_cells, number_of_grid_cells_to_distance

    incs, scale = case
    pts = np.float32(1000.0) + np.concatenate([[0], np.cumsum(incs)]).astype(np.float32) * np.float32(scale)
    cube = base(len(pts), len(pts), spacing=abs(scale) * incs[0])
    even = len(set(incs)) == 1
    for ax, other in (("x", "y"), ("y", "x")):
        c = cube.copy()
        coord = c.coord(axis=ax)
        coord.bounds = None
        coord.points = pts
        coord.guess_bounds()
        got = raises(calculate_grid_spacing, c, "m", ax)
        expect((got is None) == even and (even or isinstance(got, ValueError)), "spacing of an axis with increments %s" % incs, even, got)
        bad = raises(pad_coord, coord, 1, "add")
        expect((bad is None) == even and (even or isinstance(bad, ValueError)), "padding an axis with increments %s" % incs, even, bad)
        bad = raises(check_if_grid_is_equal_area, c)
        expect((bad is None) == even, "equal-area check", even, bad)
        if not even:
            continue
        step = abs(scale) * incs[0]
        expect(abs(calculate_grid_spacing(c, "m", ax) - step) < 1e-3, "spacing", step)
        expect(abs(calculate_grid_spacing(c, "km", ax) - step / 1000) < 1e-6, "spacing in km", step / 1000)
        for k in (1, 1.5, 2, 2.999, 7):
            d = distance_to_number_of_grid_cells(c, k * step, axis=ax)
            expect(d == int(k) and isinstance(d, (int, np.integer)), "cells in %s steps" % k, int(k), d)
            f = distance_to_number_of_grid_cells(c, k * step, axis=ax, return_int=False)
            expect(abs(f - k) < 1e-5, "fraction of cells", k, f)
            if isinstance(k, int):
                expect(abs(number_of_grid_cells_to_distance(c, k) - k * step) < 1e-2, "distance of cells", k * step)
        for k in (0.0, -step, 0.5 * step):
            expect(isinstance(raises(distance_to_number_of_grid_cells, c, k, ax), ValueError), "distance %s accepted" % k)
        # unequal spacing of the two axes
        d = c.copy()
        d.coord(axis=other).bounds = None
        d.coord(axis=other).points = d.coord(axis=other).points * np.float32(2)
        expect(isinstance(raises(check_if_grid_is_equal_area, d), ValueError), "unequal x and y spacing accepted")
        expect(raises(check_if_grid_is_equal_area, d, require_equal_xy_spacing=False) is None, "unequal x and y spacing refused")
        cov.step(12)
    cov.step(6)
    return "even" if even else "uneven"


# ------------------------------------------------------------------ differences and gradients
def cases_grad(tier):
    spacings = [2000.0, -2000.0, (1000.0, 4000.0), (-1500.0, 3000.0), (1500.0, -3000.0)]
    for shp in [(2, 2), (2, 3), (3, 2), (4, 3), (3, 5)] + ([(5, 5), (6, 2)] if tier != "quick" else []):
        n = shp[0] * shp[1]
        for sp in spacings:
            for spatial in ("equalarea", "latlon", "km"):
                for order in ("yx", "xy"):
                    masks = [None] + [(k,) for k in range(n)] if sp == 2000.0 and order == "yx" else [None, (1,)]
                    for m in masks:
                        yield [list(shp), sp, spatial, order, m]


def check_grad(case, cov):
    import numpy as np
    import cubes
    from improver.utilities.spatial import DifferenceBetweenAdjacentGridSquares, DistanceBetweenGridSquares, GradientBetweenAdjacentGridSquares

    (ny, nx), sp, spatial, order, m = case
    sy, sx = (sp, sp) if not isinstance(sp, (list, tuple)) else sp
    if spatial == "latlon":
        sy, sx = sy / 1000.0, sx / 1000.0
        cube = base(ny, nx, masked=m, spatial="latlon", spacing=[sy, sx], origin=(50.0, -3.0))
    else:
        cube = base(ny, nx, masked=m, spacing=[sy, sx])
    if spatial == "km":
        for ax in "xy":
            cube.coord(axis=ax).convert_units("km")
    if order == "xy":
        cube.transpose()
        if spatial != "latlon":
            return check_diff_only(cube, cov)
        # distances are documented for [y, x] fields; only differences are order-free
        return check_diff_only(cube, cov)
    with cubes.Unchanged(cube):
        dx, dy = DifferenceBetweenAdjacentGridSquares()(cube)
        lx, ly = DistanceBetweenGridSquares()(cube)
        gx, gy = GradientBetweenAdjacentGridSquares()(cube)
    d = cube.data.astype(np.float64)
    wx, wy = d[:, 1:] - d[:, :-1], d[1:] - d[:-1]
    expect_close(dx.data, wx, "x difference")
    expect_close(dy.data, wy, "y difference")
    if spatial == "latlon":
        R = 6371229.0
        lat = np.deg2rad(cube.coord(axis="y").points.astype(float))
        ex = R * np.cos(lat)[:, None] * np.deg2rad(sx) * np.ones((ny, nx - 1))
        ey = R * np.deg2rad(sy) * np.ones((ny - 1, nx))
    else:
        ex, ey = np.full((ny, nx - 1), sx), np.full((ny - 1, nx), sy)
    expect_close(np.abs(lx.data), np.abs(ex), "x distances", rtol=1e-4)
    expect_close(np.abs(ly.data), np.abs(ey), "y distances", rtol=1e-4)
    expect(str(lx.units) == "m" and str(ly.units) == "m", "distance units")
    expect_close(gx.data, wx / ex, "x gradient", rtol=2e-4, atol=1e-9)
    expect_close(gy.data, wy / ey, "y gradient", rtol=2e-4, atol=1e-9)
    for c, ax in ((dx, "x"), (dy, "y"), (lx, "x"), (ly, "y"), (gx, "x"), (gy, "y")):
        for t in "xy":
            p = cube.coord(axis=t).points.astype(float)
            if t == ax:
                p = (p[1:] + p[:-1]) / 2
            expect_close(c.coord(axis=t).points, p, "%s points of %s" % (t, c.name()), rtol=1e-5)
    for c in (dx, dy):
        expect(c.name() == "difference_of_air_temperature" and c.attributes["form_of_difference"] == "forward_difference", "difference metadata")
        expect(len(c.cell_methods) == 1 and c.cell_methods[0].method == "difference", "cell method")
    for c in (gx, gy):
        expect(c.name() == "gradient_of_air_temperature" and "form_of_difference" not in c.attributes, "gradient metadata", got=c.attributes)
        expect(str(c.units) in ("K m-1", "m-1.K", "m-1 K"), "gradient units", "K m-1", str(c.units))
    cov.step(3)
    if m is None and min(ny, nx) >= 3:
        rx, ry = GradientBetweenAdjacentGridSquares(regrid=True)(cube)
        for c, g, axis in ((rx, wx / ex, 1), (ry, wy / ey, 0)):
            expect(c.shape == cube.shape, "regridded shape", cube.shape, c.shape)
            for ax in "xy":
                expect_same(c.coord(axis=ax).points, cube.coord(axis=ax).points, "regridded points")
            g = np.moveaxis(g, axis, 0)
            inner = (g[1:] + g[:-1]) / 2
            first, last = 1.5 * g[0] - 0.5 * g[1], 1.5 * g[-1] - 0.5 * g[-2]
            w = np.moveaxis(np.concatenate([first[None], inner, last[None]]), 0, axis)
            expect_close(c.data, w, "regridded gradient", rtol=1e-3, atol=1e-6)
        cov.step()
    return spatial


def check_diff_only(cube, cov):
    import numpy as np
    import cubes
    from improver.utilities.spatial import DifferenceBetweenAdjacentGridSquares

    with cubes.Unchanged(cube):
        dx, dy = DifferenceBetweenAdjacentGridSquares()(cube)
    d = cube.data.astype(np.float64)
    expect_close(dx.data, d[1:] - d[:-1], "x difference of [x, y]")
    expect_close(dy.data, d[:, 1:] - d[:, :-1], "y difference of [x, y]")
    return "xy"


def cases_wrap(tier):
    for nx in (3, 4, 6, 8):
        for ny in (2, 3):
            for start in (0.0, -180.0, 30.0):
                for order in ("yx", "xy"):
                    for m in [None, (0,), (nx - 1,), (nx,), (ny * nx - 1, 1)]:
                        yield [ny, nx, start, order, m]


def check_wrap(case, cov):
    """Circular longitude: the difference between last and first column is included, masks and all."""
    import numpy as np
    import cubes
    from improver.utilities.spatial import DifferenceBetweenAdjacentGridSquares, GradientBetweenAdjacentGridSquares

    ny, nx, start, order, m = case
    sx = 360.0 / nx
    cube = base(ny, nx, masked=m, spatial="latlon", spacing=[10.0, sx], origin=(-10.0, start))
    cube.coord(axis="x").circular = True
    d = cube.data.astype(np.float64)
    wx = np.ma.concatenate([d, d[:, :1]], axis=1)
    wx = wx[:, 1:] - wx[:, :-1]
    wy = d[1:] - d[:-1]
    if m is None:
        wx = np.asarray(wx)
    if order == "xy":
        cube.transpose()
        wx, wy = wx.T, wy.T
    dx, dy = DifferenceBetweenAdjacentGridSquares()(cube)
    expect_close(dx.data, wx, "circular x difference")
    expect_close(dy.data, wy, "circular y difference")
    p = start + sx * np.arange(nx + 1)
    expect_close(dx.coord(axis="x").points, (p[1:] + p[:-1]) / 2, "circular points", rtol=1e-5, atol=1e-4)
    if order == "yx":
        gx, gy = GradientBetweenAdjacentGridSquares()(cube)
        lat = np.deg2rad(-10.0 + 10.0 * np.arange(ny))
        expect_close(gx.data, wx / (6371229.0 * np.cos(lat)[:, None] * np.deg2rad(sx)), "circular gradient", rtol=1e-3, atol=1e-12)
    cov.step(2)
    return order


def sections():
    import improver.utilities.pad_spatial  # noqa
    import improver.utilities.spatial  # noqa

    return [
        Section("halo", cases_halo, check_halo, "9 (16) shapes x 16 widths x 4 methods x 3 spacings x masks"),
        Section("whole-cubes", cases_cut, check_cut, "7 leading dimensions x 3 shapes x 4 radii x 2 masks"),
        Section("even-spacing", cases_uniform, check_uniform, "every increment pattern over {1,2,3} of length 1-4 (5) x 3 scales, both axes"),
        Section("gradient", cases_grad, check_grad, "5 (7) shapes x 5 spacings (incl. descending) x metres/km/lat-lon x 2 orders x single masked points"),
        Section("circular", cases_wrap, check_wrap, "4 sizes x 2 x 3 origins x 2 orders x 5 masks"),
    ]


if __name__ == "__main__":
    main(globals())
