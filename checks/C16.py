"""C16: regridding - bilinear and nearest, with and without land-sea masks."""
import itertools

from mc import Section, Violation, expect, expect_close, expect_same, main, raises

PROPERTY = "C16"


def latlon(data, lat0, lon0, dlat, dlon, name="air_temperature", units="K", leading=(), **kw):
    import cubes

    return cubes.grid(data, name=name, units=units, spatial="latlon", spacing=(dlat, dlon), origin=(lat0, lon0), leading=leading, **kw)


def ecef(lat, lon):
    import numpy as np

    a, f = 6378137.0, 1 / 298.257223563
    e2 = f * (2 - f)
    p, l = np.deg2rad(lat), np.deg2rad(lon)
    n = a / np.sqrt(1 - e2 * np.sin(p) ** 2)
    return np.array([n * np.cos(p) * np.cos(l), n * np.cos(p) * np.sin(l), n * (1 - e2) * np.sin(p)])


class Grid:
    def __init__(self, lat0, lon0, dlat, dlon, ny, nx):
        self.lat0, self.lon0, self.dlat, self.dlon, self.ny, self.nx = lat0, lon0, dlat, dlon, ny, nx
        self.pts = [(lat0 + dlat * j, lon0 + dlon * i) for j in range(ny) for i in range(nx)]
        self.xyz = [ecef(*p) for p in self.pts]

    def cell(self, lat, lon):
        """Corners (ll, ul, ur, lr) of the cell holding a point and the fractions (fy, fx); None outside."""
        eps = 1e-4
        y, x = (lat - self.lat0) / self.dlat, (lon - self.lon0) / self.dlon
        if not (-eps <= y <= self.ny - 1 + eps and -eps <= x <= self.nx - 1 + eps):
            return None
        j, i = min(max(int(y + 1e-7), 0), self.ny - 2), min(max(int(x + 1e-7), 0), self.nx - 2)
        k = j * self.nx + i
        return [k, k + self.nx, k + self.nx + 1, k + 1], y - j, x - i

    def nearest(self, lat, lon, k):
        import numpy as np

        p = ecef(lat, lon)
        d = [float(np.sqrt(((q - p) ** 2).sum())) for q in self.xyz]
        order = sorted(range(len(d)), key=lambda m: d[m])[:k]
        return order, [d[m] for m in order]


def bilinear(c):
    (idx, fy, fx) = c
    return dict(zip(idx, [(1 - fy) * (1 - fx), fy * (1 - fx), fy * fx, (1 - fy) * fx]))


def idw(idx, dist):
    w = [(d + 1.2e-7) ** -1.8 for d in dist]
    s = sum(w)
    return {i: x / s for i, x in zip(idx, w)}


def planar(c, bad):
    """Weights of the plane through the three corners other than ``bad``, or None if that extrapolates."""
    idx, fy, fx = c
    w = {0: [0, 1 - fx, fy + fx - 1, 1 - fy], 1: [1 - fx, 0, fy, fx - fy], 2: [1 - fy - fx, fy, 0, fx], 3: [1 - fy, fy - fx, fx, 0]}[bad]
    return None if min(w) < -1e-7 else dict(zip(idx, w))


def model_weights(g, lat, lon, mode, src, land, vicinity):
    """{source point: weight} documented for one target point; src: source land flags, land: the target's."""
    c = g.cell(lat, lon)
    if c is None:
        return None
    idx, fy, fx = c
    if mode == "bilinear-2":
        return bilinear(c)
    if mode == "nearest-2":
        return {idx[min(range(4), key=lambda m: (g.pts[idx[m]][0] - lat) ** 2 + (g.pts[idx[m]][1] - lon) ** 2)]: 1.0}
    same = [src[i] == land for i in idx]
    if mode == "nearest-with-mask-2":
        if all(same):
            return model_weights(g, lat, lon, "nearest-2", src, land, vicinity)
        near, dist = g.nearest(lat, lon, 4)
        for i in near:
            if src[i] == land:
                return {i: 1.0}
        for i, d in zip(*g.nearest(lat, lon, 8)):
            if src[i] == land and d <= vicinity:
                return {i: 1.0}
        return {near[0]: 1.0}
    if all(same):
        return bilinear(c)
    if sum(same) == 3:
        w = planar(c, same.index(False))
        if w:
            return w
    if sum(same) > 0:
        near = [(i, d) for i, d in zip(*g.nearest(lat, lon, 4)) if src[i] == land]
        if near:
            return idw([i for i, _ in near], [d for _, d in near])
    near = [(i, d) for i, d in zip(*g.nearest(lat, lon, 8)) if src[i] == land and d <= vicinity][:4]
    if near:
        return idw([i for i, _ in near], [d for _, d in near])
    return bilinear(c)


def apply(weights, flat):
    """flat: (fields, npoints)."""
    import numpy as np

    out = np.full((len(flat), len(weights)), np.nan)
    for k, w in enumerate(weights):
        if w is not None:
            out[:, k] = sum(flat[:, i].astype(float) * x for i, x in w.items())
    return out


def fields(n):
    import numpy as np

    f = np.zeros((n + 1, n), np.float32)
    for k in range(n):
        f[k, k] = 1.0
    f[n] = 273.0
    return f


# ------------------------------------------------------------------ without masks: every position of a target in the cells
def cases_plain(tier):
    src = [(0.0, 0.0, 1.0, 1.0, 3, 3), (50.0, -3.0, 0.1, 0.2, 4, 3), (-1.0, 10.0, 0.5, 0.25, 3, 5), (10.0, 20.0, 0.3, 0.3, 2, 2)]
    if tier != "quick":
        src += [(0.0, 0.0, 0.1, 0.1, 6, 6), (-40.0, 100.0, 2.0, 3.0, 5, 4), (0.0, -5.0, 0.7, 0.35, 8, 8)]
    for s in src:
        for mode in ("bilinear-2", "nearest-2"):
            for offy, offx in itertools.product([-0.5, 0.0, 0.3, 0.75], repeat=2):
                for step in (1.0, 0.5, 0.37):
                    for flip in ("", "y", "x", "yx"):
                        yield [s, mode, offy, offx, step, flip]


def check_plain(case, cov):
    import numpy as np
    import cubes
    from improver.regrid.landsea import RegridLandSea

    s, mode, offy, offx, step, flip = case
    lat0, lon0, dlat, dlon, ny, nx = s
    g = Grid(*s)
    f = fields(ny * nx)
    cube = latlon(f.reshape(-1, ny, nx), lat0, lon0, dlat, dlon, leading=[("realization", range(len(f)), "1")], attributes={"source": "s"})
    if "y" in flip:
        cube = cube[:, ::-1]
    if "x" in flip:
        cube = cube[:, :, ::-1]
    my = int((ny - 1 - offy) / step + 1e-6) + (1 if offy <= 0 else 2)
    mx = int((nx - 1 - offx) / step + 1e-6) + (1 if offx <= 0 else 2)
    my, mx = max(my, 2), max(mx, 2)
    target = latlon(np.zeros((my, mx), np.float32), lat0 + offy * dlat, lon0 + offx * dlon, step * dlat, step * dlon, name="land_binary_mask", time=None,
                    attributes={"mosg__grid_domain": "target"})
    with cubes.Unchanged(cube, target):
        out = RegridLandSea(mode)(cube, target)
    tl = target.coord(axis="y").points.astype(float), target.coord(axis="x").points.astype(float)
    pts = [(a, b) for a in tl[0] for b in tl[1]]
    got = np.ma.filled(out.data, np.nan).reshape(len(f), -1)
    for k, (a, b) in enumerate(pts):
        y, x = (a - lat0) / dlat, (b - lon0) / dlon
        edge = any(abs(v) < 1e-4 or abs(v - m) < 1e-4 for v, m in ((y, ny - 1), (x, nx - 1)))
        col = got[:, k]
        if edge and np.isnan(col).all():
            # float32 rounding may put a point just outside the domain
            exact = g.cell(float(np.float32(a)), float(np.float32(b)))
            la, lo = cube.coord(axis="y").points, cube.coord(axis="x").points
            inside = la.min() <= np.float32(a) <= la.max() and lo.min() <= np.float32(b) <= lo.max()
            expect(not inside, "a point on the edge of the domain is missing: %s" % ((a, b),))
            continue
        if mode == "nearest-2":
            c = g.cell(a, b)
            if c is None:
                expect(np.isnan(col).all(), "value outside the domain at %s" % ((a, b),), got=col)
                continue
            d = [((g.pts[i][0] - a) ** 2 + (g.pts[i][1] - b) ** 2, i) for i in range(ny * nx)]
            best = min(d)[0]
            ok = [i for v, i in d if v <= best * (1 + 1e-3) + 1e-9 or abs(np.sqrt(v) - np.sqrt(best)) < 2e-5]
            expect(any(np.array_equal(col, f[:, i]) for i in ok), "nearest value at %s" % ((a, b),), ok, np.flatnonzero(col[:-1]).tolist())
        else:
            w = model_weights(g, a, b, mode, None, None, None)
            if w is None:
                expect(np.isnan(col).all(), "value outside the domain at %s" % ((a, b),), got=col)
                continue
            expect_close(col[:-1], apply([w], f)[:-1, 0], "bilinear weights at %s" % ((a, b),), rtol=1e-3, atol=5e-4)
            expect_close(col[-1], 273.0, "constant field", rtol=1e-4)
    check_meta(out, cube, target)
    cov.trace(len(pts))
    return mode


def check_meta(out, cube, target):
    import cubes
    from mc import same

    for ax in "yx":
        expect(out.coord(axis=ax) == target.coord(axis=ax), "target %s coordinate" % ax, target.coord(axis=ax), out.coord(axis=ax))
    expect(out.name() == cube.name() and out.units == cube.units, "name and units")
    for c in cube.coords():
        if c.name() in (cube.coord(axis="x").name(), cube.coord(axis="y").name()):
            continue
        expect(out.coords(c.name()) and cubes.diff(cubes.describe_coord(out.coord(c.name())), cubes.describe_coord(c)) is None, "coordinate %s" % c.name())
        expect(out.coord_dims(c.name()) == cube.coord_dims(c.name()), "dimension of %s" % c.name())
    want = {k: v for k, v in cube.attributes.items() if not k.startswith("mosg__grid")}
    for k in cube.attributes:
        if k.startswith("mosg__grid") and k in target.attributes:
            want[k] = target.attributes[k]
    want["title"] = "unknown"
    got = dict(out.attributes)
    expect(got == want, "attributes", want, got)
    expect(out.cell_methods == cube.cell_methods, "cell methods", cube.cell_methods, out.cell_methods)


# ------------------------------------------------------------------ with masks: every source mask
def cases_mask(tier):
    offs = [(0.31, 0.43), (0.62, 0.17)] if tier == "quick" else [(0.31, 0.43), (0.62, 0.17), (0.13, 0.81), (0.47, 0.52)]
    for bits in range(512):
        for mode in ("nearest-with-mask-2", "bilinear-with-mask-2"):
            for off in offs:
                yield [bits, mode, off]


def check_mask(case, cov):
    import numpy as np
    import cubes
    from improver.regrid.landsea import RegridLandSea

    bits, mode, (oy, ox) = case
    g = Grid(1.0, 2.0, 1.0, 1.0, 3, 3)
    land = np.array([(bits >> k) & 1 for k in range(9)], np.int8)
    f = fields(9)
    cube = latlon(f.reshape(-1, 3, 3), 1.0, 2.0, 1.0, 1.0, leading=[("realization", range(10), "1")])
    mask = latlon(land.reshape(3, 3), 1.0, 2.0, 1.0, 1.0, name="land_binary_mask", units="1", time=None)
    for vicinity in (60000.0, 100000.0, 500000.0):
        for tl in range(2):
            tland = np.array([[tl, 1 - tl], [tl, tl]], np.int8)
            target = latlon(tland, 1.0 + oy, 2.0 + ox, 0.93, 0.91, name="land_binary_mask", units="1", time=None)
            plugin = RegridLandSea(mode, landmask=mask, landmask_vicinity=vicinity)
            with cubes.Unchanged(cube, mask, target):
                out = plugin(cube, target)
            pts = [(float(a), float(b)) for a in target.coord(axis="y").points for b in target.coord(axis="x").points]
            ws = [model_weights(g, a, b, mode, land, t, vicinity) for (a, b), t in zip(pts, tland.flat)]
            got = np.ma.filled(out.data, np.nan).reshape(10, -1)
            expect_close(got, apply(ws, f), "%s, vicinity %s, land %s -> %s" % (mode, vicinity, land.tolist(), tland.tolist()), rtol=2e-3, atol=1e-3)
            cov.step()
            cov.trace(4)
    return mode


def cases_layout(tier):
    return list(itertools.product(["nearest-2", "bilinear-2", "nearest-with-mask-2", "bilinear-with-mask-2"],
                                  [[], ["realization"], ["realization", "time"], ["height"], ["height", "realization", "time"]], [None, "one", "field"], ["latlon", "equalarea"]))


def check_layout(case, cov):
    """Leading dimensions are handled slice by slice; masked sources mask exactly the targets using them; projected targets."""
    import numpy as np
    import cubes
    from improver.regrid.landsea import RegridLandSea
    from improver.utilities.spatial import transform_grid_to_lat_lon

    mode, lead, masked, tgt = case
    sizes = {"realization": 2, "time": 3, "height": 4}
    ny, nx = 5, 4
    shp = [sizes[k] for k in lead]
    n = int(np.prod(shp + [ny, nx]))
    data = ((np.arange(n) * 37) % 101).reshape(shp + [ny, nx]).astype(np.float32) + 1
    if masked:
        m = np.zeros(data.shape, bool)
        if masked == "one":
            m[..., 2, 2] = True
        data = np.ma.array(data, mask=m)
    leading = [("time", [cubes.T0 + 3600 * i for i in (1, 2, 3)], cubes.EPOCH) if k == "time" else (k, range(sizes[k]), "1" if k == "realization" else "m") for k in lead]
    g = Grid(54.0, -3.0, 0.5, 0.6, ny, nx)
    cube = latlon(data, 54.0, -3.0, 0.5, 0.6, leading=leading, attributes={"mosg__grid_domain": "source", "mosg__model_configuration": "x", "title": "old"})
    from iris.coords import CellMethod
    cube.add_cell_method(CellMethod("mean", coords="time"))
    land = np.array([[(i * j) % 2 for i in range(nx)] for j in range(ny)], np.int8)
    if tgt == "latlon":
        target = latlon(np.array([[0, 1], [1, 0], [1, 1]], np.int8), 54.23, -2.61, 0.71, 0.77, name="land_binary_mask", units="1", time=None, attributes={"mosg__grid_domain": "t"})
        a, b = np.meshgrid(target.coord(axis="y").points, target.coord(axis="x").points, indexing="ij")
    else:
        target = cubes.grid(np.array([[0, 1], [1, 0], [1, 1]], np.int8), name="land_binary_mask", time=None, spacing=41000.0, origin=(-30000.0, 11000.0))
        a, b = transform_grid_to_lat_lon(target)
    mask = latlon(land, 54.0, -3.0, 0.5, 0.6, name="land_binary_mask", units="1", time=None)
    with cubes.Unchanged(cube, target, mask):
        out = RegridLandSea(mode, landmask=mask if "mask" in mode else None, landmask_vicinity=50000.0)(cube, target)
    ws = [model_weights(g, float(y), float(x), mode, land.ravel(), t, 50000.0) for y, x, t in zip(a.flat, b.flat, target.data.flat)]
    flat = np.ma.getdata(cube.data).reshape(-1, ny * nx)
    want = apply(ws, flat).reshape(shp + list(target.shape))
    if masked == "one":
        hit = np.array([w is None or any(i == 2 * nx + 2 and x > 1e-9 for i, x in w.items()) for w in ws]).reshape(target.shape)
        may = np.array([w is None or (2 * nx + 2) in w for w in ws]).reshape(target.shape)
        gm = np.ma.getmaskarray(out.data)
        expect(bool((gm | ~hit).all()), "a target using a masked source is not masked")
        if mode.startswith("nearest"):
            expect_same(gm, np.broadcast_to(hit, gm.shape), "mask")
        ok = ~gm
        expect_close(np.ma.getdata(out.data)[ok], want[ok], "values", rtol=2e-3, atol=1e-3)
        # masking is no wider than the surroundings of the masked point
        near = np.array([min(abs(y - 55.0) / 0.5, 9) < 2.01 and abs(x + 1.8) / 0.6 < 2.01 for y, x in zip(a.flat, b.flat)]).reshape(target.shape)
        expect(bool((~gm | near | may).all()), "points far from the masked one are masked")
    else:
        expect_close(np.ma.filled(out.data, np.nan), want, "values", rtol=2e-3, atol=1e-3)
    check_meta(out, cube, target)
    return mode


# ------------------------------------------------------------------ adjustment of nearest-neighbour results (old modes)
def cases_adjust(tier):
    for bits in range(512):
        for tbits in ((0, 511, 0b101010101, 0b000111000) if tier == "quick" else range(0, 512, 7)):
            yield [bits, tbits]


def check_adjust(case, cov):
    import numpy as np
    import cubes
    from improver.regrid.landsea import AdjustLandSeaPoints, RegridLandSea

    bits, tbits = case
    src = np.array([(bits >> k) & 1 for k in range(9)], np.int8).reshape(3, 3)
    tgt = np.array([(tbits >> k) & 1 for k in range(9)], np.int8).reshape(3, 3)
    f = np.stack([np.arange(1, 10).reshape(3, 3), 100 - 7 * np.arange(9).reshape(3, 3)]).astype(np.float32)
    cube = cubes.grid(f, leading=[("realization", [0, 1], "1")])
    sl = cubes.grid(src, name="land_binary_mask", time=None)
    tl = cubes.grid(tgt, name="land_binary_mask", time=None)
    for radius in (2000.0, 4000.0):
        r = int(radius // 2000)
        if case[0] % 2:
            out = RegridLandSea("nearest-with-mask", landmask=sl, landmask_vicinity=radius)(cube.copy(), tl)
        else:
            with cubes.Unchanged(cube, sl, tl):
                out = AdjustLandSeaPoints(vicinity_radius=radius)(cube, sl, tl)
        for y in range(3):
            for x in range(3):
                want = {(float(f[0, y, x]), float(f[1, y, x]))}
                if src[y, x] != tgt[y, x]:
                    cand = [((yy - y) ** 2 + (xx - x) ** 2, yy, xx) for yy in range(3) for xx in range(3) if src[yy, xx] == tgt[y, x]]
                    if any(abs(yy - y) <= r and abs(xx - x) <= r for _, yy, xx in cand):
                        best = min(cand)[0]
                        want = {(float(f[0, yy, xx]), float(f[1, yy, xx])) for d, yy, xx in cand if d == best}
                got = tuple(float(v) for v in out.data[:, y, x])
                expect(got in want, "value at %d,%d (land %d -> %d, radius %s)" % (y, x, src[y, x], tgt[y, x], radius), sorted(want), got)
        cov.step()
        cov.trace(9)
    return "adjusted"


def cases_refuse(tier):
    return ["mode", "no-mask", "no-mask-2", "no-mask-b2", "mask-other-grid", "mask-partial", "mask-larger", "mask-shifted", "projected-source", "command-mask-mode", "title",
            "uneven"]


def check_refuse(case, cov):
    import numpy as np
    import cubes
    from improver.cli import command_executor as run
    from improver.regrid.landsea import RegridLandSea as R

    f = np.arange(16, dtype=np.float32).reshape(4, 4)
    cube = latlon(f, 0.0, 0.0, 1.0, 1.0)
    mk = lambda ny, nx, a, b: latlon(np.ones((ny, nx), np.int8), a, b, 1.0, 1.0, name="land_binary_mask", units="1", time=None)
    target = latlon(np.ones((2, 2), np.int8), 1.2, 1.2, 1.0, 1.0, name="land_binary_mask", units="1", time=None)
    bad = {
        "mode": lambda: R("cubic"), "no-mask": lambda: R("nearest-with-mask"), "no-mask-2": lambda: R("nearest-with-mask-2"), "no-mask-b2": lambda: R("bilinear-with-mask-2"),
        "mask-other-grid": lambda: R("nearest-with-mask-2", landmask=mk(4, 4, 0.5, 0.0))(cube, target),
        "mask-partial": lambda: R("nearest-with-mask-2", landmask=mk(3, 4, 0.0, 0.0))(cube, target),
        "mask-shifted": lambda: R("bilinear-with-mask-2", landmask=mk(4, 4, 1.0, 0.0))(cube, target),
        "projected-source": lambda: R("bilinear-2")(cubes.grid(f), target),
        "command-mask-mode": lambda: run("improver", "regrid", cube, target, mk(4, 4, 0.0, 0.0), "--regrid-mode", "nearest-2"),
        "uneven": lambda: R("bilinear-2")(uneven(cube), target),
    }
    if case in bad:
        exc = raises(bad[case])
        expect(isinstance(exc, ValueError), "not refused: " + case, "ValueError", exc)
    elif case == "mask-larger":
        out = run("improver", "regrid", cube, target, mk(6, 7, -1.0, -2.0), "--regrid-mode", "nearest-with-mask-2")
        expect_close(out.data, f[1:3, 1:3], "nearest with a larger land mask")
    else:
        out = run("improver", "regrid", cube, target, "--regrid-mode", "bilinear-2", "--regridded-title", "new")
        expect(out.attributes["title"] == "Post-Processed new", "title")
        expect_close(out.data, f[1:3, 1:3] + 0.2 * 4 + 0.2, "bilinear")
    return case


def uneven(cube):
    c = cube.copy()
    p = c.coord(axis="x").points.copy()
    p[-1] += 0.5
    c.coord(axis="x").bounds = None
    c.coord(axis="x").points = p
    return c


def sections():
    import improver.regrid.landsea  # noqa

    return [
        Section("plain", cases_plain, check_plain, "4 (7) source grids x 2 modes x 16 offsets x 3 target steps x 4 axis directions, all impulses"),
        Section("masked", cases_mask, check_mask, "every 3x3 source mask x 2 modes x 2 (4) offsets x 3 vicinities x 2 target masks"),
        Section("layouts", cases_layout, check_layout, "4 modes x 5 leading dimensions x 3 data masks x 2 target projections"),
        Section("adjust", cases_adjust, check_adjust, "every 3x3 source mask x 4 (74) target masks x 2 radii"),
        Section("refusals", cases_refuse, check_refuse, "12 calls"),
    ]


if __name__ == "__main__":
    main(globals())
