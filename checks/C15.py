"""C15: occurrence within a vicinity."""
import itertools

from mc import Section, Violation, expect, expect_close, expect_same, main, raises

PROPERTY = "C15"


def vicinity_max(f, mask, r, land):
    """Maximum over the square of radius r of unmasked points (of the same surface), masked points keep their value."""
    ny, nx = f.shape
    out = f.copy()
    for y in range(ny):
        for x in range(nx):
            if mask[y, x]:
                continue
            best = None
            for yy in range(max(0, y - r), min(ny, y + r + 1)):
                for xx in range(max(0, x - r), min(nx, x + r + 1)):
                    if mask[yy, xx] or (land is not None and land[yy, xx] != land[y, x]):
                        continue
                    if best is None or f[yy, xx] > best:
                        best = f[yy, xx]
            out[y, x] = best
    return out


DTYPES = ["float32", "float64", "int8", "int16", "int32", "int64", "uint8", "bool"]


def cases_arrays(tier):
    shapes = [(1, 1), (1, 4), (3, 3), (2, 4), (4, 5)] + ([(5, 5), (6, 3)] if tier != "quick" else [])
    for shp in shapes:
        for r in (0, 1, 2, 3):
            for dt in DTYPES:
                for mk in (None, "first", "stripe", "most", "none-masked"):
                    for land in (None, "split", "checker", "all", "none"):
                        yield [list(shp), r, dt, mk, land]


def pattern(kind, ny, nx):
    import numpy as np

    k = np.arange(ny * nx).reshape(ny, nx)
    y, x = np.mgrid[0:ny, 0:nx]
    return {"first": k == 0, "stripe": x % 2 == 1, "most": k % 4 != 1, "none-masked": k < 0, "split": x > nx // 2 - 1, "checker": (x + y) % 2 == 0,
            "all": k >= 0, "none": k < 0}[kind]


def check_arrays(case, cov):
    import numpy as np
    import cubes
    from improver.utilities.spatial import maximum_within_vicinity

    (ny, nx), r, dt, mk, land = case
    n = ny * nx
    for variant in range(4):
        if variant == 3:
            raw = -1 - np.arange(n) * 3 % 50  # negative values only
        else:
            raw = [(np.arange(n) * 7) % 19, np.arange(n)[::-1], np.arange(n) == n // 2][variant]
        if dt in ("uint8", "bool") and variant == 3:
            continue
        f = raw.reshape(ny, nx).astype(dt)
        mask = pattern(mk, ny, nx) if mk else np.zeros((ny, nx), bool)
        lm = pattern(land, ny, nx) if land else None
        arg = np.ma.array(f, mask=mask.copy()) if mk else f
        with cubes.Unchanged(arg, lm):
            out = maximum_within_vicinity(arg, r, lm)
        want = vicinity_max(f, mask, r, lm)
        expect_same(np.ma.getmaskarray(out) if mk else np.zeros_like(mask), mask, "mask (%s)" % variant)
        expect_same(np.asarray(np.ma.getdata(out))[~mask], want[~mask], "maximum in vicinity, variant %d" % variant)
        expect(out.dtype == f.dtype, "dtype", f.dtype, out.dtype)
        cov.step()
        cov.trace()
    return dt


LEADS = [[], ["realization"], ["threshold"], ["realization", "threshold"], ["threshold", "time"], ["threshold1"]]


def cases_cubes(tier):
    for lead in LEADS:
        for radii in ([2000.0], [2000.0, 4000.0], [5999.0], [4000.0, 2000.0, 8000.0], [1], [0], [1, 2], [2, 0, 1]):
            for land in (None, "split", "checker"):
                for mk in (None, "first", "stripe"):
                    for spatial in ("equalarea", "latlon"):
                        if spatial == "latlon" and radii[0] > 100:
                            continue
                        yield [lead, radii, land, mk, spatial]


def build(lead, ny, nx, mk, spatial):
    import numpy as np
    import cubes

    sizes = {"realization": 2, "threshold": 2, "time": 2, "threshold1": 1}
    shp = [sizes[k] for k in lead] + [ny, nx]
    n = int(np.prod(shp))
    data = (((np.arange(n) * 11) % 23) / 23.0).reshape(shp).astype(np.float32)
    if mk:
        data = np.ma.array(data, mask=np.broadcast_to(pattern(mk, ny, nx), shp).copy())
    kw = dict(spatial=spatial, spacing=2000.0 if spatial == "equalarea" else 0.5)
    leading = []
    for k in lead:
        if k == "time":
            leading.append(("time", [cubes.T0 + 3600, cubes.T0 + 7200], cubes.EPOCH))
        elif k == "realization":
            leading.append(("realization", [0, 1], "1"))
        else:
            leading.append(("precipitation_rate", [0.5, 1.5][:sizes[k]], "mm h-1", np.float32, {"spp__relative_to_threshold": "greater_than"}, True))
    isp = any(k.startswith("threshold") for k in lead)
    return cubes.grid(data, name="probability_of_precipitation_rate_above_threshold" if isp else "precipitation_rate", units="1" if isp else "mm h-1", leading=leading, **kw)


def check_cubes(case, cov):
    import numpy as np
    import cubes
    from improver.utilities.spatial import OccurrenceWithinVicinity

    lead, radii, land, mk, spatial = case
    ny, nx = 4, 5
    cube = build(lead, ny, nx, mk, spatial)
    native = radii[0] < 100
    lc = None
    if land:
        kw = dict(spatial=spatial, spacing=2000.0 if spatial == "equalarea" else 0.5)
        lc = cubes.grid(pattern(land, ny, nx).astype(np.int8), name="land_binary_mask", time=None, **kw)
    plugin = OccurrenceWithinVicinity(**({"grid_point_radii": radii} if native else {"radii": radii}), land_mask_cube=lc)
    with cubes.Unchanged(cube, lc):
        out = plugin(cube)
        again = plugin(cube)
    cubes.expect_cube(again, out, "second use of the plugin")
    cells = [int(r) if native else int(r // 2000) for r in radii]
    mask = pattern(mk, ny, nx) if mk else np.zeros((ny, nx), bool)
    lm = pattern(land, ny, nx) if land else None
    flat = np.ma.getdata(cube.data).reshape(-1, ny, nx)
    order = sorted(range(len(radii)), key=lambda i: radii[i])
    nlead = cube.shape[:-2]
    parts = [np.stack([vicinity_max(f, mask, cells[i], lm) for f in flat]).reshape(cube.shape) for i in order]
    if len(radii) > 1:
        want = np.stack(parts, axis=len(nlead))
        dims = [c.name() for c in cube.coords(dim_coords=True)]
        dims.insert(len(nlead), "radius_of_vicinity")
    else:
        want, dims = parts[0], [c.name() for c in cube.coords(dim_coords=True)]
    expect([c.name() for c in out.coords(dim_coords=True)] == dims, "dimensions", dims, [c.name() for c in out.coords(dim_coords=True)])
    if mk:
        want = np.ma.array(want, mask=np.broadcast_to(mask, want.shape))
    expect_same(out.data, want, "vicinity field")
    v = out.coord("radius_of_vicinity")
    expect_close(v.points, sorted(radii), "radii")
    expect(str(v.units) == ("1" if native else "m") and bool(v.attributes) == native, "radius metadata", got=(str(v.units), v.attributes))
    isp = any(k.startswith("threshold") for k in lead)
    nm = "probability_of_precipitation_rate_in_vicinity_above_threshold" if isp else "precipitation_rate_in_vicinity"
    expect(out.name() == nm, "name", nm, out.name())
    got = cubes.describe(out, data=False)
    ref = cubes.describe(cube, data=False)
    for k in ref["coords"]:
        expect(k in got["coords"], "coordinate %s lost" % k)
        r = cubes.diff(got["coords"][k][0], ref["coords"][k][0])
        expect(r is None, "coordinate %s: %s" % (k, r))
    expect(set(got["coords"]) == set(ref["coords"]) | {"radius_of_vicinity"}, "coordinates", got=sorted(got["coords"]))
    cov.step(2)
    return "%d/%s" % (len(radii), nm)


def cases_refuse(tier):
    return ["both", "neither", "negative", "negative-cells", "small", "maskname", "maskgrid", "uneven", "zero-metres"]


def check_refuse(case, cov):
    import numpy as np
    import cubes
    from improver.utilities.spatial import OccurrenceWithinVicinity as O

    cube = build(["threshold"], 4, 5, None, "equalarea")
    lm = cubes.grid(np.ones((4, 5), np.int8), name="land_binary_mask", time=None)
    f = {
        "both": lambda: O(radii=[2000.0], grid_point_radii=[1]), "neither": lambda: O(), "negative": lambda: O(radii=[2000.0, -1.0]),
        "negative-cells": lambda: O(grid_point_radii=[1, -1]), "small": lambda: O(radii=[1999.0])(cube),
        "maskname": lambda: O(radii=[2000.0], land_mask_cube=cubes.grid(np.ones((4, 5), np.int8), name="land_sea", time=None)),
        "maskgrid": lambda: O(radii=[2000.0], land_mask_cube=cubes.grid(np.ones((4, 5), np.int8), name="land_binary_mask", time=None, origin=(10.0, 0.0)))(cube),
        "uneven": lambda: O(radii=[2000.0])(uneven(cube)),
        "zero-metres": lambda: O(radii=[2000.0, 0.0])(cube),
    }[case]
    exc = raises(f)
    expect(isinstance(exc, ValueError), "not refused: " + case, "ValueError", exc)
    return case


def uneven(cube):
    c = cube.copy()
    p = c.coord(axis="x").points.copy()
    p[-1] += 500
    c.coord(axis="x").bounds = None
    c.coord(axis="x").points = p
    return c


def cases_command(tier):
    return list(itertools.product([[2000.0], [2000.0, 4000.0]], [["threshold"], ["realization", "threshold"], []]))


def check_command(case, cov):
    import cubes
    from improver.cli import command_executor as run
    from improver.utilities.spatial import OccurrenceWithinVicinity

    radii, lead = case
    cube = build(lead, 4, 5, None, "equalarea")
    out = run("improver", "vicinity", cube, ",".join(map(str, radii)))
    cubes.expect_cube(out, OccurrenceWithinVicinity(radii=radii)(cube), "command against plugin", ignore=("attributes.title",))
    return "ok"


def cases_update(tier):
    return list(itertools.product([None, "new_rate"], [None, 3000.0], [False, True], [True, False]))


def check_update(case, cov):
    """update_name_and_vicinity_coord: the recorded radius follows what is known about the sources."""
    import cubes
    from improver.utilities.spatial import OccurrenceWithinVicinity, update_name_and_vicinity_coord

    name, radius, had, isp = case
    cube = build(["threshold"] if isp else [], 4, 5, None, "equalarea")
    if not isp and name:
        return "n/a"
    if had:
        cube = OccurrenceWithinVicinity(radii=[2000.0])(cube)
    data = cube.data.copy()
    old = cube.name()
    update_name_and_vicinity_coord(cube, ("new_rate" + ("_in_vicinity" if had else "")) if name else None, radius)
    expect_same(cube.data, data, "data")
    v = cube.coords("radius_of_vicinity")
    if radius:
        expect(len(v) == 1 and v[0].points[0] == 3000.0 and str(v[0].units) == "m", "radius", 3000.0, v)
        expect(("comment" in v[0].attributes) == (not had), "maximum comment", not had, v[0].attributes)
    else:
        expect(len(v) == int(had), "radius coordinate", int(had), v)
    if name:
        full = "probability_of_new_rate%s_above_threshold" % ("_in_vicinity" if had else "")
        expect(cube.name() == full and cube.coords("new_rate"), "new name", got=cube.name())
        expect(cube.coord("new_rate").var_name == "threshold", "threshold var_name")
    else:
        expect(cube.name() == old, "name", old, cube.name())
    return "ok"


def sections():
    import improver.utilities.spatial  # noqa

    return [
        Section("arrays", cases_arrays, check_arrays, "5 (7) shapes x 4 radii x 8 dtypes x 5 masks x 5 land masks x 4 fields"),
        Section("cubes", cases_cubes, check_cubes, "6 leading dimensions x 8 radius lists x 3 land masks x 3 masks x 2 grids"),
        Section("refusals", cases_refuse, check_refuse, "9 kinds"),
        Section("command", cases_command, check_command, "6 command lines"),
        Section("metadata", cases_update, check_update, "16 combinations"),
    ]


if __name__ == "__main__":
    main(globals())
