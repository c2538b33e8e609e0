"""C02: what is saved is what is loaded."""
import itertools
import os

from mc import Section, Violation, expect, expect_close, main, same

PROPERTY = "C02"
ASSUMPTIONS = ["the netCDF reader and writer beneath improver are the stand-in's, on the real netCDF4/HDF5 libraries"]

KINDS = ["scalar_dims", "realization", "percentile", "prob_above", "prob_below", "spot", "spot_percentile", "height", "masked", "int", "int8",
         "eqarea", "bounds", "attrs", "methods", "real_height", "perc_time", "real_prob", "perc_prob", "all_three", "repeated_methods", "types", "prefixes", "bald",
         "real_time", "small"]


def build(kind):
    import numpy as np
    from datetime import datetime
    from iris.coords import CellMethod
    from improver.synthetic_data import set_up_test_cubes as s

    f = np.float32
    d2 = (np.arange(12, dtype=f).reshape(3, 4) * 1.5 - 3.25).astype(f)
    if kind == "scalar_dims":
        return s.set_up_variable_cube(d2)
    if kind == "realization":
        return s.set_up_variable_cube(np.stack([d2, d2 + 20]), realizations=[3, 7])
    if kind == "percentile":
        return s.set_up_percentile_cube(np.stack([d2, d2 + 20, d2 + 30]), [10, 50, 90])
    if kind.startswith("prob"):
        return s.set_up_probability_cube(
            np.stack([d2 * 0 + 1, d2 * 0 + 0.25]), np.array([273.15, 280], f), variable_name="air_temperature",
            spp__relative_to_threshold="greater_than" if kind == "prob_above" else "less_than_or_equal_to")
    if kind == "spot":
        return s.set_up_spot_variable_cube(np.array([1, 2.5, -4], f))
    if kind == "spot_percentile":
        return s.set_up_spot_percentile_cube(np.array([[1, 2.5, -4], [3, 5, 6]], f), [20, 80])
    if kind == "height":
        return s.set_up_variable_cube(np.stack([d2, d2 + 20]), height_levels=[10.0, 50.0])
    if kind == "real_height":
        return s.set_up_variable_cube(np.stack([np.stack([d2, d2 + 20])] * 3), realizations=[0, 1, 2], height_levels=[100000.0, 85000.0], pressure=True)
    if kind == "masked":
        return s.set_up_variable_cube(np.ma.masked_array(d2, mask=(np.arange(12).reshape(3, 4) % 5 == 0)))
    if kind == "int":
        return s.set_up_variable_cube(np.arange(12, dtype=np.int32).reshape(3, 4), name="weather_code", units="1")
    if kind == "int8":
        return s.set_up_variable_cube((np.arange(12).reshape(3, 4) % 2).astype(np.int8), name="land_binary_mask", units="1")
    if kind == "eqarea":
        return s.set_up_variable_cube(d2, spatial_grid="equalarea", name="lwe_precipitation_rate", units="m s-1")
    if kind == "bounds":
        c = s.set_up_variable_cube(d2, time=datetime(2017, 11, 10, 4), time_bounds=[datetime(2017, 11, 10, 3), datetime(2017, 11, 10, 4)],
                                   frt=datetime(2017, 11, 10, 0))
        return c
    if kind == "attrs":
        return s.set_up_variable_cube(d2, attributes={"title": "t", "source": "s", "institution": "i", "mosg__model_configuration": "uk_ens", "history": "h",
                                                      "a_local": "x", "um_version": "10"})
    if kind == "methods":
        c = s.set_up_variable_cube(d2)
        c.add_cell_method(CellMethod("mean", coords="time", intervals="1 hour"))
        c.add_cell_method(CellMethod("maximum", coords="realization"))
        return c
    if kind == "small":
        return s.set_up_variable_cube(d2[:2, :3])
    if kind == "repeated_methods":
        c = s.set_up_variable_cube(d2)
        for m in ("mean", "maximum", "mean"):
            c.add_cell_method(CellMethod(m, coords="realization"))
        c.add_cell_method(CellMethod("mean", coords="realization", comments="of a mean"))
        return c
    if kind == "types":
        return s.set_up_variable_cube(d2, attributes={"a_int": np.int32(5), "a_float": np.float32(2.5), "a_list": np.array([0, 1, 2], np.int8), "a_text": "x" * 300 + " y"})
    if kind == "prefixes":
        return s.set_up_variable_cube(d2, name="prefixes_of_things", units="1")
    if kind == "bald":
        return s.set_up_variable_cube(d2, attributes={"bald__other": "b", "isPrefixedBy": "c", "bald": "d"})
    import cubes

    R, P, T = ("realization", [0, 1], "1"), ("percentile", [20, 50, 80], "%"), ("time", [cubes.T0 + 3600 * k for k in range(4)], cubes.EPOCH)
    X = ("air_temperature", [273.15, 280, 285, 290, 291], "K", f, {"spp__relative_to_threshold": "greater_than"}, True)
    lead = {"perc_time": [P, T], "real_prob": [R, X], "perc_prob": [P, X], "all_three": [R, P, X], "real_time": [R, T]}[kind]
    n = [len(q[1]) for q in lead] + [3, 4]
    return cubes.grid((np.arange(int(np.prod(n))).reshape(n) / 4).astype(f), name="probability_of_air_temperature_above_threshold" if X in lead else "air_temperature",
                      units="1" if X in lead else "K", leading=lead)


IGN = ("var_name", "Conventions", "kind")


def norm(cube):
    """Expected description of a loaded cube: sorted cell methods, no var names but threshold's."""
    from cubes import describe

    d = describe(cube)
    d["cell_methods"] = sorted(d["cell_methods"])
    d["attributes"] = {k: v for k, v in d["attributes"].items() if k not in ("Conventions", "least_significant_digit")}
    for n, (c, dims) in d["coords"].items():
        c["kind"] = None
        if c["units"] in ("no_unit", "unknown"):
            c["units"] = None  # text coordinates: left to the netCDF library
    return d


def check_one(case, cov):
    """One cube of each kind, dimension order, compression, loading route."""
    import numpy as np
    from cubes import Unchanged, diff, describe
    from improver.utilities.load import load_cube, load_cubelist
    from improver.utilities.save import save_netcdf

    kind, perm, comp, route = case
    cube = build(kind)
    want_shape = cube.shape
    want = norm(cube)
    if perm:
        cube.transpose(perm)
    p = os.path.join(os.environ["VERIF_SCRATCH"], "rt.nc")
    with Unchanged(cube, ignore=("cell_methods",)):
        save_netcdf(cube, p, comp)
    if route == "cube":
        got = load_cube(p)
    elif route == "nolazy":
        got = load_cube(p, no_lazy_load=True)
        expect(not got.has_lazy_data(), "data are lazy although a full load was asked for")
    elif route == "constraint":
        got = load_cube(p, constraints=cube.name())
    elif route == "list":
        got = load_cubelist([p])
        expect(len(got) == 1, "one cube saved, %d loaded" % len(got), 1, len(got))
        got = got[0]
    elif route == "missing":
        exc = None
        try:
            load_cube(p, constraints="no_such_cube")
        except ValueError as e:
            exc = e
        expect(exc is not None, "loading with a constraint nothing matches gives no error")
        return "ValueError"
    cov.step(2)
    g = norm(got)
    for coord in got.coords():
        expect(coord.var_name in (None, "threshold"), "variable name kept on %s" % coord.name(), None, coord.var_name)
    expect(got.var_name is None, "variable name kept on cube", None, got.var_name)
    if kind.startswith("prob"):
        thr = [c for c in got.coords() if c.var_name == "threshold"]
        expect(len(thr) == 1, "the threshold coordinate lost its role", 1, len(thr))
    expect(got.shape == want_shape, "dimension order is not enforced on load", want_shape, got.shape)
    r = diff(g, want, ignore=IGN)
    expect(r is None, "loaded cube differs from the saved one: %s" % r)
    expect(g["dtype"] == want["dtype"], "dtype", want["dtype"], g["dtype"])
    cov.state(kind, perm, comp, route)
    return kind


def cases_one(tier):
    import numpy as np

    for kind in KINDS:
        n = build(kind).ndim
        spot = kind.startswith("spot")
        perms = [None] + ([] if spot else [list(p) for p in itertools.permutations(range(n)) if list(p) != list(range(n))])
        for perm in perms:
            for comp in (1,) if (tier == "quick" and perm) else range(10):
                for route in ("cube", "nolazy", "constraint", "list", "missing"):
                    if route in ("list", "missing") and comp not in (1, 9):
                        continue
                    yield [kind, perm, comp, route]


def check_lsd(case, cov):
    """Quantised saving keeps values within half of the declared precision and leaves everything else exact."""
    import numpy as np
    from cubes import diff
    from improver.utilities.load import load_cube
    from improver.utilities.save import save_netcdf

    kind, lsd, comp, twice = case
    cube = build(kind)
    want = norm(cube)
    p = os.path.join(os.environ["VERIF_SCRATCH"], "lsd.nc")
    save_netcdf(cube, p, comp, lsd)
    got = load_cube(p)
    if twice is not None:
        got.data
        save_netcdf(got, p, comp, twice)
        got = load_cube(p)
        lsd = min(lsd, twice) if lsd is not None and twice is not None else lsd
        expect(twice is None or int(got.attributes.get("least_significant_digit", twice)) == twice, "stale precision attribute", twice, got.attributes)
    g = norm(got)
    r = diff(g, want, ignore=IGN + ("data",))
    expect(r is None, "quantised save changed metadata: %s" % r)
    a, b = np.ma.getdata(got.data), np.ma.getdata(build(kind).data)
    ok = ~np.ma.getmaskarray(build(kind).data)
    tol = 0.0 if lsd is None or want["dtype"].startswith("int") else 10.0 ** -lsd
    expect(np.all(np.abs(a[ok].astype(float) - b[ok]) <= tol), "values are off by more than the declared precision", b[ok], a[ok])
    return str((lsd, twice))


def cases_lsd(tier):
    for kind in ("scalar_dims", "masked", "prob_above", "int", "realization"):
        for lsd in (None, 0, 1, 2, 4):
            for comp in (0, 1, 9):
                for twice in (None, 1, 3):
                    yield [kind, lsd, comp, twice]


LISTS = ["scalar_dims", "small", "eqarea", "prob_above", "masked", "int", "attrs", "spot", "realization"]


def check_list(case, cov):
    """Lists of cubes in one file, or one file each: all come back, whatever the order and mixture of shapes."""
    import numpy as np
    from cubes import diff
    from iris.cube import CubeList
    from improver.utilities.load import load_cubelist
    from improver.utilities.save import save_netcdf

    kinds, mode = case
    cubes = CubeList()
    for i, k in enumerate(kinds):
        c = build(k)
        c.rename("field_%d" % i)
        cubes.append(c)
    wants = {c.name(): norm(c) for c in cubes}
    d = os.environ["VERIF_SCRATCH"]
    if mode == "one_file":
        p = os.path.join(d, "list.nc")
        save_netcdf(cubes, p)
        got = load_cubelist(p)
    elif mode == "plain_list":
        p = os.path.join(d, "list.nc")
        save_netcdf(list(cubes), p, 0)
        got = load_cubelist([p])
    else:
        ps = []
        for i, c in enumerate(cubes):
            ps.append(os.path.join(d, "l%d.nc" % i))
            save_netcdf(c, ps[-1])
        got = load_cubelist(ps)
        expect([c.name() for c in got] == [c.name() for c in cubes], "order of files is not kept", list(wants), [c.name() for c in got])
    cov.step(2)
    expect(sorted(c.name() for c in got) == sorted(wants), "cubes lost or duplicated", sorted(wants), sorted(c.name() for c in got))
    for c in got:
        r = diff(norm(c), wants[c.name()], ignore=IGN + (("attributes",) if mode != "files" else ()))
        expect(r is None, "cube %s differs after loading: %s" % (c.name(), r))
        if mode != "files":
            for k, v in wants[c.name()]["attributes"].items():
                if k.startswith("a_") or len({str(w["attributes"].get(k)) for w in wants.values()}) == 1:
                    expect(c.attributes.get(k) == v, "attribute %s lost" % k, v, c.attributes.get(k))
    return str(len(kinds))


def cases_list(tier):
    for n in (1, 2, 3):
        ks = LISTS if n < 3 else (LISTS[:4] if tier == "quick" else LISTS)
        for kinds in itertools.product(ks, repeat=n):
            for mode in ("one_file", "plain_list", "files"):
                yield [list(kinds), mode]


def check_merge(case, cov):
    """load_cube on several files merges them along the coordinate that differs, in value order."""
    import numpy as np
    from datetime import datetime
    from improver.utilities.load import load_cube
    from improver.utilities.save import save_netcdf
    from improver.synthetic_data.set_up_test_cubes import set_up_variable_cube

    order, what = case[:2]
    paths, fields = [], {}
    for k in order:
        data = np.full((3, 4), k, np.float32)
        kw = {"time": datetime(2017, 11, 10, 4 + k if what == "time" else 4), "frt": datetime(2017, 11, 10, 0)}
        c = set_up_variable_cube(data, attributes={"title": "t%d" % k, "source": "s"}, **kw)
        if what == "realization":
            from iris.coords import DimCoord

            c.add_aux_coord(DimCoord(np.int32(k), "realization", units="1"))
        p = os.path.join(os.environ["VERIF_SCRATCH"], "m%d.nc" % k)
        save_netcdf(c, p)
        paths.append(p)
    if case[2:]:  # a cube of that name is left out
        q = set_up_variable_cube(np.zeros((3, 4), np.float32), name="prefixes", units="1")
        p = os.path.join(os.environ["VERIF_SCRATCH"], "prefixes.nc")
        save_netcdf(q, p)
        paths.append(p)
        save_netcdf([q, c], paths[-2])
        from improver.utilities.load import load_cubelist

        names = [z.name() for z in load_cubelist(paths)]
        expect("prefixes" not in names and len(names) == len(order), "cubes named prefixes are left out", len(order), names)
        save_netcdf(c, paths.pop(-2))
        paths[-1] = os.path.join(os.environ["VERIF_SCRATCH"], "m%d.nc" % k)
        cov.step(3)
    got = load_cube(paths if len(paths) > 1 else paths[0])
    cov.step(1)
    ks = sorted(order)
    if len(ks) == 1:
        expect(got.shape == (3, 4) and np.all(got.data == ks[0]), "single file", ks, got.data)
        return "1"
    expect(got.shape == (len(ks), 3, 4), "merged shape", (len(ks), 3, 4), got.shape)
    expect([float(x) for x in got.data[:, 0, 0]] == [float(k) for k in ks], "merged order", ks, got.data[:, 0, 0])
    expect("title" not in got.attributes and got.attributes.get("source") == "s", "merged attributes", {"source": "s"}, dict(got.attributes))
    return str(len(ks))


def cases_merge(tier):
    for n in (1, 2, 3, 4):
        for order in itertools.permutations(range(4), n):
            for what in ("time", "realization"):
                yield [list(order), what]
    for n in (1, 2, 3):
        yield [list(range(n)), "realization", "prefixes"]
    for n in (11, 17, 26):
        for r in (1, 3, 5):
            yield [sorted(range(n), key=lambda k: (k * 7 * r) % n), "realization"]


def sections():
    import improver.utilities.save  # noqa
    import improver.utilities.load  # noqa

    return [
        Section("round_trip", cases_one, check_one, "26 cube kinds x every dimension order x compression x 5 loading routes"),
        Section("precision", cases_lsd, check_lsd, "5 kinds x 5 precisions x 3 compressions x re-save at another precision"),
        Section("lists", cases_list, check_list, "all lists of up to 3 cubes over 9 (3 cubes, quick: 4) kinds x one file / file each"),
        Section("merging", cases_merge, check_merge, "every ordered selection of up to 4 files"),
    ]


if __name__ == "__main__":
    main(globals())
