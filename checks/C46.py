"""C46: synthetic cubes and the metadata interpreter."""
import itertools
import math

from mc import Section, Violation, expect, expect_close, expect_same, main, raises

PROPERTY = "C46"
MAND = {"title": "T", "source": "S", "institution": "I"}
EPOCH = "seconds since 1970-01-01 00:00:00"
GRID = {"latlon": ("latitude", "longitude", "degrees", 10.0), "equalarea": ("projection_y_coordinate", "projection_x_coordinate", "m", 2000.0)}
H = 3600
T0 = 1510272000  # 2017-11-10 00:00


def dt(s):
    from datetime import datetime, timedelta

    return datetime(1970, 1, 1) + timedelta(seconds=s)


def judge(c, shape, name, units, dims, sizes, leading, grid, spacing, corner, t, fr, bounds, blend, attributes, scalars=()):
    """leading: {name: (points, units, attributes, var_name, dtype)} dimensions or scalars."""
    import numpy as np

    f = np.float32
    expect(c.shape == tuple(shape), "shape", tuple(shape), c.shape)
    expect(c.name() == name and str(c.units) == units, "name and units", (name, units), (c.name(), c.units))
    expect([d.name() for d in c.coords(dim_coords=True)] == list(dims), "dimensions", dims, [d.name() for d in c.coords(dim_coords=True)])
    expect(c.attributes == attributes, "attributes", attributes, c.attributes)
    names = set()
    for n, (pts, un, at, var, ty) in leading.items():
        k = c.coord(n)
        names.add(n)
        expect_close(k.points.astype(float), np.array(pts, float), "points of " + n, rtol=1e-6)
        expect(str(k.units) == un and k.attributes == at and k.var_name == var and k.dtype == ty, "description of " + n, (un, at, var, ty), (k.units, k.attributes, k.var_name, k.dtype))
    if grid:
        yn, xn, un, ds = GRID[grid]
        for n, m, s, o in zip((yn, xn), sizes, spacing or (None, None), corner or (None, None)):
            s = ds if s is None else s
            o = -(m - 1) * s / 2.0 if o is None else o
            k = c.coord(n)
            names.add(n)
            expect_close(k.points, o + s * np.arange(m), "points of " + n, rtol=1e-5, atol=1e-3 if grid == "equalarea" else 1e-4)
            if m > 1:
                expect_close(k.bounds, np.stack([o + s * (np.arange(m) - 0.5), o + s * (np.arange(m) + 0.5)], axis=1), "bounds of " + n, rtol=1e-4, atol=1e-2 if grid == "equalarea" else 1e-3)
            else:
                expect(k.bounds is None, "no bounds for a single point", got=k.bounds)
            expect(str(k.units) in (un, "metres") and k.dtype == f and k.coord_system is not None, "description of " + n, got=(k.units, k.dtype, k.coord_system))
    ref = fr if fr is not None else blend
    want = {"time": (t, bounds, np.int64, EPOCH), "forecast_period": (t - ref, None if bounds is None else [b - ref for b in bounds], np.int32, None)}
    if fr is not None:
        want["forecast_reference_time"] = (fr, None, np.int64, EPOCH)
    if blend is not None:
        want["blend_time"] = (blend, None, np.int64, EPOCH)
    for n, (p, b, ty, un) in want.items():
        k = c.coord(n)
        names.add(n)
        expect(k.points.tolist() == [p] and k.dtype == ty, "value of " + n, p, k.points)
        expect((k.bounds is None) if b is None else (k.bounds is not None and k.bounds.tolist() == [list(b)] and k.bounds.dtype == ty), "bounds of " + n, b, k.bounds)
        expect(str(k.units) == (un or str(k.units)) and (un or str(k.units) in ("s", "seconds")), "units of " + n, got=k.units)
    names |= set(scalars)
    expect({k.name() for k in c.coords()} == names, "no other coordinates", names, {k.name() for k in c.coords()})


# ------------------------------------------------------------ building blocks
TIMES = [(4 * H, 0, None, None), (4 * H, 4 * H, None, None), (12 * H, 0, (11 * H, 12 * H), None), (12 * H, 0, (12 * H, 6 * H), None), (3 * H, None, None, 0), (30 * H, 2 * H, (27 * H, 30 * H), 2 * H), (5 * H, 0, (5 * H, 7 * H), None)]
LAY = [("yx", None, None), ("r", None, None), ("r", [4, 7], None), ("h", None, [10.0, 20.0, 30.0]), ("p", None, [100000.0, 85000.0, 5000.0]), ("rh", None, [1.5, 10.0, 20.0]), ("rp", [2, 5], [900.0, 800.0, 700.0]), ("h", None, [7.0])]


def c_build(tier):
    for kind in ("variable", "percentile", "probability", "spot", "spot_percentile", "spot_probability"):
        for l in range(len(LAY)):
            for t in range(len(TIMES)):
                for g in range(6 if "spot" not in kind else 2):
                    yield (kind, l, t, g)
    for k in range(16):
        yield ("bad", k, 0, 0)
    for k in range(9):
        for g in range(2):
            yield ("add", k, g, 0)


REL = ["greater_than", "greater_than_or_equal_to", "less_than", "less_than_or_equal_to", "above", "below"]


def build(case, cov):
    import cubes
    import numpy as np
    from improver.synthetic_data import set_up_test_cubes as S
    from iris.coords import AuxCoord, DimCoord

    kind, l, t, g = case
    f = np.float32
    if kind == "bad":
        d2, d3, d4, d5 = (np.zeros((2, 3, 4, 5, 6)[-n:], f) for n in (2, 3, 4, 5))
        V = S.set_up_variable_cube
        tests = [lambda: V(d3, realizations=[0, 1]), lambda: V(d4), lambda: V(d4, realizations=[0, 1, 2]), lambda: V(d5), lambda: V(d3, realizations=[0, 1, 2], height_levels=[1, 2, 3]), lambda: V(d2, spatial_grid="stereo"),
                 lambda: V(d2, time=dt(T0), frt=dt(T0 + H)), lambda: V(d2, time=dt(T0), frt=dt(T0), time_bounds=(dt(T0 + 1), dt(T0 + H))), lambda: V(d2, time=dt(T0 + H), frt=dt(T0), blend_time=dt(T0 + 1)), lambda: S.construct_scalar_time_coords(dt(T0)),
                 lambda: S.set_up_probability_cube(d3, [1.0, 2, 3, 4], spp__relative_to_threshold="equal"), lambda: S.set_up_percentile_cube(d3, [10.0]), lambda: S.set_up_spot_variable_cube(d2[0], unique_site_id=range(6)), lambda: V(d2.astype(np.float64)),
                 lambda: S.set_up_spot_variable_cube(d4, height_levels=None), lambda: V(d3, height_levels=[1.0, 2.0])]
        expect(raises(tests[l]), "impossible choices are refused", got=l)
        cov.step()
        return "refused"
    if kind == "add":
        c = S.set_up_variable_cube(np.arange(6, dtype=f).reshape(2, 3), frt=dt(T0), time=dt(T0 + 6 * H), spatial_grid=["latlon", "equalarea"][t])
        if l < 3:
            n = l + 1
            pts = [5.0 * k + 1 for k in range(n)]
            with cubes.Unchanged(c):
                r = S.add_coordinate(c, pts, "height", "m", attributes={"positive": "up"})
            k = r.coord("height")
            expect(k.points.tolist() == pts and k.dtype == f and k.attributes == {"positive": "up"} and str(k.units) == "m", "coordinate added", got=k)
            expect(r.shape == ((n, 2, 3) if n > 1 else (2, 3)) and r.coord_dims("height") == ((0,) if n > 1 else ()), "leading dimension", got=r.shape)
            expect_same(np.broadcast_to(c.data, r.shape), r.data, "data")
        elif l < 6:
            ts = [T0 + (6 + q) * H for q in range(l - 2)]
            with cubes.Unchanged(c):
                r = S.add_coordinate(c, [dt(q) for q in ts], "time", is_datetime=True)
            expect(r.coord("time").points.tolist() == ts and r.coord("time").dtype == np.int64, "times", ts, r.coord("time").points)
            expect(r.coord("forecast_period").points.tolist() == [q - T0 for q in ts] and r.coord("forecast_period").dtype == np.int32, "forecast periods follow", got=r.coord("forecast_period").points)
            expect(r.coord_dims("time") == r.coord_dims("forecast_period") == ((0,) if len(ts) > 1 else ()), "on the same dimension")
        elif l == 6:
            r = S.add_coordinate(c, [0, 1], "realization", "1", dtype=np.int32, order=[1, 0, 2])
            expect(r.shape == (2, 2, 3) and r.coord_dims("realization") == (1,) and r.coord("realization").dtype == np.int32, "order asked for", got=r.coord_dims("realization"))
        elif l == 7:
            fs = [T0, T0 + H]
            r = S.add_coordinate(c, [dt(q) for q in fs], "forecast_reference_time", is_datetime=True)
            expect(sorted(r.coord("forecast_reference_time").points.tolist()) == fs, "reference times", got=r.coord("forecast_reference_time").points)
            expect((r.coord("forecast_reference_time").points + r.coord("forecast_period").points == T0 + 6 * H).all(), "forecast periods follow", got=r.coord("forecast_period").points)
        else:
            r = S.add_coordinate(S.add_coordinate(c, [1.0, 2.0], "height", "m"), [3.0, 4.0, 5.0], "height", "m") if False else S.add_coordinate(c, [273.0, 274.0], "air_temperature", "K")
            expect(r.coord("air_temperature").points.tolist() == [273.0, 274.0] and r.coord("air_temperature").standard_name == "air_temperature", "name", got=r.coord("air_temperature"))
        cov.step()
        return "add"
    form, rel, lev = LAY[l]
    tt, fr, bd, bl = TIMES[t]
    spot = kind.startswith("spot")
    base = kind.split("_")[-1] if spot and "_" in kind else ("variable" if spot else kind)
    grid = ["latlon", "equalarea"][g % 2]
    sizes = [(3, 4), (1, 3), (2, 1)][g // 2]
    spacing = [None, (5.0, 2.0) if grid == "latlon" else (1000.0, 3000.0), (0.5, None)][(g + l) % 3]
    corner = [None, (1.0, -3.0)][(g + t) % 2]
    lead = {}
    shape = []
    dims = []
    nl = 3
    lname = {"variable": "realization", "percentile": "percentile", "probability": "wind_speed"}[base]
    if "r" in form or base != "variable":
        if base == "variable":
            nl = len(rel) if rel else 3
            rp, lt = rel or list(range(nl)), np.array(rel or [0]).dtype if rel else np.int32
            spec = (rp, "1", {}, None, np.dtype(np.int64) if rel else np.dtype(np.int32))
        elif base == "percentile":
            rp = [[10.0, 50.0, 90.0], [25.0]][t % 2 == 1 and form != "h"] if False else [10.0, 50.0, 90.0][:3 if t % 2 == 0 else 1]
            spec = (rp, "%", {}, None, f)
        else:
            rp = [1.5, 2.5, 10.0][:3 if t % 2 == 0 else 1]
            spec = (rp, "m s-1", {"spp__relative_to_threshold": REL[(l + t) % 6]}, "threshold", f)
        nl = len(rp)
        lead[lname] = spec
        shape.append(nl)
        dims.append(lname)
    if "h" in form or "p" in form:
        n = "height" if "h" in form else "pressure"
        lead[n] = (lev, "m" if n == "height" else "Pa", {"positive": "up" if n == "height" else "down"}, None, f)
        shape.append(len(lev))
        dims.append(n)
    ds = list(shape)
    if spot:
        ds.append(5)
        dims.append("spot_index")
    else:
        ds += sizes
        dims += GRID[grid][:2]
    d = np.arange(np.prod(ds)).reshape(ds).astype(f)
    kw = dict(time=dt(T0 + tt), attributes={"a": 1})
    if bd:
        kw["time_bounds"] = (dt(T0 + bd[0]), dt(T0 + bd[1]))
    if fr is not None:
        kw["frt"] = dt(T0 + fr)
    if bl is not None:
        kw["blend_time"] = dt(T0 + bl)
    if lev:
        kw["height_levels"] = np.array(lev, f)
        kw["pressure"] = "p" in form
    at = {"a": 1}
    if not spot:
        kw["spatial_grid"] = grid
        if spacing:
            kw["y_grid_spacing"], kw["x_grid_spacing"] = spacing
        if corner:
            kw["domain_corner"] = corner
        if g % 3 == 0:
            kw["standard_grid_metadata"] = "uk_ens"
            at.update(mosg__grid_type="standard", mosg__model_configuration="uk_ens", mosg__grid_domain="uk_extended", mosg__grid_version="1.3.0")
    sc = []
    if l % 2:
        kw["include_scalar_coords"] = [AuxCoord(np.array([3], f), long_name="extra", units="1")]
        sc = ["extra"]
    pre = "spot_" if spot else ""
    if spot:
        k = dict(latitudes=np.linspace(40, 44, 5).astype(f), longitudes=np.linspace(0, 4, 5).astype(f), altitudes=np.arange(5, dtype=f), wmo_ids=[3, 17, "00012", 99999, 0]) if g else {}
        if g:
            k.update(unique_site_id=range(5), unique_site_id_key="met_office_site_id")
        kw.update(k)
    if base == "variable":
        if rel:
            kw["realizations"] = rel
        c = getattr(S, "set_up_%svariable_cube" % pre)(d, name="wind_speed", units="m s-1", **kw)
    elif base == "percentile":
        c = getattr(S, "set_up_%spercentile_cube" % pre)(d, np.array(lead[lname][0], f), name="wind_speed", units="m s-1", **kw)
    else:
        kw["variable_name"] = "wind_speed" + ("_in_vicinity" if l == 2 else "")
        c = getattr(S, "set_up_%sprobability_cube" % pre)(d, np.array(lead[lname][0], f), threshold_units="m s-1", spp__relative_to_threshold=REL[(l + t) % 6], **kw)
    cov.step()
    name, un = "wind_speed", "m s-1"
    if base == "probability":
        name, un = "probability_of_%s_%s_threshold" % (kw["variable_name"], "above" if REL[(l + t) % 6] in ("greater_than", "greater_than_or_equal_to", "above") else "below"), "1"
    ws, wd = list(ds), list(dims)
    if base != "variable" and nl == 1:
        ws, wd = ws[1:], wd[1:]
    scal = set(sc)
    if spot:
        scal |= {"spot_index", "latitude", "longitude", "altitude", "wmo_id"} | ({"met_office_site_id"} if g else set())
    judge(c, ws, name, un, wd, sizes, lead, None if spot else grid, spacing, corner, T0 + tt, None if fr is None else T0 + fr, None if bd is None else sorted(T0 + b for b in bd), None if bl is None else T0 + bl, at, scal)
    expect_same(c.data, d.reshape(ws), "data")
    if spot:
        ids = c.coord("wmo_id").points.tolist()
        expect(ids == (["00003", "00017", "00012", "99999", "00000"] if g else ["%05d" % q for q in range(5)]), "station identifiers", got=ids)
        expect_close(c.coord("latitude").points, np.linspace(40, 44, 5) if g else np.linspace(50, 60, 5), "latitudes")
        expect_close(c.coord("altitude").points, np.arange(5.0) if g else np.ones(5), "altitudes")
        if g:
            u = c.coord("met_office_site_id")
            expect(u.points.tolist() == ["%08d" % q for q in range(5)] and u.attributes == {"unique_site_identifier": "true"}, "unique identifiers", got=u)
        expect(all(c.coord_dims(q) == (c.ndim - 1,) for q in ("latitude", "longitude", "altitude", "wmo_id", "spot_index")), "sites on the last dimension")
    return kind


# ------------------------------------------------------------ generate-metadata-cube
def c_gen(tier):
    for lead in (None, ("realizations", [4, 5, 6]), ("realizations", [7]), ("percentiles", [10.0, 50.0, 90.0]), ("percentiles", [50.0]), ("thresholds", [273.0, 275.5]), ("thresholds", [280.0])):
        for lev in (None, ("heights", [1.5, 10.0]), ("pressures", [90000.0, 80000.0]), ("heights", [7.0])):
            for ens in (1, 3):
                for v in range(12):
                    yield ("gen", lead and list(lead), lev and list(lev), [ens, v])
    for k in range(12):
        yield ("bad", k, 0, 0)


def gen(case, cov):
    import copy
    import cubes
    import numpy as np
    from improver.cli import generate_metadata_cube as G
    from improver.synthetic_data.generate_metadata import generate_metadata

    fn = G.process
    while hasattr(fn, "__wrapped__"):
        fn = fn.__wrapped__
    kind, lead, lev, z = case
    f = np.float32
    if kind == "bad":
        k = lead
        t = [lambda: generate_metadata({"title": "T", "source": "S"}), lambda: generate_metadata(MAND, name="nonsense"), lambda: generate_metadata(MAND, cube_type="other"), lambda: generate_metadata(MAND, spatial_grid="other"), lambda: generate_metadata(MAND, domain_corner=[0]),
             lambda: fn(MAND, json_input={"coords": {"realizations": [0], "percentiles": [50]}}), lambda: fn(MAND, json_input={"coords": {"thresholds": [0], "percentiles": [50]}}), lambda: fn(MAND, json_input={"coords": {"realizations": [0], "thresholds": [50]}}),
             lambda: fn(MAND, spatial_grid="polar"), lambda: fn({}), lambda: fn(MAND, json_input={"cube_type": "percentiles"}), lambda: fn(MAND, json_input={"time": "20171110T0000Z", "frt": "20171110T0100Z"})]
        expect(raises(t[k]), "impossible choices are refused", got=k)
        cov.step()
        return "refused"
    ens, v = z
    kw = {"npoints": 3, "ensemble_members": ens}
    js = {}
    if lead or lev:
        js["coords"] = {q[0]: q[1] for q in (lead, lev) if q}
    grid = "latlon"
    spacing, corner = (0.02, 0.02), None
    tt, fr, bd = 4 * H, 0, None
    at = dict(MAND)
    name, un = "air_temperature", "K"
    if v % 3 == 1:
        grid = kw["spatial_grid"] = "equalarea"
        spacing = (2000.0, 2000.0)
    if v % 4 == 1:
        kw["y_grid_spacing"] = spacing = 500.0
        spacing = (500.0, 0.02 if grid == "latlon" else 2000.0)
    if v % 4 == 2:
        corner = (-5.0, 3.0)
        kw["domain_corner"] = [-5.0, 3.0]
    if v % 5 == 1:
        kw["time_period"] = 90
        bd = (tt - 90 * 60, tt)
    if v % 5 == 2:
        js["time"], js["frt"] = "20171111T0600Z", "20171110T0300Z"
        tt, fr = 30 * H, 3 * H
    if v % 5 == 3:
        js["time"], js["time_bounds"] = "20171110T0900Z", ["20171110T0600Z", "20171110T0900Z"]
        tt, bd = 9 * H, (6 * H, 9 * H)
    if v % 5 == 4:
        js["time"] = "20171110T0500Z"
        kw["time_period"] = 60
        tt, bd = 5 * H, (4 * H, 5 * H)
    if v % 2:
        js["attributes"] = {"mosg__model_configuration": "uk_det"}
        at["mosg__model_configuration"] = "uk_det"
    if v % 6 == 5:
        kw["units"] = un = "degC"
    if lead and lead[0] == "thresholds" and v % 2:
        js["spp__relative_to_threshold"] = "less_than"
    man = dict(MAND)
    with cubes.Unchanged(man):
        c = fn(man, name=name, json_input=copy.deepcopy(js) or None, **kw)
    cov.step()
    L, shape, dims = {}, [], []
    if lead:
        k, p = lead
        n = {"realizations": "realization", "percentiles": "percentile", "thresholds": name}[k]
        L[n] = {"realizations": (p, "1", {}, None, np.dtype(np.int64)), "percentiles": (p, "%", {}, None, f), "thresholds": (p, un, {"spp__relative_to_threshold": js.get("spp__relative_to_threshold", "greater_than")}, "threshold", f)}[k]
        if len(p) > 1:
            shape.append(len(p))
            dims.append(n)
        if k == "thresholds":
            name, un = "probability_of_air_temperature_%s_threshold" % ("below" if v % 2 else "above"), "1"
    elif ens > 1:
        L["realization"] = (range(ens), "1", {}, None, np.dtype(np.int32))
        shape.append(ens)
        dims.append("realization")
    if lev:
        n = lev[0][:-1]
        L[n] = (lev[1], "m" if n == "height" else "Pa", {"positive": "up" if n == "height" else "down"}, None, f)
        if len(lev[1]) > 1:
            shape.append(len(lev[1]))
            dims.append(n)
    judge(c, shape + [3, 3], name, un, dims + list(GRID[grid][:2]), (3, 3), L, grid, spacing, corner, T0 + tt, T0 + fr, bd and [T0 + b for b in bd], None, at)
    expect((c.data == 0).all() and c.data.dtype == f, "zeros")
    return "gen"


# ------------------------------------------------------------ interpreter
MODELS = {"nc_det": "Nowcast", "gl_det": "Global", "gl_ens": "MOGREPS-G", "uk_ens": "MOGREPS-UK", "uk_det": "UKV"}
BASES = ["det", "ens", "nomodel", "perc", "gust", "gt", "ge", "lt", "le", "vicinity", "accum", "probaccum", "max", "probmax", "blend", "blendperc", "spot", "spotperc", "spotblend", "weather", "weather1", "weather3", "wind", "windmean", "ancil", "unhandled"]
NAMES = {"gust": "wind_gust", "accum": "lwe_thickness_of_precipitation_amount", "probaccum": "thickness_of_rainfall_amount", "nomodel": "probability_of_snow_falling_level_below_ground_level", "weather": "weather_code", "weather1": "weather_code", "weather3": "weather_code", "wind": "wind_from_direction", "windmean": "wind_from_direction", "unhandled": "reliability_calibration_table", "ancil": "surface_altitude"}
PROBS = {"gt": "greater_than", "ge": "greater_than_or_equal_to", "lt": "less_than", "le": "less_than_or_equal_to", "vicinity": "greater_than", "probaccum": "greater_than", "probmax": "less_than", "blend": "greater_than"}
BLENDED = ("blend", "blendperc", "spotblend", "weather1")


def base_cube(b, mid):
    """(cube, expectations)"""
    import numpy as np
    from improver.synthetic_data import set_up_test_cubes as S
    from iris.coords import CellMethod

    f = np.float32
    n = NAMES.get(b, "air_temperature")
    spot = b.startswith("spot")
    at = {"source": "Met Office Unified Model", "institution": "Met Office", "title": "%s Model Forecast on 2 km Standard Grid" % MODELS[mid], "mosg__model_configuration": mid}
    if spot:
        at["title"] = "%s Model UK Spot Values" % MODELS[mid]
    pp = b in ("lt", "ge", "wind", "spotperc")
    if pp:
        at["title"] = "Post-Processed " + at["title"]
    if b == "nomodel":
        del at["mosg__model_configuration"]
    if b in BLENDED:
        pp = True
        at["title"] = "IMPROVER Post-Processed Multi-Model Blend" + (" UK Spot Values" if spot else " on 2 km Standard Grid")
        at["mosg__model_configuration"] = "uk_det " + ("gl_ens" if mid == "uk_det" else mid)
        at["mosg__model_run"] = "uk_det:20171109T2300Z:0.25\n%s:20171109T2100Z:0.75" % at["mosg__model_configuration"].split()[1]
    if b == "gust":
        at["wind_gust_diagnostic"] = "Typical gusts"
    if n == "weather_code":
        at.update(weather_code=np.arange(3), weather_code_meaning="a b c")
    if b == "ancil":
        at = {}
    tb = b in ("accum", "probaccum", "max", "probmax", "weather1", "weather3")
    kw = dict(attributes=at, frt=dt(T0), time=dt(T0 + 6 * H))
    if not spot:
        kw["spatial_grid"] = "equalarea"
    if tb:
        kw["time_bounds"] = (dt(T0 + 5 * H), dt(T0 + 6 * H))
    sp = "spot_" if spot else ""
    tail = (4,) if spot else (2, 3)
    if b in PROBS:
        c = S.set_up_probability_cube(np.zeros((3,) + tail, f), np.array([1, 2, 3], f), variable_name=n + ("_in_vicinity" if b == "vicinity" else ""), spp__relative_to_threshold=PROBS[b], **kw)
    elif b in ("perc", "gust", "blendperc", "spotperc", "spotblend"):
        c = getattr(S, "set_up_%spercentile_cube" % sp)(np.zeros((2,) + tail, f), np.array([10, 90], f), name=n, units="m s-1", **kw)
    else:
        d = np.zeros(((3,) if b == "ens" and "ens" in mid else ()) + tail, np.int32 if n == "weather_code" else f)
        c = getattr(S, "set_up_%svariable_cube" % sp)(d, name=n, units="1" if b != "det" else "K", **kw)
    if b in BLENDED:
        t = c.coord("forecast_reference_time").copy()
        t.rename("blend_time")
        c.add_aux_coord(t)
        c.remove_coord("forecast_reference_time")
        c.remove_coord("forecast_period")
    methods = ""
    if b in ("accum", "max"):
        m = "sum" if b == "accum" else "maximum"
        c.add_cell_method(CellMethod(method=m, coords="time"))
        methods = " %s over time" % m
    if b in ("probaccum", "probmax"):
        m = "sum" if b == "probaccum" else "maximum"
        c.add_cell_method(CellMethod(method=m, coords="time", comments="of " + n))
        methods = " %s over time" % m
    if b in ("weather1", "weather3"):
        h = b[-1]
        c.add_cell_method(CellMethod(method="mode", coords="time", intervals="%s hour" % h))
        methods = "mode of %s hour weather code over time" % h
    if b == "windmean":
        c.add_cell_method(CellMethod(method="mean", coords="realization"))
    if b == "ancil":
        for q in ("time", "forecast_period", "forecast_reference_time"):
            c.remove_coord(q)
    return c, {"prod": "spot" if spot else "gridded", "pp": pp, "methods": methods, "name": n + ("_in_vicinity" if b == "vicinity" else "")}


def words(b, mid, e, verbose, warnings=()):
    """What display_interpretation says."""
    n = e["name"]
    if b == "unhandled":
        return n + " is not handled by this interpreter\n"
    src = lambda s: ["    Source: " + s] if verbose else []
    special = n in ("weather_code", "wind_from_direction", "surface_altitude")
    ft = "probabilities" if b in PROBS else "percentiles" if b in ("perc", "gust", "blendperc", "spotperc", "spotblend") else "ancillary" if b == "ancil" else n.replace("_", " ") if special else "realizations"
    o = ["This is a %s %s" % (e["prod"], "file containing one or more realizations" if ft == "realizations" else ft + " file")] + src("name, coordinates")
    if not special:
        th = " %s thresholds" % PROBS[b].replace("_", " ") if b in PROBS else ""
        d = n.replace("_in_vicinity", "") if b in PROBS else n
        o += ["It contains %s of %s%s" % (ft, d.replace("_", " "), th)] + src("name, threshold coordinate (probabilities only)")
        if e["methods"]:
            o += ["These %s are of %s%s" % (ft, d.replace("_", " "), e["methods"])] + src("cell methods")
        o += ["It has undergone %s significant post-processing" % ("some" if e["pp"] else "no")] + src("title attribute")
    if n == "weather_code" and e["methods"]:
        o += ["These weather code are " + e["methods"]] + src("cell methods")
    if b == "ancil":
        o += ["This is a static ancillary with no time information"]
    elif b in BLENDED:
        other = "gl_ens" if mid == "uk_det" else mid
        o += ["It contains blended data from models: UKV (cycle: 20171109T2300Z), %s (cycle: 20171109T2100Z)" % MODELS[other]] + src("title attribute, model ID attribute, model run attribute")
    elif b == "nomodel":
        o += ["It has no source model information and cannot be blended"] + src("model ID attribute (missing)")
    else:
        o += ["It contains data from " + MODELS[mid]] + src("model ID attribute")
    return "\n".join(o) + "\n"


def corruptions():
    """name -> (what it touches, applies to base, change, part of the message)"""
    import numpy as np
    from iris.coords import AuxCoord, CellMethod

    C = {}
    prob = lambda b: b in PROBS
    perc = lambda b: b in ("perc", "gust", "blendperc", "spotperc", "spotblend")
    normal = lambda b: b not in ("ancil", "unhandled")
    spot = lambda b: b.startswith("spot")
    cells = lambda b: normal(b) and NAMES.get(b) not in ("weather_code", "wind_from_direction")

    def setu(c):
        c.units = "%"

    C["prob units"] = ("units", prob, setu, "Expected units of 1")
    th = lambda c: [x for x in c.coords() if "spp__relative_to_threshold" in x.attributes or x.var_name == "threshold"][0]
    C["threshold name"] = ("threshold", prob, lambda c: th(c).rename("wet_bulb_temperature"), "does not have expected threshold coord")
    C["threshold var_name"] = ("threshold", prob, lambda c: setattr(th(c), "var_name", None), "does not have var_name='threshold'")
    C["no relation"] = ("threshold", prob, lambda c: th(c).attributes.clear(), "no spp__relative_to_threshold")
    C["bad relation"] = ("threshold", prob, lambda c: th(c).attributes.update(spp__relative_to_threshold="above"), "not in permitted value set")
    for a in ("gt", "lt", "ge", "GREATER_THAN", "greater_than_", "than", ""):
        C["relation %r" % a] = ("threshold", prob, lambda c, a=a: th(c).attributes.update(spp__relative_to_threshold=a), "not in permitted value set")
    C["wrong relation"] = ("threshold", prob, lambda c: th(c).attributes.update(spp__relative_to_threshold="less_than" if "above" in c.name() else "greater_than_or_equal_to"), "is not consistent with spp__relative_to_threshold")
    C["prob name"] = ("threshold", lambda b: b in ("gt", "lt", "blend"), lambda c: c.rename(c.name().replace("probability_of_", "")), "")
    C["percentile name"] = ("percentile", perc, lambda c: c.coord("percentile").rename("percentile_over_realization"), "Percentile coordinate should have name")
    C["percentile units"] = ("percentile", perc, lambda c: setattr(c.coord("percentile"), "units", "1"), "units of %")
    for a in ("title", "source", "institution"):
        C["no " + a] = ("title" if a == "title" else a, normal, lambda c, a=a: c.attributes.pop(a), "missing one or more mandatory")
    for a in ("mosg__grid_type", "mosg__grid_domain", "mosg__grid_version", "mosg__forecast_run_duration", "grid_id", "source_realizations", "um_version"):
        C["attribute " + a] = (a, lambda b: b != "unhandled", lambda c, a=a: c.attributes.update({a: "x"}), "forbidden values")
    bl = lambda b: b in BLENDED
    C["blend no id"] = ("id", bl, lambda c: c.attributes.pop("mosg__model_configuration"), "No mosg__model_configuration on blended file")
    C["blend no run"] = ("run", bl, lambda c: c.attributes.pop("mosg__model_run"), "No mosg__model_run on blended file")
    C["blend code"] = ("id", bl, lambda c: c.attributes.update(mosg__model_configuration="uk_det xx_det"), "unrecognised model code xx_det")
    C["blend run model"] = ("run", bl, lambda c: c.attributes.update(mosg__model_run="uk_det:20171109T2300Z:1.0"), "no cycle for model")
    single = lambda b: normal(b) and b not in BLENDED and b != "nomodel"
    C["other model"] = ("id", lambda b: single(b), lambda c: c.attributes.update(mosg__model_configuration="gl_ens" if c.attributes["mosg__model_configuration"] != "gl_ens" else "uk_det"), "inconsistent with model ID")
    C["no model"] = ("id", single, lambda c: c.attributes.update(mosg__model_configuration="zz_det"), "not a valid single model")
    C["spot title"] = ("title", spot, lambda c: c.attributes.update(title=c.attributes["title"].replace("Spot Values", "Grid")), "not consistent with spot data")
    for q in ("latitude", "altitude", "wmo_id"):
        if q != "latitude":
            C["no " + q] = (q, spot, lambda c, q=q: c.remove_coord(q), "Missing one or more coordinates")

    def scalar(c):
        c.remove_coord("altitude")
        c.add_aux_coord(AuxCoord(np.array([1], np.float32), "altitude", units="m"))

    C["scalar altitude"] = ("altitude", spot, scalar, "does not span all horizontal")
    for q in ("time", "forecast_period", "forecast_reference_time", "blend_time"):
        C["no " + q] = (q, (lambda b, q=q: normal(b) and ((b in BLENDED) == (q == "blend_time") or q == "time")), lambda c, q=q: c.remove_coord(q), "Missing one or more coordinates" if q != "time" else "")

    def shift(q):
        def g(c):
            k = c.coord(q)
            p = k.points[0]
            k.bounds = np.array([[p - 1800, p + 1800]], k.dtype)
        return g

    C["time bounds"] = ("time", normal, shift("time"), "points should be equal to upper bounds")
    C["period bounds"] = ("forecast_period", lambda b: normal(b) and b not in BLENDED, shift("forecast_period"), "points should be equal to upper bounds")

    def drop(c):
        c.coord("time").bounds = None

    C["no time bounds"] = ("time", lambda b: b in ("accum", "probaccum", "max", "probmax"), drop, "has no time bounds")
    for m, q in (("mean", "forecast_reference_time"), ("mean", "model_id"), ("mean", "model_configuration"), ("mean", "realization"), ("point", "time"), ("weighted_mean", "model")):
        C["method %s %s" % (m, q)] = ("cell", cells, lambda c, m=m, q=q: c.add_cell_method(CellMethod(method=m, coords=q)), "Non-standard cell method")
    C["ancil method"] = ("cell", lambda b: b == "ancil", lambda c: c.add_cell_method(CellMethod(method="mean", coords="x")), "Unexpected cell methods")
    C["weather method"] = ("cell", lambda b: NAMES.get(b) == "weather_code", lambda c: c.add_cell_method(CellMethod(method="mode", coords="time", intervals="2 hour")), "Unexpected cell methods")
    C["weather mean"] = ("cell", lambda b: NAMES.get(b) == "weather_code", lambda c: c.add_cell_method(CellMethod(method="mode", coords="realization")), "Unexpected cell methods")
    C["wind method"] = ("cell", lambda b: b.startswith("wind"), lambda c: c.add_cell_method(CellMethod(method="mean", coords="time")), "Unexpected cell methods")

    def nocomment(c):
        c.cell_methods = tuple(CellMethod(method=m.method, coords=m.coord_names) for m in c.cell_methods)

    def wrong(c):
        c.cell_methods = tuple(CellMethod(method=m.method, coords=m.coord_names, comments="of wind_speed") for m in c.cell_methods)

    C["no comment"] = ("cell", lambda b: b in ("probaccum", "probmax"), nocomment, "on probability data should have comment")
    C["other comment"] = ("cell", lambda b: b in ("probaccum", "probmax"), wrong, "on probability data should have comment")
    C["no sum"] = ("cell", lambda b: b in ("accum", "probaccum"), lambda c: setattr(c, "cell_methods", ()), "Expected sum over time cell method")
    C["max not sum"] = ("cell", lambda b: b in ("accum", "probaccum"), lambda c: setattr(c, "cell_methods", (CellMethod(method="maximum", coords="time", comments="of " + NAMES["probaccum"]),)), "Expected sum over time cell method")
    for q in (("realization",), ("time", "realization"), ("latitude",)):
        C["sum over %s" % "-".join(q)] = ("cell", lambda b: b in ("accum", "probaccum"), lambda c, q=q: setattr(c, "cell_methods", (CellMethod(method="sum", coords=q, comments="of " + NAMES["probaccum"]),)), "Expected sum over time cell method")
    C["double"] = ("data", lambda b: normal(b) and NAMES.get(b) != "weather_code", lambda c: setattr(c, "data", c.data.astype(np.float64)), "")

    def ty(q, t):
        def g(c):
            k = c.coord(q)
            k.points = k.points.astype(t)
        return g

    C["time type"] = ("time", normal, ty("time", np.float32), "")
    C["period type"] = ("forecast_period", lambda b: normal(b) and b not in BLENDED, ty("forecast_period", np.int64), "")
    C["no gust attribute"] = ("gust", lambda b: b == "gust", lambda c: c.attributes.pop("wind_gust_diagnostic"), "missing one or more required")
    C["no weather meaning"] = ("meaning", lambda b: NAMES.get(b) == "weather_code", lambda c: c.attributes.pop("weather_code_meaning"), "missing one or more required")

    def members(c):
        c.attributes["mosg__model_configuration"] = "uk_det"
        c.attributes["title"] = "UKV Model Forecast"

    C["deterministic members"] = ("id", lambda b: b == "ens", members, "Deterministic model should not have 3 realizations")
    return C


def warns():
    import numpy as np
    from iris.coords import CellMethod

    def between(c):
        k = [x for x in c.coords() if x.var_name == "threshold"][0]
        k.attributes["spp__relative_to_threshold"] = "between_thresholds"
        c.rename(c.name().replace("above", "between").replace("below", "between").replace("_threshold", "_thresholds"))

    return {"attribute": (lambda b: b != "unhandled", lambda c: c.attributes.update(enigma="x"), "include unexpected attributes ['enigma']"),
            "method": (lambda b: b in ("det", "ens", "perc", "gt", "spot", "max"), lambda c: c.add_cell_method(CellMethod(method="variance", coords="time")), "Unexpected cell method"),
            "between": (lambda b: b in ("gt", "lt"), between, "Between thresholds data are not fully supported")}


def c_int(tier):
    C = corruptions()
    for b in BASES:
        for mid in MODELS:
            yield ("good", b, mid, 0)
            for w, (app, _, _) in warns().items():
                if app(b):
                    yield ("warn", b, mid, w)
        for mid in MODELS:
            for n, (s, app, _, _) in C.items():
                if app(b) and not (n == "deterministic members" and "ens" not in mid):
                    yield ("one", b, mid, n)
        mids = ["uk_ens"] if tier == "quick" else list(MODELS)
        for mid in mids:
            for (n, x), (m, y) in itertools.combinations(C.items(), 2):
                if x[1](b) and y[1](b) and x[0] != y[0]:
                    yield ("two", b, mid, [n, m])
    yield ("files", 0, 0, 0)


def interp(case, cov):
    import cubes
    import numpy as np
    from improver.developer_tools.metadata_interpreter import MOMetadataInterpreter, display_interpretation

    kind, b, mid, z = case
    if kind == "files":
        return files(cov)
    c, e = base_cube(b, mid)
    it = MOMetadataInterpreter()
    if kind in ("good", "warn"):
        if kind == "warn":
            warns()[z][1](c)
        with cubes.Unchanged(c):
            it.run(c)
        cov.step()
        for verbose in (False, True):
            g, w = display_interpretation(it, verbose=verbose), words(b, mid, e, verbose)
            if kind == "good":
                expect(g == w, "interpretation of a compliant file", w, g)
            else:
                if z == "between":
                    w = w.replace(PROBS[b].replace("_", " ") + " thresholds", "between thresholds thresholds")
                head, _, tail = g.partition("WARNINGS:\n")
                expect(head == w if z != "method" else head.splitlines()[0] == w.splitlines()[0], "interpretation of a file with warnings", w, head)
                expect(warns()[z][2] in tail and len(tail.splitlines()) == 1, "one warning", warns()[z][2], tail)
        return kind
    C = corruptions()
    for n in [z] if kind == "one" else z:
        C[n][2](c)
    try:
        it.run(c)
    except ValueError as err:
        msg = str(err)
    else:
        raise Violation("a file that is not compliant passes", got=z)
    cov.step()
    if kind == "one":
        expect(C[z][3] in msg, "the fault is named", C[z][3], msg)
    else:
        hide = {"no title"} & set(z)
        for n in z:
            if n == "no time bounds" and any(x == "no sum" or x in ("sum over realization", "sum over latitude") for x in z):
                continue
            if not hide and n not in ("threshold name", "prob name", "prob units", "no time") and not ({"threshold name", "prob name", "no time", "percentile name"} & set(z)) and not (n.startswith("blend") and sum(q.startswith("blend") for q in z) > 1):
                expect(C[n][3] in msg, "each fault is named", C[n][3], msg)
    return kind


def files(cov):
    import contextlib
    import io
    import os
    import pathlib
    import iris
    from improver.cli import interpret_metadata as I

    fn = I.process
    while hasattr(fn, "__wrapped__"):
        fn = fn.__wrapped__
    good, ge = base_cube("det", "uk_det")
    bad, _ = base_cube("gt", "uk_ens")
    bad.attributes.pop("title")
    d = pathlib.Path(os.environ["VERIF_SCRATCH"])
    paths = {"a.nc": [good], "b.nc": [bad]}
    real = iris.load
    iris.load = lambda p: paths[os.path.basename(p)]
    try:
        for verbose in (False, True):
            for only in (False, True):
                for fs in (["a.nc"], ["b.nc"], ["a.nc", "b.nc"], ["b.nc", "a.nc"]):
                    o = io.StringIO()
                    with contextlib.redirect_stdout(o):
                        r = raises(lambda: fn(*[d / x for x in fs], verbose=verbose, failures_only=only))
                    cov.step()
                    t = o.getvalue()
                    expect(bool(r) == ("b.nc" in fs), "fails if any file is not compliant", got=fs)
                    expect(("cube name : air_temperature" in t) == ("a.nc" in fs and not only), "compliant files are reported unless only failures are wanted", got=t)
                    expect(("Non-compliant :" in t) == ("b.nc" in fs), "files that are not compliant are reported", got=t)
                    if "a.nc" in fs and not only:
                        expect(words("det", "uk_det", ge, verbose) in t, "interpretation of a compliant file", got=t)
    finally:
        iris.load = real
    return "files"


SECTIONS = [Section("build", c_build, build), Section("metadata", c_gen, gen), Section("interpreter", c_int, interp)]

if __name__ == "__main__":
    main(globals())
