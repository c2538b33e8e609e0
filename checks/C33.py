"""C33: rearranging, collapsing, merging, masking and comparing cubes."""
import itertools

from mc import Section, Violation, expect, expect_close, expect_same, main, raises

PROPERTY = "C33"
H = 3600
ATT = {"title": "T", "source": "S", "institution": "I"}
NAMES = {"r": "realization", "t": "time", "h": "height", "p": "precipitation_rate", "y": "projection_y_coordinate", "x": "projection_x_coordinate"}
SIZE = {"r": 3, "t": 2, "h": 3, "p": 2, "y": 2, "x": 4}


def make(dims, pts=None, mask=False, fill=0, scalar="", name=None, **kw):
    """A cube with distinct values and its dimensions in this order, e.g. 'ryx'."""
    import cubes
    import numpy as np

    base = [d for d in dims if d not in "yx"] + ["y", "x"]
    p = {"r": [0, 1, 2], "t": [cubes.T0 + 3 * H, cubes.T0 + 5 * H], "h": [10.0, 50.0, 75.0], "p": [0.5, 1.0]}
    p.update(pts or {})
    unit = {"r": "1", "t": cubes.EPOCH, "h": "m", "p": "m s-1"}
    lead = []
    for d in base[:-2]:
        s = (NAMES[d], p[d], unit[d])
        lead.append(s if d != "p" else s + (np.float32, {"spp__relative_to_threshold": "greater_than"}, True))
    shape = [len(p[d]) for d in base[:-2]] + [SIZE["y"], SIZE["x"]]
    a = ((np.arange(int(np.prod(shape))) * 7 + 3) % 101).astype(np.float32).reshape(shape) + fill
    if mask:
        m = (np.arange(a.size).reshape(shape) % 5) == 1
        a = np.ma.masked_array(a, m)
    kw.setdefault("attributes", dict(ATT))
    c = cubes.grid(a, name=name or "air_temperature", units="K", leading=lead, **kw)
    for d in scalar:
        c = c[0] if base[0] == d else c
    return cubes.transposed(c, [NAMES[d] for d in dims])


def labelled(c, order):
    import cubes

    return cubes.arr(c, *[NAMES[d] for d in order])


# ------------------------------------------------------------ order
def c_order(tier):
    layouts = ["".join(p) for d in ("yx", "ryx", "tyx", "rtyx", "pyx", "rpyx") for p in itertools.permutations(d)]
    for lay in layouts:
        ks = [d for d in "rtpyx"]
        for n in (1, 2, 3) if tier == "quick" else (1, 2, 3, 4):
            for req in itertools.permutations(ks, n):
                for start in (True, False):
                    if n == 3 and (not start or lay[0] not in req) and tier == "quick":
                        continue
                    yield ("enforce", lay, list(req), start)
    for lay in layouts:
        for d in lay:
            for pts in range(4):
                for desc in (False, True):
                    for mask in (False, True):
                        if d in "yx" and pts > 1:
                            continue
                        yield ("sort", lay, d, [pts, desc, mask])
    for lay in layouts:
        for k in range(3):
            for exc in (0, 1):
                yield ("check", lay, k, exc)


def order(case, cov):
    import cubes
    import numpy as np
    from improver.utilities import cube_manipulation as M
    from improver.utilities.cube_checker import check_cube_coordinates

    kind, lay, a, b = case
    if kind == "enforce":
        c = make(lay)
        ref = make(lay)
        req = ["threshold" if d == "p" else NAMES[d] for d in a]
        M.enforce_coordinate_ordering(c, req if len(req) > 1 or len(lay) % 2 else req[0], anchor_start=b)
        cov.step()
        have = [d for d in a if d in lay]
        rest = [d for d in lay if d not in have]
        want = have + rest if b else rest + have
        got = [q.name() for q in c.coords(dim_coords=True)]
        expect(got == [NAMES[d] for d in want], "order of dimensions", expected=want, got=got)
        cubes.expect_cube(c, cubes.describe(cubes.transposed(ref, [NAMES[d] for d in want])), "the cube in that order")
        return "enforce"
    if kind == "sort":
        pts, desc, mask = b
        P = {"r": [[0, 1, 2], [5, 3, 1], [0, 4, 9], [2, 1, 0]], "t": [[cubes.T0 + 3 * H * (1 + i) for i in v] for v in ((0, 1), (1, 0), (0, 5), (5, 0))], "p": [[0.5, 1.0], [1.0, 0.5], [0.1, 2.0], [3.0, 0.0]]}
        c = make(lay, {a: P[a][pts]} if a in P else None, mask)
        if a in "yx" and pts:
            i = [slice(None)] * c.ndim
            i[lay.index(a)] = slice(None, None, -1)
            c = c[tuple(i)]
        with cubes.Unchanged(c):
            r = M.sort_coord_in_cube(c, NAMES[a], descending=desc)
        cov.step()
        vals = list(c.coord(NAMES[a]).points)
        idx = sorted(range(len(vals)), key=lambda i: vals[i], reverse=desc)
        sl = [slice(None)] * c.ndim
        sl[lay.index(a)] = idx
        cubes.expect_cube(r, cubes.describe(c[tuple(sl)]), "sorted")
        expect(list(r.coord(NAMES[a]).points) == [vals[i] for i in idx], "points", got=r.coord(NAMES[a]).points)
        return "sort"
    # a new cube made of slices is put back into the order of the original
    c = make(lay)
    drop = lay[0] if a == 0 else (lay[-1] if a == 1 else None)
    perm = lay[::-1] if a < 2 else lay[1:] + lay[:1]
    n = cubes.transposed(c, [NAMES[d] for d in perm])
    exc = []
    if drop and drop not in "yx":
        n = n[tuple(0 if d == drop else slice(None) for d in perm)]
    if b:
        from iris.coords import DimCoord

        n = M.add_coordinate_to_cube(n, DimCoord(np.array([1.0, 2.0], np.float32), long_name="extra", units="1"), new_dim_location=a)
        exc = ["extra"]
    r = check_cube_coordinates(c, n, exception_coordinates=exc)
    cov.step()
    names = [q.name() for q in r.coords(dim_coords=True)]
    expect([q for q in names if q != "extra"] == [NAMES[d] for d in lay], "order of dimensions", expected=lay, got=names)
    s = r[tuple(0 if q == "extra" else slice(None) for q in names)]
    w = c if not (drop and drop not in "yx") else c[tuple(slice(0, 1) if d == drop else slice(None) for d in lay)]
    expect_same(s.data, w.data, "data")
    return "check"


# ------------------------------------------------------------ values
def c_values(tier):
    layouts = ["".join(p) for d in ("yx", "ryx", "rtyx") for p in itertools.permutations(d)]
    for lay in layouts:
        for lo, hi in ((0, 50), (None, 50), (10, 20), (200, 300), (-5, None)):
            if lo is None or hi is None:
                continue
            for mask in (False, True):
                yield ("clip", lay, lo, hi, mask)
        for loc in range(-1, len(lay) + 2):
            for n in (1, 3):
                for md in (False, True):
                    yield ("add", lay, loc, n, md)
    lays = ["hyx", "yhx", "yxh", "hryx", "rhyx", "ryxh", "y"]
    for lay in lays[:-1]:
        for pts in ([10.0, 50.0, 75.0], [75.0, 50.0, 10.0], [0.0, 5.0, 300.0]):
            for lo, hi in itertools.product((None, 5.0, 50.0, 100.0, 400.0), repeat=2):
                for mask in (False, True):
                    for nm in (None, "new"):
                        if nm and mask:
                            continue
                        yield ("max", lay, pts, [lo, hi, nm], mask)
    for lay in lays[:-1]:
        for pts in ([10.0, 50.0, 75.0], [75.0, 50.0, 10.0], [0.0, 5.0, 300.0], [10.0, 20.0]):
            for mask in (False, True):
                for low in (False, True):
                    for nm in (None, "new"):
                        yield ("height", lay, pts, [low, nm], mask)
    for low in (False, True):
        for up in (False, True):
            yield ("tie", "hyx", [low, up], 0, False)
    for nm in (None, "new"):
        yield ("onelevel", nm, 0, 0, False)


def values(case, cov):
    import cubes
    import numpy as np
    from improver.utilities import cube_manipulation as M
    from iris.coords import CellMethod, DimCoord

    kind, lay, a, b, mask = case
    if kind == "clip":
        c = make(lay, mask=mask)
        c.add_cell_method(CellMethod("mean", coords="time"))
        want = c.copy()
        d = np.clip(np.ma.getdata(c.data), a, b)
        want.data = np.ma.masked_array(d, np.ma.getmaskarray(c.data)) if mask else d
        with cubes.Unchanged(c):
            r = M.clip_cube_data(c, a, b)
        cov.step()
        cubes.expect_cube(r, cubes.describe(want), "clipped", ignore=("fill",))
        z = np.zeros(6, np.float32)  # sites share one dimension
        from improver.spotdata.build_spotdata_cube import build_spotdata_cube

        v = np.linspace(a - 1, b + 1, 6 * (1 + len(lay) % 2)).astype(np.float32)
        v = v.reshape(-1, 6) if len(lay) % 2 else v
        s = build_spotdata_cube(v, "air_temperature", "K", z, z, np.arange(6, dtype=np.float32), ["%05d" % i for i in range(6)], additional_dims=[DimCoord(np.arange(2, dtype=np.int32), standard_name="realization", units="1")] if len(lay) % 2 else None)
        w = s.copy(data=np.clip(v, a, b))
        with cubes.Unchanged(s):
            r = M.clip_cube_data(s, a, b)
        cov.step()
        cubes.expect_cube(r, cubes.describe(w), "clipped at sites", ignore=("fill",))
        return "clip"
    if kind == "add":
        c = make(lay)
        c.add_cell_method(CellMethod("mean", coords="time"))
        q = DimCoord(np.arange(b, dtype=np.float32), long_name="extra", units="m")
        with cubes.Unchanged(c):
            if a < 0 or a > len(lay):
                e = raises(M.add_coordinate_to_cube, c, q, new_dim_location=a, copy_metadata=mask)
                cov.step()
                expect(isinstance(e, ValueError), "must be refused", got=e)
                return "refused"
            r = M.add_coordinate_to_cube(c, q, new_dim_location=a, copy_metadata=mask)
        cov.step()
        names = [x.name() for x in r.coords(dim_coords=True)]
        w = [NAMES[d] for d in lay]
        w.insert(a, "extra")
        expect(names == w, "dimensions", expected=w, got=names)
        for i in range(b):
            sl = r[tuple(i if x == "extra" else slice(None) for x in names)]
            sl.remove_coord("extra")
            if mask:
                cubes.expect_cube(sl, cubes.describe(c), "every slice is the input")
            else:
                expect_same(sl.data, c.data, "every slice")
                expect({x.name() for x in sl.coords()} == {x.name() for x in c.coords()}, "coordinates", got=[x.name() for x in sl.coords()])
        return "add"
    if kind == "max":
        lo, hi, nm = b
        c = make(lay, {"h": a}, mask)
        use = [h for h in a if (lo is None or h >= lo) and (hi is None or h <= hi)]
        with cubes.Unchanged(c):
            if not use:
                e = raises(M.maximum_in_height, c, lo, hi, nm)
                cov.step()
                expect(isinstance(e, ValueError), "must be refused", got=e)
                return "refused"
            r = M.maximum_in_height(c, lo, hi, nm)
        cov.step()
        rest = lay.replace("h", "")
        d = np.ma.masked_array(labelled(c, "h" + rest))[[a.index(h) for h in use]]
        want = d.max(axis=0)
        got = np.ma.masked_array(labelled(r, rest))
        same_masked(got, want, "maximum")
        expect(r.name() == (nm or "air_temperature"), "name", got=r.name())
        return "max"
    if kind == "height":
        low, nm = b
        c = make(lay, {"h": a}, mask)
        m = M.maximum_in_height(c)
        with cubes.Unchanged(c, m):
            r = M.height_of_maximum(c, m, low, nm)
        cov.step()
        rest = lay.replace("h", "")
        d = np.ma.masked_array(labelled(c, "h" + rest))
        want = np.ma.masked_array(np.array(a)[d.filled(-99).argmax(axis=0)], np.ma.getmaskarray(d).all(axis=0))
        same_masked(np.ma.masked_array(labelled(r, rest)), want, "height of the maximum")
        expect(r.name() == (nm or "air_temperature") and str(r.units) == "m", "name", got=(r.name(), r.units))
        return "height"
    if kind == "tie":
        low, up = a
        c = make("hyx", {"h": [10.0, 50.0, 75.0] if up else [75.0, 50.0, 10.0]})
        c.data = np.array([[[1, 2, 2, 2], [3, 0, 1, 5]], [[0, 2, 2, 1], [3, 0, 4, 6]], [[1, 1, 2, 2], [1, 0, 4, 6]]], np.float32)
        r = M.height_of_maximum(c, M.maximum_in_height(c), low)
        cov.step()
        hs = c.coord("height").points
        eq = c.data == c.data.max(axis=0)
        v = np.where(eq, hs[:, None, None], np.nan)
        want = np.nanmin(v, axis=0) if low else np.nanmax(v, axis=0)
        expect_same(r.data.astype(np.float32), want.astype(np.float32), "the %s of equal maxima" % ("lowest" if low else "highest"))
        return "tie"
    c = make("hyx")[0]
    with cubes.Unchanged(c):
        r = M.maximum_in_height(c, new_name=lay)
        cov.step()
        expect(r.name() == (lay or "air_temperature"), "name", got=r.name())
        expect_same(r.data, c.data, "a single level")
        e = raises(M.height_of_maximum, c, c)
        expect(isinstance(e, ValueError), "one level must be refused", got=e)
    return "one level"


def same_masked(got, want, msg):
    import numpy as np

    gm, wm = np.ma.getmaskarray(got), np.ma.getmaskarray(want)
    expect(got.shape == want.shape and (gm == wm).all(), msg + ": mask", expected=wm, got=gm)
    expect_close(np.where(gm, 0, np.ma.getdata(got)), np.where(wm, 0, np.ma.getdata(want)), msg, rtol=1e-5, atol=1e-6)


# ------------------------------------------------------------ collapsing
def c_collapse(tier):
    for lay in ["".join(p) for d in ("ryx", "rtyx") for p in itertools.permutations(d)] if tier != "quick" else ["ryx", "yrx", "yxr", "rtyx", "tryx", "tyxr", "xryt"]:
        for how in ("mean", "sum", "median", "std_dev", "min", "max", "mode"):
            for pts in ([0, 1, 2], [3, 1], [5]):
                for mask in (False, True):
                    yield (lay, how, pts, mask)


def collapse(case, cov):
    import cubes
    import numpy as np
    from improver.utilities import cube_manipulation as M
    from iris.coords import CellMethod

    lay, how, pts, mask = case
    c = make(lay, {"r": pts}, mask)
    c.add_cell_method(CellMethod("maximum", coords="time"))
    with cubes.Unchanged(c):
        if how == "mode":
            e = raises(M.collapse_realizations, c, method=how)
            cov.step()
            expect(isinstance(e, ValueError), "must be refused", got=e)
            return "refused"
        r = M.collapse_realizations(c, method=how)
    cov.step()
    rest = lay.replace("r", "")
    d = np.ma.masked_array(labelled(c, "r" + rest), dtype=np.float64)
    n = d.count(axis=0)
    if how == "std_dev":
        want = d.std(axis=0, ddof=1) if len(pts) > 1 else None
    elif how == "median":
        want = np.ma.median(d, axis=0)
    else:
        want = getattr(d, how)(axis=0)
    got = np.ma.masked_array(labelled(r, rest))
    if how == "std_dev":
        ok = n > 1
        g = np.ma.getmaskarray(got)
        expect(not g[ok].any(), "standard deviation where there are two values", got=got)
        if want is not None:
            expect_close(np.ma.getdata(got)[ok], np.ma.getdata(want)[ok], "standard deviation", rtol=1e-5, atol=1e-5)
        bad = ~ok
        expect((g[bad] | np.isnan(np.ma.getdata(got)[bad])).all(), "no standard deviation of one value", got=got)
    else:
        same_masked(got, want, how)
    expect(r.data.dtype == np.float32, "type", got=r.data.dtype)
    names = [q.name() for q in r.coords(dim_coords=True)]
    expect(names == [NAMES[d] for d in rest] and not r.coords("realization"), "coordinates", got=[q.name() for q in r.coords()])
    expect(list(r.cell_methods) == list(c.cell_methods) and r.attributes == ATT and r.name() == "air_temperature" and str(r.units) == "K", "description", got=(r.cell_methods, r.attributes))
    return how


# ------------------------------------------------------------ merging
def c_merge(tier):
    for hours in itertools.permutations((3, 4, 7)):
        for att in range(4):
            for cms in range(4):
                for var in (0, 1):
                    yield ("time", list(hours), att, cms, var)
    for rs in ([[0, 1], [2]], [[4], [1, 2]], [[2, 3], [0, 1]], [[0], [1]]):
        for att in range(4):
            yield ("realization", rs, att, 0, 0)
    for bounds in itertools.product((0, 1, 3), repeat=3):
        for chk in (False, True):
            yield ("bounds", list(bounds), chk, 0, 0)
    for lays in itertools.product(("yx", "xy"), repeat=2):
        yield ("one", list(lays), 0, 0, 0)


def merge(case, cov):
    import cubes
    import numpy as np
    from improver.utilities.cube_manipulation import MergeCubes
    from iris.coords import CellMethod
    from iris.cube import CubeList

    kind, a, att, cms, var = case
    atts = [[dict(ATT)] * 3, [dict(ATT, history="h%d" % i) for i in range(3)], [dict(ATT, only=1), dict(ATT), dict(ATT)], [dict(ATT, title="T%d" % (i // 2), model="m") for i in range(3)]][att if not isinstance(att, bool) else 0]
    CM = [CellMethod("mean", coords="time"), CellMethod("sum", coords="realization"), CellMethod("max", coords="time")]
    sets = [[[], [], []], [[0], [0], [0]], [[0, 1], [1], [1, 2]], [[0], [1], []]][cms]

    def cube(i, h, bound=0, r=None):
        lead = [("realization", r, "1")] if r and len(r) > 1 else []
        d = np.arange(4, dtype=np.float32).reshape(2, 2) + 10 * h
        if lead:
            d = np.stack([d + k for k in r])
        t = cubes.T0 + (h if r is None else 3) * H
        c = cubes.grid(d + (r[0] if r and not lead else 0), leading=lead, name="air_temperature", units="K", time=t, time_bounds=(t - bound * H, t) if bound else None, attributes=dict(atts[i]))
        if r and not lead:
            from iris.coords import DimCoord

            c.add_aux_coord(DimCoord(np.int32(r[0]), "realization", units="1"))
        for k in sets[i]:
            c.add_cell_method(CM[k])
        if var:
            c.var_name = "v%d" % i
            c.coord("time").var_name = "t%d" % i
        return c

    if kind == "one":
        c = make(a[0])
        with cubes.Unchanged(c):
            r = MergeCubes().process(CubeList([c]))
            r2 = MergeCubes().process(c)
        cov.step()
        cubes.expect_cube(r, cubes.describe(c), "a single cube")
        cubes.expect_cube(r2, cubes.describe(c), "a cube")
        return "one"
    if kind == "realization":
        cl = CubeList([cube(i, 10 * i, r=rs) for i, rs in enumerate(a)])
        with cubes.Unchanged(*cl):
            r = MergeCubes().process(cl, slice_over_realization=True)
        cov.step()
        want = {}
        for c, rs in zip(cl, a):
            for k, q in enumerate(rs):
                want[q] = c.data[k] if c.ndim == 3 else c.data
        got = list(r.coord("realization").points)
        expect(sorted(got) == sorted(want), "realizations", got=got)
        for k, q in enumerate(got):
            expect_same(r.data[k], want[q], "realization %d" % q)
    elif kind == "bounds":
        cl = CubeList([cube(i, 4 * i + 4, bound=b) for i, b in enumerate(a)])
        bad = len(set(a)) > 1
        with cubes.Unchanged(*cl):
            if bad and not (att and 0 not in a):
                return "not claimed"
            if bad:
                e = raises(MergeCubes().process, cl, check_time_bounds_ranges=att)
                cov.step()
                expect(e is not None, "different periods must be refused", got=e)
                return "refused"
            r = MergeCubes().process(cl, check_time_bounds_ranges=att)
        cov.step()
        expect(len(r.coord("time").points) == 3, "times", got=r.coord("time").points)
        return "bounds"
    else:
        cl = CubeList([cube(i, h) for i, h in enumerate(a)])
        with cubes.Unchanged(*cl):
            r = MergeCubes().process(cl)
        cov.step()
        got = [int(v) for v in (r.coord("time").points - cubes.T0) // H]
        expect(sorted(got) == sorted(a), "times", got=got)
        for k, h in enumerate(got):
            expect_same(r.data[k], cl[a.index(h)].data, "time %d" % h)
        expect(list((r.coord("forecast_period").points) // H) == got, "forecast periods", got=r.coord("forecast_period").points)
    common = {k: v for k, v in atts[0].items() if all(k in x and x[k] == v for x in atts[:len(cl)])}
    expect(r.attributes == common, "attributes all cubes share", expected=common, got=r.attributes)
    ms = set(sets[0]) & set(sets[1]) & set(sets[2]) if kind == "time" else set()
    expect(set(r.cell_methods) == {CM[k] for k in ms}, "cell methods all cubes share", expected=ms, got=r.cell_methods)
    expect(r.var_name is None and all(q.var_name is None for q in r.coords()), "no variable names", got=r.var_name)
    return kind


# ------------------------------------------------------------ masks
def c_mask(tier):
    for lay in ["".join(p) for d in ("yx", "ryx") for p in itertools.permutations(d)]:
        for mlay in ["".join(p) for p in itertools.permutations(lay)]:
            for kind in ("bool", "int", "float", "int8"):
                for inv in (False, True):
                    for masked in (False, True):
                        for first in (0, 1):
                            yield ("mask", lay, mlay, [kind, inv, masked, first])
    for k in range(5):
        yield ("refuse", k, 0, 0)


def masks(case, cov):
    import cubes
    import numpy as np
    from improver.utilities.mask import apply_mask
    from iris.cube import CubeList

    kind, a, b, c_ = case
    if kind == "refuse":
        c, m = make("yx"), make("yx", name="land_binary_mask")
        f = [lambda: apply_mask(c, mask_name="land_binary_mask"), lambda: apply_mask(c, m, m.copy(), mask_name="land_binary_mask"), lambda: apply_mask(c, m, mask_name="other"),
             lambda: apply_mask(make("ryx"), m, mask_name="land_binary_mask"), lambda: apply_mask(c, make("ryx", name="land_binary_mask"), mask_name="land_binary_mask")][a]
        e = raises(f)
        cov.step()
        expect(e is not None, "must be refused", got=e)
        return "refused"
    dt, inv, masked, first = c_
    c = make(a, mask=masked)
    m = make(b, name="land_binary_mask")
    v = (np.ma.getdata(m.data) % 3 == 0)
    m.data = v.astype({"bool": bool, "int": np.int32, "float": np.float32, "int8": np.int8}[dt])
    args = [m, c] if first else [c, m]
    with cubes.Unchanged(c, m):
        r = apply_mask(*args, mask_name="land_binary_mask", invert_mask=inv)
        r2 = apply_mask(CubeList(args), mask_name="land_binary_mask", invert_mask=inv)
    cov.step(2)
    perm = [b.index(d) for d in a]
    w = v.transpose(perm)
    w = (~w if inv else w) | np.ma.getmaskarray(c.data)
    for q in (r, r2):
        expect((np.ma.getmaskarray(q.data) == w).all(), "mask", expected=w, got=np.ma.getmaskarray(q.data))
        expect((np.ma.getdata(q.data) == np.ma.getdata(c.data)).all() and q.data.dtype == np.float32, "data", got=q.data)
        x, y = cubes.describe(q, data=False), cubes.describe(c, data=False)
        expect(cubes.diff(x, y) is None, "description", got=cubes.diff(x, y))
    return "mask"


# ------------------------------------------------------------ comparing descriptions
def c_compare(tier):
    V = [None, 1, 2]
    for a in itertools.product(V, repeat=3):
        for b in itertools.product(V, repeat=2):
            yield ("attributes", list(a), list(b))
    for ks in itertools.product(range(6), repeat=2):
        for ign in (0, 1, 2):
            yield ("coords", list(ks), ign)
    for k in range(12):
        yield ("times", k, 0)


def compare(case, cov):
    import cubes
    import numpy as np
    from improver.utilities import cube_manipulation as M
    from iris.coords import AuxCoord
    from iris.cube import CubeList

    kind, a, b = case
    if kind == "attributes":
        # mosg__a and mosg__arr and other over three cubes (the second attribute for two of them)
        atts = [{"mosg__a": a[i], "other": b[i % 2], "mosg__arr": None if a[i] is None else np.array([a[i], 3])} for i in range(3)]
        atts = [{k: v for k, v in q.items() if v is not None} for q in atts]
        cl = CubeList([cubes.grid(np.zeros((1, 1), np.float32), attributes=q) for q in atts])
        for filt in (None, "mosg", "zzz"):
            f = [{k: v for k, v in q.items() if filt is None or filt in k} for q in atts]
            same = {k for k in f[0] if all(k in q and np.all(q[k] == f[0][k]) for q in f)}
            want = [{k: v for k, v in q.items() if k not in same} for q in f]
            with cubes.Unchanged(*cl):
                got = M.compare_attributes(cl, attribute_filter=filt)
            cov.step()
            ok = len(got) == 3 and all(set(g) == set(w) and all(np.all(g[k] == w[k]) for k in w) for g, w in zip(got, want))
            expect(ok, "the attributes not shared", expected=want, got=got)
        return "attributes"
    if kind == "coords":
        def var(k):
            c = make("ryx", {"r": [0, 1, 2]})
            if k == 1:
                c.coord("realization").points = np.array([0, 1, 3], np.int32)
            if k == 2:
                c.coord("time").points = c.coord("time").points + H
            if k == 3:
                c.remove_coord("forecast_period")
            if k == 4:
                c.add_aux_coord(AuxCoord(np.arange(3, dtype=np.float32), long_name="extra"), 0)
            if k == 5:
                c.coord("projection_x_coordinate").points = c.coord("projection_x_coordinate").points + np.float32(1)
            return c

        cl = CubeList([var(k) for k in a])
        ignored = [None, ["time"], ["realization", "extra"]][b]
        touched = {1: "realization", 2: "time", 3: "forecast_period", 4: "extra", 5: "projection_x_coordinate"}
        differ = {touched[k] for k in a if k} if a[0] != a[1] else set()
        want = [{n for n in differ if n not in (ignored or []) and c.coords(n)} for c in cl]
        with cubes.Unchanged(*cl):
            got = M.compare_coords(cl, ignored_coords=ignored)
        cov.step()
        expect([set(g) for g in got] == want, "the coordinates not shared", expected=want, got=got)
        for g, c in zip(got, cl):
            for n, q in g.items():
                dims = c.coord_dims(n)
                isdim = c.coord(n) in c.dim_coords
                expect(q["coord"] == c.coord(n) and q["data_dims"] == (dims[0] if isdim else None) and q["aux_dims"] == (dims[0] if dims and not isdim else None), "where the coordinate is", got=q)
        return "coords"
    from improver.utilities.cube_checker import assert_spatial_coords_match, assert_time_coords_valid, find_dimension_coordinate_mismatch, spatial_coords_match

    k = a
    z = np.zeros((2, 2), np.float32)
    A = lambda t=3, f=0, b=0, blend=None, **kw: _timed(z, t, f, b, blend, **kw)
    if k < 8:
        cl, flag, ok = [
            ([A(), A()], False, True), ([A(b=1), A(b=1)], True, True), ([A(b=1), A(b=1)], False, False), ([A(b=1), A()], True, False), ([A(), A(4)], False, False), ([A(), A(f=1)], False, False),
            ([A(blend=0), A(f=1, blend=1)], False, True), ([A()], False, False),
        ][k]
        e = raises(assert_time_coords_valid, cl, flag)
        cov.step()
        expect((e is None) == ok and (e is None or isinstance(e, ValueError)), "times valid", expected=ok, got=e)
        return "valid" if ok else "refused"
    cl, ok = [([A(), A(5)], True), ([A(), A(origin=(1.0, 0.0))], False), ([A(), A(), A(origin=(0.0, 5.0))], False), ([A(origin=(0.0, 5.0)), A(), A()], False)][k - 8]
    got = spatial_coords_match(cl)
    e = raises(assert_spatial_coords_match, cl)
    cov.step(2)
    expect(bool(got) == ok and (e is None) == ok, "grids match", expected=ok, got=(got, e))
    mm = find_dimension_coordinate_mismatch(make("ryx"), make("tyx"))
    expect(sorted(mm) == ["realization", "time"] and find_dimension_coordinate_mismatch(make("ryx"), make("tyx"), two_way_mismatch=False) == ["time"] and find_dimension_coordinate_mismatch(make("ryx"), make("yx"), two_way_mismatch=False) == [], "mismatching dimensions", got=mm)
    return "grids"


def _timed(z, t, f, b, blend, **kw):
    import cubes
    import numpy as np
    from iris.coords import DimCoord

    c = cubes.grid(z, time=cubes.T0 + t * H, frt=cubes.T0 + f * H, time_bounds=(cubes.T0 + (t - b) * H, cubes.T0 + t * H) if b else None, **kw)
    if blend is not None:
        c.add_aux_coord(DimCoord(np.int64(cubes.T0 + blend * H), long_name="blend_time", units=cubes.EPOCH))
    return c


# ------------------------------------------------------------ bounds, members and requirements
def c_expand(tier):
    spans = [(0, 3), (3, 6), (1, 2), (-2, 9), (4, 4)]
    for n in (1, 2, 3):
        for s in itertools.permutations(range(5), n):
            yield ("bounds", list(s), "all")
            yield ("bounds", list(s), "none")
            if n > 1:
                for k in range(1, 2 ** n - 1):
                    yield ("bounds", list(s), [int(bool(k & 1 << i)) for i in range(n)])
    # which of three realizations is there at each of three times
    for have in itertools.product(range(1, 8), repeat=3 if tier != "quick" else 2):
        for multi in (0, 1):
            yield ("filter", list(have), multi)
    for lo, hi in itertools.product((None, -10.0, 0.0, 10.0), repeat=2):
        for pts in ([-10.0, 0.0, 10.0], [-20.0, -5.0, -1.0], [0.0, 5.0, 10.0]):
            yield ("zero", pts, [lo, hi])
    for u in ("m", "km", "ft"):
        for low in (False, True):
            yield ("units", u, low)
    for k in range(3):
        for mask in (False, True):
            yield ("std1", k, mask)
    for k in range(6):
        yield ("threshold", k, 0)
    for bounds in itertools.product((1, 2), repeat=3):
        for chk in (False, True):
            for n in ("time", "forecast_period", "both"):
                yield ("single", list(bounds), [chk, n])
    for k in range(4):
        for mask in (False, True):
            yield ("masked mask", k, mask)
    for drop in ("", "r", "y", "x", "yx", "rx"):
        for dims in ("yx", "ryx", "xry"):
            yield ("axes", dims, drop)
    for where in itertools.product((0, 1), repeat=3):
        for what in range(4):
            yield ("agree", list(where), what)
    for lay in ("yx", "ryx", "xyr", "rtyx", "xtry"):
        for n in range(3):
            for locs in itertools.product(range(5), repeat=n):
                if n and max(locs) <= len(lay):
                    yield ("exceptions", lay, list(locs))


def expand(case, cov):
    import cubes
    import iris
    import numpy as np
    from improver.utilities import cube_checker as K
    from improver.utilities import cube_manipulation as M
    from iris.coords import AuxCoord, CellMethod, DimCoord
    from iris.cube import CubeList

    kind, a, b = case
    z = np.zeros((1, 2), np.float32)
    if kind == "bounds":
        spans = [(0, 3), (3, 6), (1, 2), (-2, 9), (4, 4)]
        has = [1] * len(a) if b == "all" else [0] * len(a) if b == "none" else b

        def one(lo, hi, bounded):
            c = cubes.grid(z, time=cubes.T0 + hi * H, frt=cubes.T0 - 5 * H, time_bounds=(cubes.T0 + lo * H, cubes.T0 + hi * H) if bounded else None)
            q = AuxCoord(np.array([hi * 1.1], np.float32), long_name="depth", units="m")
            if bounded:
                q.bounds = np.array([[lo * 1.1, hi * 1.1]], np.float32)
            c.add_aux_coord(q)
            return c

        cl = CubeList([one(*spans[i], bool(h)) for i, h in zip(a, has)])
        names = ["time", "forecast_period", "depth"]
        r = one(0, 0, False)
        with cubes.Unchanged(*cl):
            if 0 < sum(has) < len(has):
                for n in names:
                    e = raises(M.expand_bounds, one(0, 0, False), cl, [n])
                    cov.step()
                    expect(isinstance(e, ValueError), "some inputs have bounds and some do not: must be refused", got=e)
                return "refused"
            got = M.expand_bounds(r, cl, names)
        cov.step()
        lo = min(spans[i][0 if has[0] else 1] for i in a)
        hi = max(spans[i][1] for i in a)
        ts = got.coord("time")
        expect(ts.points.tolist() == [cubes.T0 + hi * H] and ts.bounds.tolist() == [[cubes.T0 + lo * H, cubes.T0 + hi * H]] and ts.points.dtype == np.int64 and ts.bounds.dtype == np.int64, "times", expected=(lo, hi), got=(ts.points, ts.bounds))
        fs = got.coord("forecast_period")
        expect(fs.points.tolist() == [(hi + 5) * H] and fs.bounds.tolist() == [[(lo + 5) * H, (hi + 5) * H]], "forecast periods", expected=(lo, hi), got=(fs.points, fs.bounds))
        ds = got.coord("depth")
        expect_close(ds.bounds, [[lo * 1.1, hi * 1.1]], "a coordinate of real numbers", rtol=1e-6)
        expect_close(ds.points, [hi * 1.1], "its point", rtol=1e-6)
        expect(ds.points.dtype == np.float32 and ds.bounds.dtype == np.float32, "types", got=(ds.points.dtype, ds.bounds.dtype))
        e = raises(M.expand_bounds, make("tyx"), cl, ["time"])
        expect(isinstance(e, ValueError), "several points must be refused", got=e)
        return "bounds"
    if kind == "filter":
        cl = CubeList()
        ids = (0, 4, 7)
        val = lambda t, r: 100.0 * t + r
        for t, k in enumerate(a):
            rs = [ids[i] for i in range(3) if k & 1 << i]
            T = cubes.T0 + (3 + t) * H
            if b and len(rs) > 1:
                c = cubes.grid(np.stack([np.full((1, 2), val(t, r), np.float32) for r in rs]), leading=[("realization", rs, "1")], time=T)
                cl.append(c)
            else:
                for r in rs:
                    c = cubes.grid(np.full((1, 2), val(t, r), np.float32), time=T)
                    c.add_aux_coord(DimCoord(np.array([r], np.int32), standard_name="realization", units="1"))
                    cl.append(c)
        full = [ids[i] for i in range(3) if all(k & 1 << i for k in a)]
        with cubes.Unchanged(*cl):
            if not full:
                e = raises(M.filter_realizations, cl)
                cov.step()
                expect(e is not None, "no realization has every time", got=e)
                return "none"
            r = M.filter_realizations(cl)
        cov.step()
        expect(sorted(r.coord("realization").points.tolist()) == full, "the realizations with every time", expected=full, got=r.coord("realization").points)
        ts = [int(v - cubes.T0) // H - 3 for v in r.coord("time").points]
        expect(sorted(ts) == list(range(len(a))), "times", got=ts)
        for i, q in enumerate(r.coord("realization").points):
            s = r.extract(iris.Constraint(realization=int(q)))
            for t in range(len(a)):
                d = s.data[ts.index(t)]
                expect((d == val(t, q)).all(), "realization %d time %d" % (q, t), expected=val(t, q), got=d)
        return "filter"
    if kind == "zero":
        lo, hi = b
        c = make("hyx", {"h": a})
        use = [i for i, h in enumerate(a) if (lo is None or h >= lo) and (hi is None or h <= hi)]
        with cubes.Unchanged(c):
            if not use:
                e = raises(M.maximum_in_height, c, lo, hi)
                cov.step()
                expect(isinstance(e, ValueError), "must be refused", got=e)
                return "refused"
            r = M.maximum_in_height(c, lo, hi)
        cov.step()
        expect_same(r.data, c.data[use].max(axis=0), "levels from %s to %s" % (lo, hi))
        return "zero"
    if kind == "units":
        c = make("hyx")
        c.coord("height").units = a
        c.units = "m s-1"
        m = M.maximum_in_height(c)
        r = M.height_of_maximum(c, m, b)
        cov.step()
        expect(str(r.units) == a and str(m.units) == "m s-1", "units of the height", got=r.units)
        expect_close(r.data, np.array([10.0, 50.0, 75.0])[c.data.argmax(axis=0)], "height", rtol=1e-6)
        return "units"
    if kind == "std1":
        c = make("ryx", {"r": [4]}, mask=b)
        if a == 1:
            c.data = np.ma.masked_array(np.ma.getdata(c.data), np.ones(c.shape, bool))
        if a == 2:
            c.data = np.ma.masked_array(np.ma.getdata(c.data), np.zeros(c.shape, bool))
        with cubes.Unchanged(c):
            r = M.collapse_realizations(c, method="std_dev")
        cov.step()
        g = r.data
        expect((np.ma.getmaskarray(g) | np.isnan(np.ma.getdata(g))).all(), "one member has no standard deviation", got=g)
        if np.ma.is_masked(g):
            expect(np.isnan(np.ma.getdata(g)).all(), "nor beneath the mask", got=np.ma.getdata(g))
        return "std1"
    if kind == "threshold":
        cl = CubeList([cubes.prob(np.full((2, 1, 2), 0.1 * i, np.float32), [1.0, 2.0], time=cubes.T0 + (3 + i) * H) for i in range(2 + a % 2)])
        n = cl[0].coords(dim_coords=True)[0].name()
        for i, c in enumerate(cl):
            c.coord("time").var_name = "tv"
            if a > 3:
                c.var_name = "v%d" % i
        r = M.MergeCubes().process(cl) if a < 5 else M.strip_var_names(cl[0])[0]
        cov.step()
        expect(r.coord(n).var_name == "threshold" and r.coord("time").var_name is None and r.var_name is None, "only the threshold coordinate keeps its name", got=[q.var_name for q in r.coords()])
        # cell methods every cube has, not only first and last
        cm = [CellMethod("mean", coords="time"), CellMethod("max", coords="time"), CellMethod("sum", coords="time")]
        sets = [[[0, 1], [1], [0, 1]], [[0, 1, 2], [0, 1], [1, 2]], [[0], [1], [0]], [[0, 1], [], [0, 1]], [[0, 1], [0], [1]], [[1], [1, 0], [1, 2]]][a]
        cl = CubeList([cubes.grid(z + i, time=cubes.T0 + (3 + i) * H) for i in range(3)])
        for c, s in zip(cl, sets):
            for k in s:
                c.add_cell_method(cm[k])
        with cubes.Unchanged(*cl):
            r = M.MergeCubes().process(cl)
        cov.step()
        want = set(sets[0]) & set(sets[1]) & set(sets[2])
        expect(set(r.cell_methods) == {cm[k] for k in want}, "cell methods all three share", expected=want, got=r.cell_methods)
        return "threshold"
    if kind == "single":
        chk, n = b
        c = make("tyx", {"t": [cubes.T0 + 3 * H * (1 + i) for i in range(3)]})
        for q in ("time", "forecast_period"):
            co = c.coord(q)
            w = a if n in (q, "both") else [1, 1, 1]
            co.bounds = np.array([[p - k * H, p] for p, k in zip(co.points, w)], co.points.dtype)
        bad = len(set(a)) > 1
        for f in (lambda: M.MergeCubes().process([c], check_time_bounds_ranges=chk), lambda: M.MergeCubes().process(CubeList([c]), check_time_bounds_ranges=chk)):
            with cubes.Unchanged(c):
                e = raises(f)
            cov.step()
            expect((e is not None) == (bad and chk), "periods of different length are refused when asked", expected=bad and chk, got=e)
        return "single"
    if kind == "masked mask":
        from improver.utilities.mask import apply_mask

        c = make("yx", mask=b)
        m = make("yx", name="land_binary_mask")
        v = np.array([[1, 0, 1, 0], [0, 0, 1, 1]], bool)
        hidden = np.array([[1, 1, 0, 0], [0, 0, 0, 0]], bool)
        m.data = np.ma.masked_array(v.astype([bool, np.int32, np.float32, np.int8][a]), hidden)
        for inv in (False, True):
            with cubes.Unchanged(c, m):
                r = apply_mask(c, m, mask_name="land_binary_mask", invert_mask=inv)
            cov.step()
            w = (~v if inv else v) | np.ma.getmaskarray(c.data)
            got = np.ma.getmaskarray(r.data)
            expect((got == w)[~hidden].all(), "mask where the mask is known", expected=w, got=got)
        # every dimension of the cube must be in the mask
        for l, k in (("ryx", "yx"), ("yx", "ryx"), ("tyx", "ryx"), ("rtyx", "tyx")):
            x, y = make(l), make(k, name="land_binary_mask")
            y.data = y.data > 5
            e = raises(apply_mask, x, y, mask_name="land_binary_mask")
            expect(isinstance(e, ValueError) and "imension" in str(e), "dimensions %s and mask %s must be refused" % (l, k), got=e)
        return "mask"
    if kind == "axes":
        c = make(a)
        for d in b:
            if d in a:
                c.remove_coord(NAMES[d])
        with cubes.Unchanged(c):
            e = raises(K.check_for_x_and_y_axes, c)
            e2 = raises(K.check_for_x_and_y_axes, c, True)
        cov.step(2)
        bad = "x" in b or "y" in b
        expect((e is not None) == bad and (e2 is not None) == bad, "axes", expected=bad, got=(e, e2))
        if not bad:
            for ax in "yx":  # a scalar coordinate is an axis but no dimension
                s = c[tuple(0 if d == ax else slice(None) for d in a)]
                e, e2 = raises(K.check_for_x_and_y_axes, s), raises(K.check_for_x_and_y_axes, s, require_dim_coords=True)
                cov.step(2)
                expect(e is None and isinstance(e2, ValueError), "a scalar axis", got=(e, e2))
        return "axes"
    if kind == "agree":
        # three cubes; the given ones differ in one respect
        def cube(w):
            kw = {}
            if what == 0:
                kw = dict(origin=(0.0, 5.0 * w))
            if what == 1:
                kw = dict(origin=(5.0 * w, 0.0))
            return _timed(z, 3 + (w if what == 2 else 0), (-w if what == 3 else 0), 0, None, **kw)

        what = b
        cl = [cube(w) for w in a]
        same = len(set(a)) == 1
        if what < 2:
            got = K.spatial_coords_match(cl)
            e = raises(K.assert_spatial_coords_match, cl)
            cov.step(2)
            expect(bool(got) == same and (e is None) == same, "grids match", expected=same, got=(got, e))
        else:
            e = raises(K.assert_time_coords_valid, cl, False)
            cov.step()
            expect((e is None) == same, "times match", expected=same, got=e)
            # with a blend time on the first, reference times need not agree
            if what == 3:
                c = CubeList([_timed(z, 3, -w, 0, 0 if i == 0 else None) for i, w in enumerate(a)])
                e = raises(K.assert_time_coords_valid, c, False)
                expect(e is None, "a blend time on the first cube", got=e)
                # not so when only a later one has it
                c = CubeList([_timed(z, 3, -w, 0, 0 if i == 2 else None) for i, w in enumerate(a)])
                e = raises(K.assert_time_coords_valid, c, False)
                expect((e is None) == same, "a blend time on the last cube only", got=e)
        return "agree"
    c = make(a)
    n = cubes.transposed(c, [NAMES[d] for d in a[::-1]])
    exc = []
    for i, loc in enumerate(b):
        exc.append("extra%d" % i)
        n = M.add_coordinate_to_cube(n, DimCoord(np.arange(2 + i, dtype=np.float32), long_name=exc[-1], units="1"), new_dim_location=loc)
    for e_ in (exc, exc[::-1]):
        before = [q.name() for q in n.coords(dim_coords=True)]
        r = K.check_cube_coordinates(c, n.copy(), exception_coordinates=e_)
        cov.step()
        names = [q.name() for q in r.coords(dim_coords=True)]
        expect([q for q in names if q not in exc] == [NAMES[d] for d in a], "the dimensions of the original in its order", expected=a, got=names)
        expect(all(names.index(q) == before.index(q) for q in exc), "extra dimensions stay where they were", expected=before, got=names)
        s = r[tuple(1 if q in exc else slice(None) for q in names)]
        expect_same(s.data, c.data, "data")
    e = raises(K.check_cube_coordinates, c, n.copy())
    expect(e is not None, "an unexpected dimension must be refused", got=e)
    e = raises(K.check_cube_coordinates, c, n.copy(), exception_coordinates=["absent"] + exc[1:])
    expect(e is not None, "an absent exception must be refused", got=e)
    # the description is copied only when asked
    for md in (False, True):
        src = make("yx", attributes={"k": 1})
        src.add_cell_method(CellMethod("mean", coords="time"))
        r = M.add_coordinate_to_cube(src, DimCoord(np.arange(2, dtype=np.float32), long_name="new", units="1"), 1, copy_metadata=md)
        want = (src.name(), str(src.units), src.attributes, src.cell_methods) if md else ("unknown", "unknown", {}, ())
        got = (r.name(), str(r.units), dict(r.attributes), tuple(r.cell_methods))
        expect(got == want, "description copied: %s" % md, expected=want, got=got)
    return "exceptions"


SECTIONS = [
    Section("order", c_order, order), Section("values", c_values, values), Section("collapse", c_collapse, collapse), Section("merge", c_merge, merge), Section("mask", c_mask, masks), Section("compare", c_compare, compare), Section("expand", c_expand, expand),
]

if __name__ == "__main__":
    main(globals())
