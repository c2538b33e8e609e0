"""C35: extraction by constraints, onto levels and from tables."""
import itertools

from mc import Section, Violation, expect, expect_close, expect_same, main, raises

PROPERTY = "C35"
H = 3600
ATT = {"title": "T", "source": "S", "institution": "I"}


# ------------------------------------------------------------ constraints
AXES = {
    "realization": [0, 1, 2, 5],
    "threshold": [0.0, 2.7777778e-08, 2.7777778e-07, 1.3888889e-06],
    "air_temperature": [-20.0, -10.0, 0.0, 10.5],
    "projection_x_coordinate": [-4000.0, -2000.0, 0.0, 2000.0, 4000.0],
    "time": None,
}


def field(dims, masked=False):
    """A cube of distinct values over the named dimensions and y, x."""
    import cubes
    import numpy as np

    sp = {
        "realization": ("realization", AXES["realization"], "1"),
        "threshold": ("lwe_precipitation_rate", AXES["threshold"], "m s-1", np.float32, {"spp__relative_to_threshold": "greater_than"}, True),
        "air_temperature": ("air_temperature", AXES["air_temperature"], "celsius"),
        "time": ("time", [cubes.T0 + H, cubes.T0 + 3 * H], cubes.EPOCH),
    }
    lead = [sp[d] for d in dims]
    n = tuple(len(s[1]) for s in lead) + (2, 5)
    a = np.arange(int(np.prod(n)), dtype=np.float32).reshape(n)
    if masked:
        a = np.ma.masked_array(a, a % 3 == 1)
    return cubes.grid(a, name="field", units="1", leading=lead, attributes=ATT, origin=(0.0, -4000.0), scalars=[("height", 1.5, "m")])


def c_constraints(tier):
    R = AXES["realization"]
    T = AXES["air_temperature"]
    X = [-4000.0, -2000.0, 0.0, 2000.0, 4000.0]
    for v in [0, 1, 5, 7]:
        yield ("one", "realization=%s" % v, None, [["realization"], 0])
        yield ("one", " realization = %s " % v, None, [["realization", "time"], 1])
    for n in (1, 2, 3, 4):
        for vs in itertools.permutations(R + [9], n):
            if n < 4 or vs[0] < 2:
                yield ("list", "realization=[%s]" % ",".join(map(str, vs)), list(vs), [["realization"], 0])
    ends = sorted(set(T) | {-15.0, -25.0, 20.0, 5.0})
    for lo, hi in itertools.product(ends, repeat=2):
        for form in ("[%s:%s]", "%s:%s", "[%g:%g]"):
            yield ("range", "air_temperature=" + form % (lo, hi), [lo, hi], [["air_temperature", "realization"][: 1 + (lo < 0)], 0])
    xe = sorted(set(X) | {-5000.0, -3000.0, 1000.0})
    for lo, hi in itertools.product(xe, repeat=2):
        if lo > hi:
            continue
        for step in (None, 1, 2, 3):
            yield ("xrange", "projection_x_coordinate=[%s:%s%s]" % (lo, hi, "" if step is None else ":%d" % step), [lo, hi, step], [["realization"], 1])
    th = [0.0, 0.1, 1.0, 5.0]
    for n in (1, 2):
        for vs in itertools.permutations(th + [3.0], n):
            yield ("units", "lwe_precipitation_rate=[%s]" % ",".join(map(str, vs)), list(vs), [["threshold"], 0])
    for lo, hi in itertools.product(th + [0.5], repeat=2):
        yield ("units", "lwe_precipitation_rate=[%s:%s]" % (lo, hi), [[lo, hi]], [["realization", "threshold"], 0])
    for k in (0.0, 253.15, 263.15, 273.15, 283.65, 263.0):
        for own in (False, True):
            yield ("kelvin", k, own, 0)
    for a, b, c in itertools.product(("", "realization=[1,5]", "realization=7"), ("", "air_temperature=[-10:0]", "air_temperature=10.5"), ("", "projection_x_coordinate=[-2000:4000:2]", "height=1.5", "height=2")):
        if a or b or c:
            yield ("several", [q for q in (a, b, c) if q], 0, 0)
    for cons in (["realization=7"], ["absent=3"], ["realization=1", "absent=2"], ["height=10"], ["realization=7", "projection_x_coordinate=[0:2000:2]"], ["longitude=[0:10]", "realization=7"]):
        for ign in (False, True):
            yield ("fail", cons, ign, 0)
    for w in ("03002", "13002", "99999", "0", "Exeter", "St Ives", "4a", "x-y", "a=b", "None"):
        for q in (0, 1):
            yield ("string", w, q, 0)
    for lo, hi in itertools.product((-180, -90, -45, -10, 0, 10, 100, 180, 270), repeat=2):
        if 0 <= hi - lo < 360:
            for org in (0, -180):
                yield ("longitude", [lo, hi], org, 0)
    for lo, hi in ((-0.5, 0.5), (9.9, 20.1), (10.1, 19.9), (10.1, 29.9), (-20.2, -9.7), (169.5, 190.5), (-10.0, 10.25)):
        for org in (0, -180):
            yield ("longitude", [lo, hi], org, 0)
    for v in (0, 0.0, 1e-9, -5e-9, 1e-5, 250.0, 250.001, 250.01):
        yield ("near", v, 0, 0)
    for k in range(3):
        yield ("bad", k, 0, 0)


def index(pts, want, tol=1e-6):
    return [i for i, p in enumerate(pts) if any(abs(p - w) <= 1e-12 + tol * abs(w) for w in want)]


def constraints(case, cov):
    import cubes
    import numpy as np
    from improver.utilities.cube_extraction import ExtractSubCube as E

    kind, con, a, b = case

    def take(c, name, idx):
        sl = [slice(None)] * c.ndim
        (d,) = c.coord_dims(name)
        sl[d] = idx[0] if len(idx) == 1 else idx
        return c[tuple(sl)]

    def judge(c, cons, name, idx, **kw):
        p = E(cons, **kw)
        for rnd in range(2):
            with cubes.Unchanged(c):
                if not idx:
                    e = raises(p.process, c)
                    cov.step()
                    expect(isinstance(e, ValueError), "nothing matches: must be refused", got=e)
                    r = E(cons, ignore_failure=True, **kw).process(c)
                    cubes.expect_cube(r, cubes.describe(c), "nothing matches: the input is returned")
                    return None
                r = p.process(c)
            cov.step()
            want = take(c, name, idx)
            if "units" in kw:  # converting there and back rounds
                expect_close(r.coord(name).points, want.coord(name).points, "points", rtol=1e-5, atol=1e-12 if name != "air_temperature" else 1e-4)
                expect(r.coord(name).points.dtype == np.float32, "type of points", got=r.coord(name).points.dtype)
                want.coord(name).points = r.coord(name).points
            cubes.expect_cube(r, cubes.describe(want), "the matching part")
        return r

    if kind in ("one", "list", "range"):
        c = field(b[0], bool(b[1]))
        name = "air_temperature" if kind == "range" else "realization"
        pts = AXES[name]
        if kind == "one":
            idx = index(pts, [int(con.split("=")[1])])
        elif kind == "list":
            idx = index(pts, a)
        else:
            idx = [i for i, p in enumerate(pts) if min(a) <= p <= max(a)]
        judge(c, [con], name, idx)
        return kind
    if kind == "xrange":
        c = field(b[0], bool(b[1]))
        lo, hi, step = a
        idx = [i for i, p in enumerate(AXES["projection_x_coordinate"]) if lo <= p <= hi]
        if len(idx) == 1 and step:
            return "a thinned scalar is not claimed"
        idx = idx[:: step or 1]
        judge(c, [con], "projection_x_coordinate", idx) if len(idx) != 1 or not step else None
        return kind
    if kind == "units":
        c = field(b[0])
        th = [0.0, 0.1, 1.0, 5.0]
        idx = [i for i, t in enumerate(th) if (min(a[0]) <= t <= max(a[0]) if isinstance(a[0], list) else t in a)]
        if idx == [0] and isinstance(a[0], float):
            pass
        judge(c, [con], "lwe_precipitation_rate", idx, units=["mm h-1"])
        for none in ("None", "none", None):
            judge(c, [con, "height=1.5"], "lwe_precipitation_rate", idx, units=["mm h-1", none])
        return kind
    if kind == "kelvin":
        c = field(["air_temperature"])
        ks = [273.15 + t for t in AXES["air_temperature"]]
        idx = [i for i, k in enumerate(ks) if abs(k - con) < 1e-3]
        if not a:
            judge(c, ["air_temperature=%s" % con], "air_temperature", idx, units=["K"])
            return kind
        if idx:
            with cubes.Unchanged(c):
                r = E(["air_temperature=%s" % con], units=["K"], use_original_units=False).process(c)
            cov.step()
            expect(str(r.coord("air_temperature").units) == "K", "units asked", got=r.coord("air_temperature").units)
            expect_close(r.coord("air_temperature").points, [ks[idx[0]]], "points", rtol=1e-6)
            expect_same(r.data, c.data[idx[0]], "data")
        return kind
    if kind == "several":
        c = field(["realization", "air_temperature"])
        with cubes.Unchanged(c):
            bad = any(q in ("realization=7", "height=2") for q in con)
            p = E(con)
            if bad:
                e = raises(p.process, c)
                cov.step()
                expect(isinstance(e, ValueError), "must be refused", got=e)
                return "refused"
            r = p.process(c)
            r2 = E(con[::-1]).process(c)
        cov.step(2)
        w = c
        if "realization=[1,5]" in con:
            w = take(w, "realization", [1, 3])
        if "air_temperature=[-10:0]" in con:
            w = take(w, "air_temperature", [1, 2])
        if "air_temperature=10.5" in con:
            w = take(w, "air_temperature", [3])
        if "projection_x_coordinate=[-2000:4000:2]" in con:
            w = take(w, "projection_x_coordinate", [1, 3])
        cubes.expect_cube(r, cubes.describe(w), "all constraints")
        cubes.expect_cube(r2, cubes.describe(w), "all constraints, in another order")
        return kind
    if kind == "fail":
        c = cubes.grid(np.zeros((2, 2, 3), np.float32), leading=[("realization", [0, 1], "1")], spatial="latlon", spacing=5.0, scalars=[("height", 1.5, "m")]) if "long" in con[0] else field(["realization"])
        with cubes.Unchanged(c):
            if a:
                r = E(con, ignore_failure=True).process(c)
                cov.step()
                cubes.expect_cube(r, cubes.describe(c), "the input is returned")
            else:
                e = raises(E(con).process, c)
                cov.step()
                expect(isinstance(e, ValueError), "must be refused", got=e)
        return kind
    if kind == "string":
        from improver.spotdata.build_spotdata_cube import build_spotdata_cube

        wm = ["03002", "13002", "00000", "03003"]
        al = ["Exeter", "St Ives", "4a", "x-y"] if con not in ("a=b", "None") else ["a", "a=b", "None", "none"]
        c = build_spotdata_cube(np.arange(4, dtype=np.float32), "air_temperature", "K", np.zeros(4, np.float32), np.zeros(4, np.float32), np.zeros(4, np.float32), wm)
        from iris.coords import AuxCoord

        c.add_aux_coord(AuxCoord(np.array(al), long_name="site", units="no_unit"), 0)
        name = "wmo_id" if con.isdigit() else "site"
        vals = wm if name == "wmo_id" else al
        text = '"%s"' % con if a else con
        if not a and con in ("13002", "99999", "0", "None"):
            return "a number is not a string"
        idx = [i for i, v in enumerate(vals) if v == con]
        judge(c, ["%s=%s" % (name, text)], name, idx)
        return kind
    if kind == "near":
        c = cubes.grid(np.arange(24, dtype=np.float32).reshape(4, 2, 3), leading=[("height", [-3.0, 5e-9, 1.0, 250.0], "m")])
        pts = [float(q) for q in c.coord("height").points]
        idx = [i for i, q in enumerate(pts) if abs(q - con) <= 1e-8 + 1e-5 * abs(con)]
        judge(c, ["height=%r" % con], "height", idx)
        return kind
    if kind == "longitude":
        lo, hi = con
        c = cubes.grid(np.arange(2 * 36, dtype=np.float32).reshape(2, 36), spatial="latlon", spacing=10.0, origin=(0.0, float(a)))
        want = [lo + 10 * k for k in range(100) if lo + 10 * k <= hi] if lo % 10 == 0 else [q for q in range(-720, 720, 10) if lo <= q <= hi]
        if not want:
            return "no longitude there: not claimed"
        p = E(["longitude=[%s:%s]" % (lo, hi)])
        with cubes.Unchanged(c):
            r = p.process(c)
        cov.step()
        got = np.atleast_1d(r.coord("longitude").points)
        expect(r.coord("longitude").points.dtype == np.float32 and len(got) == len(want) and np.allclose(got, want), "longitudes", expected=want, got=got)
        d = cubes.arr(r, "latitude", "longitude") if r.ndim == 2 else r.data.reshape(2, 1)
        src = [[int(round((w - a) / 10)) % 36 for w in want]]
        expect_same(d, c.data[:, src[0]], "data at those longitudes")
        return kind
    k = con
    c = field(["realization"])
    e = raises([lambda: E(["realization=1"], units=["1", "K"]).process(c), lambda: E(["realization"]).process(c), lambda: E(["realization=[a:b]"]).process(c)][k])
    cov.step()
    expect(isinstance(e, ValueError), "must be refused", got=e)
    return "refused"


# ------------------------------------------------------------ levels
def c_levels(tier):
    lays = ["".join(p) for p in itertools.permutations("hyx")] + ["".join(p) for p in itertools.permutations("rhyx")]
    vals = (301.0, 300.0, 290.0, 286.0, 283.0, 280.0, 277.0, 250.0, 245.0, 240.0)
    for lay in lays:
        for coord in ("pressure", "height"):
            for rev in (False, True):
                for v in vals[1::4] if lay not in ("hyx", "rhyx") else vals:
                    yield (lay, coord, rev, v, 0)
    n = 4
    for bad in range(1, 2 ** n - 1):
        for rev in (False, True):
            for v in (301.0, 295.0, 290.0, 286.0, 283.0, 279.0, 270.0):
                for how in (1, 2, 3):
                    for lay in ("hyx", "rhyx", "hryx"):
                        if lay != "hyx" and how == 2:
                            continue
                        yield (lay, "pressure", rev, v, [how, bad])
                        if lay == "hyx" or how == 1 and lay == "hryx":
                            for lsd in (-1, 0, 1):
                                yield (lay, "height" if how == 3 else "pressure", rev, v, [how, bad, lsd])
    for k in range(2):
        yield ("refuse", k, 0, 0, 0)


def levels(case, cov):
    import cubes
    import numpy as np
    from improver.utilities.cube_extraction import ExtractLevel as E

    lay, coord, rev, v, miss = case
    L = [300.0, 286.0, 280.0, 262.0]
    if lay == "refuse":
        c = cubes.grid(np.ones((2, 2, 2), np.float32), leading=[("pressure", [1e5, 5e4], "Pa")], scalars=[("height", 1.0, "m")]) if coord == 0 else cubes.grid(np.ones((2, 2), np.float32))
        e = raises(E(positive_correlation=True, value_of_level=1.0).process, c)
        cov.step()
        expect(e is not None, "must be refused", got=e)
        return "refused"
    pts = {"pressure": [1e5, 8e4, 7e4, 4e4], "height": [0.0, 2000.0, 3500.0, 8000.0]}[coord]
    if rev:
        pts = pts[::-1]
    n = {"r": 2, "h": 4, "y": 2, "x": 3}
    base = ("r" if "r" in lay else "") + "hyx"
    off = np.arange(6).reshape(2, 3)
    col = np.array(L)[:, None, None] - 0.5 * off
    if "r" in lay:
        col = np.stack([col, col - 4])
    col = col.astype(np.float32)
    if miss:
        m = np.zeros(col.shape, bool)
        bad = [bool(miss[1] >> i & 1) for i in range(4)]
        m[..., :, 0, 1] = bad if "r" not in lay else m[..., :, 0, 1]
        if "r" in lay:
            m[1, :, 0, 1] = bad
            m[0, :, 1, 2] = bad
        col = {1: np.where(m, np.nan, col), 2: np.where(m, np.inf, col), 3: np.ma.masked_array(col, m)}[miss[0]]
        if miss[0] == 3:
            col.data[m] = 9.0
        col = col.astype(np.float32)
    lead = ([("realization", [0, 3], "1")] if "r" in lay else []) + [(coord, pts, "Pa" if coord == "pressure" else "m")]
    lsd = miss[2] if miss and len(miss) > 2 else None
    inc = 10.0 ** -(2 if lsd is None else lsd)
    att = dict(ATT) if lsd is None else dict(ATT, least_significant_digit=lsd)
    c = cubes.grid(col, leading=lead, name="air_temperature", units="K", attributes=att)
    cu = "Pa" if coord == "pressure" else "m"
    if int(v) % 2:  # the level coordinate in other units
        cu = "hPa" if coord == "pressure" else "km"
        c.coord(coord).convert_units(cu)
        pts = [float(q) for q in c.coord(coord).points]
    nm = {"r": "realization", "h": coord, "y": "projection_y_coordinate", "x": "projection_x_coordinate"}
    c = cubes.transposed(c, [nm[d] for d in lay])
    pos = (coord == "pressure") != rev  # the temperature falls along the axis
    pos = pts[0] > pts[-1]
    p = E(positive_correlation=pos, value_of_level=v)
    src = c.copy()
    for rnd in range(2):
        with cubes.Unchanged(c):
            r = p.process(c)
        cov.step()
        rest = lay.replace("h", "")
        expect([q.name() for q in r.coords(dim_coords=True)] == [nm[d] for d in rest], "dimensions", expected=rest, got=[q.name() for q in r.coords(dim_coords=True)])
        expect(not r.coords(coord) and r.attributes == att and str(r.units) == cu, "description", got=(r.units, r.attributes))
        expect(r.name() == ("pressure_of_atmosphere_at_%sK" if coord == "pressure" else "height_at_%sK") % v, "name", got=r.name())
        order = base.replace("h", "")
        got = cubes.arr(r, *[nm[d] for d in order])
        full = np.ma.masked_invalid(np.ma.masked_array(col))
        full = np.moveaxis(full, base.index("h"), 0)
        fm = np.ma.getmaskarray(full)
        want = np.empty(full.shape[1:])
        for i in np.ndindex(want.shape):
            val = [None if fm[(k,) + i] else float(np.ma.getdata(full)[(k,) + i]) for k in range(4)]
            for k in (2, 1, 0):
                if val[k] is None and val[k + 1] is not None:
                    val[k] = val[k + 1] + inc
            for k in (1, 2, 3):
                if val[k] is None:
                    val[k] = val[k - 1] - inc
            if v >= val[0]:
                want[i] = pts[0]
            elif v <= val[3]:
                want[i] = pts[3]
            else:
                k = max(q for q in range(3) if val[q] >= v)
                w = (val[k] - v) / (val[k] - val[k + 1])
                want[i] = pts[k] + w * (pts[k + 1] - pts[k])
        expect(not np.ma.is_masked(got), "no point is missing", got=got)
        expect_close(np.ma.getdata(got), want, "the level", rtol=1e-3 if miss else 1e-5, atol=1e-2 * (abs(pts[0]) + abs(pts[-1])) / 1e4)
    if not miss:  # the same plugin for other levels and the same shape
        c2 = c.copy()
        q = c2.coord(coord)
        q.points = (q.points * 0.5).astype(np.float32)
        r2 = p.process(c2)
        cov.step()
        expect_close(np.ma.getdata(r2.data), np.ma.getdata(r.data) * 0.5, "a plugin used again with other levels", rtol=1e-4, atol=1e-5 * (abs(pts[0]) + abs(pts[-1])))
        r3 = p.process(c)
        expect_same(r3.data, r.data, "and again with the first")
    return coord


# ------------------------------------------------------------ tables
def c_tables(tier):
    V = [-4.0, 0.0, 0.5, 1.0, 1.999999, 2.0, 2.5, 30.0, None]
    for rows, cols in itertools.product(((0, 1, 2, 3), (2, 0, 5), (1.5,)), repeat=2):
        for dt in ("float", "int"):
            for lay in range(4):
                for part in range(3):
                    yield ([*rows], [*cols], dt, lay, part)
    for k in range(3):
        yield ([0], [0], "refuse", k, 0)


def tables(case, cov):
    import cubes
    import numpy as np
    from improver.utilities.extract_from_table import ExtractValueFromTable as T

    rows, cols, dt, lay, part = case
    V = [-4.0, 0.0, 0.5, 1.0, 1.999999, 2.0, 2.5, 30.0, np.nan]
    data = {str(c): {str(r): (10 * r + c + 0.25 if dt == "float" else int(100 * r + 7 * c)) for r in rows} for c in cols}
    table = {"data": data, "metadata": {"units": "mm", "title": "x"}}
    if dt == "refuse":
        a, b = cubes.grid(np.zeros((2, 2), np.float32), name="rows"), cubes.grid(np.zeros((2, 3), np.float32), name="cols")
        e = raises([lambda: T("rows").process(a, table=table), lambda: T("rows").process(a, b, table=table), lambda: T("none").process(a, a.copy(), table=table)][lay])
        cov.step()
        expect(e is not None, "must be refused", got=e)
        return "refused"
    # every pair of values
    rv, cv = np.meshgrid(V, V, indexing="ij")
    sel = slice(3 * part, 3 * part + 3)
    rv, cv = rv[sel].astype(np.float32), cv[sel].astype(np.float32)
    if dt == "int" and part < 2:
        rv, cv = np.where(np.isnan(rv), 3, rv), np.where(np.isnan(cv), 3, cv)
    lead = [("realization", [0, 1], "1")] if lay >= 2 else []
    st = (lambda q: np.stack([q, q[::-1]])) if lead else (lambda q: q)
    A = cubes.grid(st(rv), name="row_value", leading=lead, units="K", attributes=ATT)
    B = cubes.grid(st(cv), name="column_value", leading=lead, units="m", attributes={"other": "o"})
    names = [q.name() for q in B.coords(dim_coords=True)]
    A2 = cubes.transposed(A, names[::-1]) if lay % 2 else A
    p = T("row_value", new_name="new" if lay == 3 else None)

    def look(label, q):
        s = sorted(label)
        ok = [i for i, x in enumerate(s) if x <= q + 1e-5]
        return s[ok[-1]] if ok else s[0]

    want = np.array([np.nan if np.isnan(r) or np.isnan(c) else data[str(look(cols, c))][str(look(rows, r))] for r, c in zip(A.data.ravel(), B.data.ravel())]).reshape(A.shape)
    import copy

    keep = copy.deepcopy(table)
    for args in ((A2, B), (B, A2)):
        with cubes.Unchanged(A2, B):
            r = p.process(*args, table=table)
        cov.step()
        expect(table == keep, "the table is not changed", got=table)
        got = cubes.arr(r, *names)
        expect_close(np.where(np.isnan(want), -1, np.where(np.isnan(got), -1, got)), np.where(np.isnan(want), -1, want), "values of the table", rtol=1e-6)
        expect((np.isnan(got) == np.isnan(want)).all(), "missing exactly where an input is", got=got)
        expect(r.name() == ("new" if lay == 3 else "row_value") and str(r.units) == "mm" and r.attributes == ATT and r.dtype != np.float64, "description", got=(r.name(), r.units, r.dtype))
    return "table"


SECTIONS = [Section("constraints", c_constraints, constraints), Section("levels", c_levels, levels), Section("tables", c_tables, tables)]

if __name__ == "__main__":
    main(globals())
