"""C34: standardised metadata: attributes, types, units, names and grids."""
import datetime
import itertools

from mc import Section, Violation, expect, expect_close, expect_same, main, raises

PROPERTY = "C34"
H = 3600
ATT = {"title": "T", "source": "S", "institution": "I"}
FORMS = ["new", "remove", "{}", "a {}", "{} b", "x {} y", "{now:%Y%m%dT%H%M%SZ}", "{}\n{now:%Y%m%dT%H%M%SZ}: done", "{now:%Y%m%dT%H%M%SZ}: done {}", "at {now:%Y%m%dT%H%M%SZ} and {now:%Y%m%dT%H%M%SZ}", "", "removed", "now"]


# ------------------------------------------------------------ attributes
def c_attributes(tier):
    for old in (None, "old", "o {} d", ""):
        for f in FORMS:
            yield ("amend", old, [f, None])
    for f, g in itertools.product(FORMS, repeat=2):
        yield ("amend", "old", [f, g])
    for old in (None, "then: did"):
        for app in (False, True):
            for val in ("Nowcast", "a: b; c", ""):
                yield ("history", old, [app, val])
    sets = [None, "uk_det", "nc_det", "uk_det nc_det", "uk_ens uk_det"]
    for n in (1, 2, 3):
        for ids in itertools.product(range(5), repeat=n):
            yield ("ids", list(ids), sets)
            yield ("id", list(ids), sets)
    V = [None, "A", "B"]
    for n in (1, 2, 3):
        for k in itertools.product(V, repeat=n):
            for j in itertools.product(V, repeat=min(n, 2)):
                for model in (None, "mid"):
                    yield ("mandatory", [list(k), list(j)], model)
    for names in itertools.permutations(("a", "b", "zz"), 2):
        for n in (1, 2, 3):
            yield ("copy", list(names), n)


def expand(form, old, lo, hi, got):
    """Does got follow from form and the old value?"""
    if form == "remove":
        return got is None
    import re

    pat = ""
    for part in re.split(r"(\{\}|\{now:[^}]*\})", form):
        pat += re.escape(old or "") if part == "{}" else r"(\d{8}T\d{6}Z)" if part.startswith("{now") else re.escape(part)
    m = got is not None and re.fullmatch(pat, got, re.DOTALL)
    return bool(m) and all(lo <= datetime.datetime.strptime(t, "%Y%m%dT%H%M%SZ") <= hi for t in m.groups())


def attributes(case, cov):
    import cubes
    import numpy as np
    from improver.metadata import amend as A
    from improver.metadata import utilities as U
    from iris.cube import CubeList

    z = np.zeros((1, 1), np.float32)
    kind, a, b = case
    if kind == "amend":
        att = dict(ATT, k=a, l=a)
        c = cubes.grid(z, attributes={k: v for k, v in att.items() if v is not None})
        spec = {k: v for k, v in zip("kl", b) if v is not None}
        keep = dict(spec)
        lo = datetime.datetime.now().replace(microsecond=0)
        A.amend_attributes(c, spec)
        hi = datetime.datetime.now()
        cov.step()
        expect(spec == keep, "the request is not changed", got=spec)
        for k, f in keep.items():
            expect(expand(f, a, lo, hi, c.attributes.get(k)), "attribute %s of %r" % (k, f), expected=(f, a), got=c.attributes.get(k))
        rest = {k: v for k, v in c.attributes.items() if k not in keep}
        expect(rest == {k: v for k, v in att.items() if v is not None and k not in keep}, "the other attributes", got=rest)
        return "amend"
    if kind == "history":
        app, val = b
        c = cubes.grid(z, attributes=dict(ATT, **({"history": a} if a else {})))
        lo = datetime.datetime.utcnow().replace(microsecond=0)
        A.set_history_attribute(c, val, append=app)
        hi = datetime.datetime.utcnow()
        cov.step()
        h = c.attributes["history"]
        pre = a + "; " if a and app else ""
        expect(h.startswith(pre) and h.endswith("Z: " + val), "history", got=h)
        t = h[len(pre) : len(h) - len("Z: " + val)]
        expect(lo <= datetime.datetime.strptime(t, "%Y-%m-%dT%H:%M:%S") <= hi, "time stamp is UTC", got=t)
        expect({k: v for k, v in c.attributes.items() if k != "history"} == ATT, "other attributes", got=c.attributes)
        return "history"
    if kind in ("ids", "id"):
        cl = CubeList([cubes.grid(z, attributes=dict(ATT, **({"mid": b[i]} if b[i] else {}))) for i in a])
        missing = any(b[i] is None for i in a)
        with cubes.Unchanged(*cl):
            if kind == "ids":
                if missing:
                    e = raises(A.update_model_id_attr_attribute, cl, "mid")
                    expect(isinstance(e, AttributeError), "must be refused", got=e)
                else:
                    got = A.update_model_id_attr_attribute(cl, "mid")
                    want = " ".join(sorted({q for i in a for q in b[i].split(" ")}))
                    expect(got == {"mid": want}, "models", expected=want, got=got)
            else:
                if missing or len(set(a)) > 1:
                    e = raises(U.get_model_id_attr, cl, "mid")
                    expect(isinstance(e, ValueError), "must be refused", got=e)
                else:
                    got = U.get_model_id_attr(cl, "mid")
                    expect(got == b[a[0]], "model", got=got)
        cov.step()
        return kind
    if kind == "mandatory":
        k, j = a
        atts = [{n: v for n, v in (("title", k[i]), ("mid", j[i % len(j)]), ("source", j[0]), ("institution", k[-1])) if v is not None} for i in range(len(k))]
        cl = [cubes.grid(z, attributes=q) for q in atts]
        with cubes.Unchanged(*cl):
            vals = lambda n: {q.get(n) for q in atts}
            if b and (len(vals("mid")) > 1 or None in vals("mid")):
                e = raises(U.generate_mandatory_attributes, cl, model_id_attr=b)
                cov.step()
                expect(isinstance(e, ValueError), "must be refused", got=e)
                return "refused"
            got = U.generate_mandatory_attributes(cl, model_id_attr=b)
            got2 = U.generate_mandatory_attributes(CubeList(cl[::-1]), model_id_attr=b)
        cov.step()
        want = {"title": "unknown", "source": "IMPROVER", "institution": "unknown"}
        for n in list(want) + ([b] if b else []):
            if len(vals(n)) == 1 and None not in vals(n):
                want[n] = list(vals(n))[0]
        expect(got == want and got2 == want, "mandatory attributes", expected=want, got=(got, got2))
        return "mandatory"
    # copying attributes from a template
    from improver.utilities.copy_attributes import CopyAttributes

    src = cubes.grid(z, attributes={"a": "1", "b": "two", "other": "q"})
    cl = [cubes.grid(z, name="n%d" % i, attributes={"a": "old", "keep": "k%d" % i}) for i in range(b)]
    p = CopyAttributes(list(a))
    for rnd in range(2):
        with cubes.Unchanged(src):
            if "zz" in a:
                e = raises(p.process, *cl, template_cube=src)
                cov.step()
                expect(isinstance(e, KeyError), "an attribute the template lacks", got=e)
                return "refused"
            r = p.process(*cl, template_cube=src)
        cov.step()
        out = [r] if b == 1 else list(r)
        expect([q.name() for q in out] == ["n%d" % i for i in range(b)], "cubes in order", got=[q.name() for q in out])
        for i, q in enumerate(out):
            want = {"a": "old", "keep": "k%d" % i}
            want.update({k: src.attributes[k] for k in a})
            expect(q.attributes == want, "attributes", expected=want, got=q.attributes)
    return "copy"


# ------------------------------------------------------------ new diagnostics
def c_new(tier):
    for lay in ("yx", "ryx", "tyx", "spot"):
        for masked in (0, 1):
            for data in (0, 1):
                for dt in ("float32", "int32", "bool"):
                    for miss in range(8):
                        for opt in (0, 1):
                            if miss and (dt != "float32" or masked):
                                continue
                            yield ("new", [lay, masked, data, dt, miss, opt])
    for vic in ("", "_in_vicinity", "_in_variable_vicinity"):
        for svic in ("", "_in_vicinity", "_in_variable_vicinity"):
            for kind in ("value", "above", "below"):
                for cms in range(5):
                    for same in (0, 1):
                        yield ("rename", [vic, svic, kind, cms, same])


def tmpl(lay, masked):
    import cubes
    import numpy as np
    from iris.coords import AuxCoord, CellMethod

    n = {"yx": (), "ryx": (3,), "tyx": (2,), "spot": ()}[lay] + (2, 3)
    a = np.arange(int(np.prod(n)), dtype=np.float32).reshape(n)
    if masked:
        a = np.ma.masked_array(a, a % 3 == 1)
    lead = {"ryx": [("realization", [0, 2, 3], "1")], "tyx": [("time", [cubes.T0 + H, cubes.T0 + 2 * H], cubes.EPOCH)]}.get(lay, [])
    c = cubes.grid(a, leading=lead, units="K", name="air_temperature", attributes=dict(ATT, extra="e"), scalars=[("height", 1.5, "m")])
    c.add_cell_method(CellMethod("maximum", coords="time"))
    if lay == "spot":
        c.add_aux_coord(AuxCoord(np.arange(6, dtype=np.float32).reshape(2, 3), long_name="altitude", units="m"), (0, 1))
    return c


def new(case, cov):
    import cubes
    import numpy as np
    from improver.metadata.utilities import create_new_diagnostic_cube

    kind, p = case
    if kind == "new":
        lay, masked, data, dt, miss, opt = p
        c = tmpl(lay, masked)
        man = {k: v for i, (k, v) in enumerate(ATT.items()) if not miss >> i & 1}
        op = {"mosg__model": "m", "extra": "f"} if opt else None
        keep, kop = dict(man), dict(op or {})
        d = np.arange(c.data.size).reshape(c.shape).astype(dt)[..., ::-1] if data else None
        kw = dict(data=d) if data else dict(dtype=np.dtype(dt).type)
        with cubes.Unchanged(c):
            if miss:
                e = raises(create_new_diagnostic_cube, "new_name", "m s-1", c, man, optional_attributes=op, **kw)
                cov.step()
                expect(isinstance(e, ValueError) and all((k + " attribute" in str(e)) == bool(miss >> i & 1) for i, k in enumerate(ATT)), "the missing attributes are named", got=e)
                return "refused"
            r = create_new_diagnostic_cube("new_name", "m s-1", c, man, optional_attributes=op, **kw)
            cov.step()
            expect(r.name() == "new_name" and str(r.units) == "m s-1" and not r.cell_methods, "description", got=(r.name(), r.units, r.cell_methods))
            expect(r.attributes == dict(keep, **kop), "attributes", got=r.attributes)
            expect(man == keep and (op or {}) == kop, "the attributes passed are not changed", got=man)
            if data:
                expect_same(r.data, d, "data")
            else:
                expect(r.shape == c.shape and r.data.dtype == np.dtype(dt) and not np.ma.getdata(r.data).any(), "zeros", got=r.data)
            x, y = cubes.describe(r)["coords"], cubes.describe(c)["coords"]
            expect(cubes.diff(x, y) is None, "coordinates", got=cubes.diff(x, y))
            expect([q.name() for q in r.coords(dim_coords=True)] == [q.name() for q in c.coords(dim_coords=True)], "dimensions", got=r.shape)
            for q in r.coords():
                q.points = q.points + 1
                q.rename("other_%s" % q.name())
            r.data = np.ma.getdata(r.data) * 0
            r.attributes["title"] = "changed"
        return "new"
    from improver.metadata.amend import update_diagnostic_name
    from iris.coords import CellMethod

    vic, svic, kind, cms, same = p
    base = "lwe_precipitation_rate"
    data = np.arange(8, dtype=np.float32).reshape(2, 2, 2) / 10
    spp = "greater_than" if kind == "above" else "less_than"
    if kind == "value":
        c = cubes.grid(data[0], name=base + svic)
    else:
        c = cubes.prob(data, [0.1, 0.5], diag=base, spp=spp)
        c.rename("probability_of_%s%s_%s_threshold" % (base, svic, kind))
    com = base + svic if kind == "value" else base
    CM = [[], [CellMethod("maximum", coords="time", comments="of " + com)], [CellMethod("mean", coords="realization")], [CellMethod("maximum", coords="time", intervals="1 hour", comments="of " + com), CellMethod("sum", coords="realization", comments="of other")], [CellMethod("mode", coords=("time", "realization"), comments=("of " + com, "twice"))]][cms]
    for m in CM:
        c.add_cell_method(m)
    r = c if same else c.copy()
    want = c.copy()
    update_diagnostic_name(c, "rainfall_rate" + vic, r)
    cov.step()
    nn = "rainfall_rate" + vic
    if kind == "value":
        want.rename(nn)
    else:
        want.rename("probability_of_%s_%s_threshold" % (nn, kind))
        t = want.coord(var_name="threshold")
        t.rename("rainfall_rate")
        t.var_name = "threshold"
    want.cell_methods = [CellMethod(m.method, coords=m.coord_names, intervals=m.intervals, comments="of rainfall_rate") if m.comments == ("of " + com,) else m for m in CM]
    cubes.expect_cube(r, cubes.describe(want), "renamed")
    return "rename"


# ------------------------------------------------------------ grids
def c_grids(tier):
    for n in (2, 3):
        for ks in itertools.product(range(16 if n == 2 else 6), repeat=n):
            yield (list(ks), 0)
    for ks in itertools.product((0, 1, 2, 9), repeat=3):
        yield (list(ks), 1)


def grids(case, cov):
    """A grid is identified by its points, names, units and projection, nothing else; a recorded hash stands for a grid."""
    import cubes
    import numpy as np
    from improver.metadata.utilities import check_grid_match, create_coordinate_hash, generate_hash

    ks, rec = case

    def cube(k, i):
        n = (3, 4) if k != 3 else (3, 5)
        kw = {}
        if k == 4:
            kw["origin"] = (0.0, 2000.0)
        if k == 5:
            kw["spacing"] = 2001.0
        if k == 6:
            kw["spatial"] = "latlon"
            kw["spacing"] = 0.5
        if k == 1:
            n = (2,) + n
        c = cubes.grid(np.full(n, float(i), np.float32), leading=[("realization", [i, i + 1], "1")] if k == 1 else [], name="n%d" % i, time=cubes.T0 + i * H, **kw)
        if k == 2:  # other properties and the order of dimensions do not matter
            c.attributes["x"] = "y"
            c = cubes.transposed(c, ["projection_x_coordinate", "projection_y_coordinate"])
        if k == 7:
            c.coord(axis="x").convert_units("km")
        if k == 8:
            c.coord(axis="y").coord_system = None
        if k == 9:  # same numbers of points with x and y exchanged
            c.coord(axis="x").points = c.coord(axis="x").points + np.float32(0.5)
        if k == 10:
            c.coord(axis="x").points = c.coord(axis="x").points[::-1].copy()
            c.coord(axis="x").bounds = None
        if k in (11, 12):  # one point between the others
            q = c.coord(axis="xy"[k - 11])
            v = q.points.copy()
            v[1] += np.float32(3)
            q.bounds = None
            q.points = v
        if k in (13, 14):  # the same numbers in other units
            c.coord(axis="xy"[k - 13]).units = "km"
        if k == 15:
            c.coord(axis="x").rename("grid_longitude")
        return c

    ident = lambda k: 0 if k in (0, 1, 2) else k
    cl = [cube(k, i) for i, k in enumerate(ks)]
    hs = [create_coordinate_hash(c) for c in cl]
    cov.step()
    for (k, h), (m, g) in itertools.combinations(list(zip(ks, hs)), 2):
        expect((h == g) == (ident(k) == ident(m)), "hashes agree where grids do", expected=ident(k) == ident(m), got=(h, g))
    expect(hs[0] == create_coordinate_hash(cube(ks[0], 9)), "the same grid again", got=hs[0])
    if rec:  # the first cube has other coordinates but records the grid it came from
        g = cubes.grid(np.zeros((2, 2), np.float32), spacing=7.0)
        g.attributes["model_grid_hash"] = hs[0]
        cl[0] = g
    ok = len({ident(k) for k in ks}) == 1
    with cubes.Unchanged(*cl):
        for order in itertools.permutations(cl):
            e = raises(check_grid_match, list(order))
            cov.step()
            expect((e is None) == ok and (e is None or isinstance(e, ValueError)), "grids match", expected=ok, got=e)
    for x, y in itertools.combinations([{"a": 1}, {"a": 2}, {"b": 1}, [1], "1", 1], 2):
        expect(generate_hash(x) != generate_hash(y) and generate_hash(x) == generate_hash(x), "hash", got=(x, y))
    return "match" if ok else "refused"


# ------------------------------------------------------------ mandatory types
def c_types(tier):
    faults = ["data64", "x64", "xb64", "time32", "timeh", "fp64", "fpmin", "frt64", "height64", "timef", "fpbounds", "blend", "utc", "epoch", "frtmin"]
    for n in (0, 1, 2, 3):
        for f in itertools.combinations(faults, n):
            yield ("check", list(f))
    for a in ("float32", "float64", "int8", "int32", "int64", "bool"):
        for b in ("float32", "float64", "int8", "int32", "int64"):
            for op in ("add", "multiply", "divide"):
                yield ("enforce", [a, b, op])


def types(case, cov):
    import cubes
    import numpy as np
    from improver.metadata import check_datatypes as D
    from iris.coords import AuxCoord, DimCoord

    kind, p = case
    if kind == "enforce":
        a, b, op = p
        c, d = cubes.grid(np.ones((2, 2), a)), cubes.grid(np.ones((2, 2), b))
        res = getattr(np, op)(c.data, d.data)
        r = cubes.grid(res)
        e = raises(D.enforce_dtype, op, [c, d], r)
        cov.step()
        expect((e is None) == (res.dtype != np.float64) and (e is None or isinstance(e, TypeError)), "result type", expected=res.dtype, got=e)
        return "enforce"
    c = cubes.grid(np.ones((2, 3), np.float32), name="air_temperature", scalars=[("height", 1.5, "m")], time=cubes.T0 + 4 * H, time_bounds=(cubes.T0 + 3 * H, cubes.T0 + 4 * H))
    q = c.coord
    bad = set()
    for f in p:
        if f == "data64":
            c.data = c.data.astype(np.float64)
            bad.add("air_temperature")
        elif f == "x64":
            x = q(axis="x")
            b = x.bounds
            x.bounds = None
            x.points = x.points.astype(np.float64)
            x.bounds = b
            bad.add("projection_x_coordinate")
        elif f == "xb64":
            x = q(axis="y")
            x.bounds = x.bounds.astype(np.float64)
            bad.add("projection_y_coordinate")
        elif f == "time32":
            t = q("time")
            t.bounds = None
            t.points = t.points.astype(np.int32)
            bad.add("time")
        elif f == "timef":
            t = q("time")
            t.points = t.points.astype(np.float32)
            bad.add("time")
        elif f == "timeh":
            t = q("time")
            t.bounds = None
            t.points = (t.points // H).astype(np.int64)
            t.units = "hours since 1970-01-01 00:00:00"
            bad.add("time")
        elif f == "epoch":
            q("time").units = "seconds since 1980-01-01 00:00:00"
            bad.add("time")
        elif f == "frtmin":
            q("forecast_reference_time").units = "minutes since 1970-01-01 00:00:00"
            bad.add("forecast_reference_time")
        elif f == "fp64":
            q("forecast_period").points = q("forecast_period").points.astype(np.int64)
            bad.add("forecast_period")
        elif f == "fpmin":
            q("forecast_period").units = "minutes"
            bad.add("forecast_period")
        elif f == "fpbounds":
            t = q("forecast_period")
            t.bounds = np.array([0, 4 * H], np.float32)
            bad.add("forecast_period")
        elif f == "frt64":
            q("forecast_reference_time").points = q("forecast_reference_time").points.astype(np.float64)
            bad.add("forecast_reference_time")
        elif f == "height64":
            q("height").points = q("height").points.astype(np.float64)
            bad.add("height")
        elif f == "blend":
            c.add_aux_coord(DimCoord(np.array([cubes.T0], np.int32), long_name="blend_time", units=cubes.EPOCH))
            bad.add("blend_time")
        elif f == "utc":
            c.add_aux_coord(AuxCoord(np.array([H], np.int64), long_name="UTC_offset", units="seconds"))
            bad.add("UTC_offset")
    with cubes.Unchanged(c):
        e = raises(D.check_mandatory_standards, c)
    cov.step()
    expect((e is None) == (not bad), "accepted exactly without a fault", expected=sorted(bad), got=e)
    if bad:
        expect(isinstance(e, ValueError), "a ValueError", got=e)
        named = {ln.split(" of type")[0] for ln in str(e).splitlines() if " of type" in ln}
        expect(named == bad, "all faults are reported", expected=sorted(bad), got=sorted(named))
    return "check"


# ------------------------------------------------------------ standardise
def c_standard(tier):
    for lead in ("", "r", "h", "t", "rh", "hr", "rt", "tp"):
        for lens in itertools.product((1, 2), repeat=len(lead)):
            for ny, nx in ((2, 3), (1, 3), (2, 1), (1, 1)):
                for masked in (0, 1):
                    yield ("scalar", lead, list(lens), [ny, nx], masked)
    for dt in ("float32", "float64", "int32", "int64", "int8", "uint8", "bool", ">f4", ">f8"):
        for units in (None, "celsius", "K"):
            for masked in (0, 1):
                yield ("dtype", dt, units, masked, 0)
    for tu in ("hours", "minutes", "seconds", "days"):
        for tdt in ("float64", "int64", "int32", "float32"):
            for bounds in (0, 1):
                for noise in (0.0, 3e-8, -3e-8, 0.2, -0.2) if tdt == "float64" else (0.0,):
                    for fpu in ("hours", "seconds"):
                        yield ("time", [tu, fpu], tdt, bounds, noise)
    for rem in ([], ["height"], ["time"], ["absent"], ["height", "forecast_period"], ["absent", "height"]):
        for mod in ({}, {"height": 2.5}, {"height": 2}, {"height": 0.0}, {"height": 0}, {"height": -1.5}, {"absent": 1.0}, {"time": 5}, {"realization": 1}, {"height": [1.0, 2.0]}, {"height": [3.0]}, {"forecast_period": 3600}):
            for name in (None, "new"):
                yield ("options", rem, mod, name, 0)
    for n in range(4):
        for cms in itertools.permutations(range(4), n):
            yield ("cell", list(cms), 0, 0, 0)
    for lay in ("pyx", "rpyx", "prxy"):
        for flags in range(6):
            for dt in ("int8", "bool"):
                yield ("flag", lay, flags, dt, 0)
    for k in range(2):
        yield ("flag", "pyx", -1 - k, "int8", 0)


def standard(case, cov):
    import cubes
    import numpy as np
    from improver.metadata.check_datatypes import check_mandatory_standards
    from improver.standardise import StandardiseMetadata as S
    from iris.coords import AuxCoord, CellMethod, DimCoord

    kind, a, b, d, e_ = case
    if kind == "scalar":
        P = {"r": ("realization", [4, 5], "1"), "h": ("height", [10.0, 20.0], "m"), "t": ("time", [cubes.T0 + H, cubes.T0 + 2 * H], cubes.EPOCH), "p": ("pressure", [1e5, 8e4], "Pa")}
        n = tuple(b) + tuple(d)
        v = np.arange(int(np.prod(n)), dtype=np.float32).reshape(n)
        if e_:
            v = np.ma.masked_array(v, v % 4 == 1)
        c = cubes.grid(v, name="air_temperature", units="K", leading=[(P[q][0], P[q][1][:k], P[q][2]) for q, k in zip(a, b)], attributes=ATT)
        src = c.copy()
        r = S().process(c)
        cov.step()
        keep = [q.name() for q in src.coords(dim_coords=True) if len(q.points) > 1 or q.name() == "realization"]
        want = src[tuple(slice(None) if q.name() in keep else 0 for q in src.coords(dim_coords=True))]
        cubes.expect_cube(r, cubes.describe(want), "only realization stays a dimension of one point")
        check_mandatory_standards(r)
        return "scalar"
    if kind == "dtype":
        v = np.arange(6).reshape(2, 3).astype(a)
        if d:
            v = np.ma.masked_array(v, np.arange(6).reshape(2, 3) % 2 == 1)
        c = cubes.grid(v, name="air_temperature", units="K", attributes=ATT)
        src = c.copy()
        q = c.coord(axis="x")
        if dtk(a) == "f8":
            q.points, q.bounds = q.points.astype(np.float64), q.bounds.astype(np.float64)
        if a == "bool" and b:
            return "not claimed"
        other = src.copy()
        r = S(new_units=b).process(c)
        cov.step()
        if b and np.dtype(a).kind == "f" and np.dtype(a).isnative:  # renaming does not affect the conversion
            rr = S(new_units=b, new_name="renamed").process(other)
            expect_same(rr.data, r.data, "values when renamed as well")
            expect(rr.name() == "renamed" and str(rr.units) == b, "name and units", got=(rr.name(), rr.units))
            e = raises(S(new_units="m", new_name="renamed").process, src.copy())
            expect(isinstance(e, ValueError), "units of another kind must be refused", got=e)
        conv = b == "celsius"
        want = (np.ma.getdata(src.data).astype(np.float64) - (273.15 if conv else 0))
        wd = np.dtype("float32") if conv or np.dtype(a).kind == "f" else np.dtype(a)
        if not (b == "K" and np.dtype(a).kind in "iu"):
            expect(r.data.dtype == wd and r.data.dtype.isnative or np.dtype(a).kind in "iub", "type of the data", expected=wd, got=r.data.dtype)
        expect((np.ma.getmaskarray(r.data) == np.ma.getmaskarray(src.data)).all(), "mask", got=np.ma.getmaskarray(r.data))
        m = ~np.ma.getmaskarray(src.data)
        expect_close(np.ma.getdata(r.data)[m].astype(np.float64), want[m], "data", rtol=1e-6, atol=1e-4)
        expect(str(r.units) == (b or "K"), "units", got=r.units)
        x, y = cubes.describe(r, data=False), cubes.describe(src, data=False)
        y["units"] = b or "K"
        expect(cubes.diff(x, y, ignore=("dtype",)) is None, "the rest", got=cubes.diff(x, y))
        if wd.kind == "f":
            check_mandatory_standards(r)
        return "dtype"
    if kind == "time":
        tu, fpu = a
        f = {"hours": H, "minutes": 60, "seconds": 1, "days": 86400}
        tt = cubes.T0 - cubes.T0 % 86400 + 86400
        big = abs(e_) > 0.1
        per_ = 600 if big else 86400
        c = cubes.grid(np.ones((2, 3), np.float32), name="air_temperature", units="K", time=None)

        def coord(name, secs, unit, per, low, aux=False):
            pts = np.array(secs / per, np.float64) + (e_ / per)
            pts = pts.astype(b)
            bnd = None
            if low is not None:
                bnd = (np.array([low / per, secs / per], np.float64) + e_ / per).astype(b)
            c.add_aux_coord(DimCoord(pts, standard_name=name, units=unit, bounds=bnd))

        if b in ("int32", "float32") and (tu == "seconds" or b == "float32" and tu == "minutes"):
            return "not representable"
        coord("time", tt, tu + " since 1970-01-01 00:00:00", f[tu], tt - 86400 if d else None)
        coord("forecast_reference_time", tt - per_, tu + " since 1970-01-01 00:00:00", f[tu], None)
        coord("forecast_period", per_, fpu, f[fpu], 0 if d else None)
        if big:
            er = raises(S().process, c)
            cov.step()
            # fractions of a second are within the tolerance of a time of 1.5e9 s, but not of a period
            expect(isinstance(er, ValueError), "a period that is not whole seconds must be refused", got=er)
            return "refused"
        r = S().process(c)
        cov.step()
        for n, s, low, dt in (("time", tt, tt - 86400, np.int64), ("forecast_reference_time", tt - 86400, None, np.int64), ("forecast_period", 86400, 0, np.int32)):
            q = r.coord(n)
            expect(q.points.dtype == dt and list(q.points) == [s], n, expected=s, got=(q.points, q.points.dtype))
            if d and low is not None:
                expect(q.bounds.dtype == dt and q.bounds.tolist() == [[low, s]], n + " bounds", got=(q.bounds, q.bounds.dtype))
            else:
                expect(not q.has_bounds(), n + " has no bounds", got=q.bounds)
        check_mandatory_standards(r)
        return "time"
    if kind == "options":
        c = cubes.grid(np.arange(12, dtype=np.float32).reshape(2, 2, 3), name="air_temperature", units="K", leading=[("realization", [0, 1], "1")], scalars=[("height", 1.5, "m")], attributes=ATT)
        want = c.copy()
        p = S(new_name=d, coords_to_remove=list(a) or None, coord_modification={k: v for k, v in b.items()} or None, attributes_dict={"title": "{} more", "new": "n"})
        bad = any(k in ("time", "forecast_period", "realization") and k not in a or isinstance(v, list) and len(v) > 1 and k not in a for k, v in b.items())
        for rnd in range(2):
            e = None
            cc = c.copy()
            if bad:
                e = raises(p.process, cc)
                cov.step()
                expect(isinstance(e, ValueError), "must be refused", got=e)
                continue
            r = p.process(cc)
            cov.step()
            w = want.copy()
            for n in a:
                if w.coords(n):
                    w.remove_coord(n)
            for k, v in b.items():
                if w.coords(k):
                    v = v[0] if isinstance(v, list) else v
                    w.coord(k).points = np.array([v], np.float32 if isinstance(v, float) else np.int64)
            if d:
                w.rename(d)
            w.attributes.update(title="T more", new="n")
            cubes.expect_cube(r, cubes.describe(w), "options applied")
        return "options"
    if kind == "cell":
        CM = [CellMethod("point", coords="time"), CellMethod("maximum", coords="time"), CellMethod("point", coords="height"), CellMethod("mean", coords="realization")]
        c = cubes.grid(np.ones((2, 2), np.float32), name="air_temperature", units="K")
        for k in a:
            c.add_cell_method(CM[k])
        r = S().process(c)
        cov.step()
        expect(list(r.cell_methods) == [CM[k] for k in a if k], "cell methods", got=r.cell_methods)
        return "cell"
    # values below the surface become NaN
    n = {"p": 2, "r": 2, "y": 2, "x": 3}
    lay = a
    sh = tuple(n[q] for q in lay)
    base = [q for q in lay if q not in "yx"]
    P = {"r": ("realization", [0, 1], "1"), "p": ("pressure", [1e5, 8e4], "Pa")}
    src = cubes.grid(np.arange(int(np.prod(sh)), dtype=np.float32).reshape([n[q] for q in base] + [2, 3]), name="air_temperature", units="K", leading=[P[q] for q in base])
    nm = {"p": "pressure", "r": "realization", "y": "projection_y_coordinate", "x": "projection_x_coordinate"}
    src = cubes.transposed(src, [nm[q] for q in lay])
    fl = (np.arange(src.data.size).reshape(src.shape) * (b + 3) % 7 < b) if b >= 0 else np.zeros(src.shape, bool)
    c = src.copy()
    att = {"flag_meanings": "above_surface_pressure below_surface_pressure", "flag_values": np.array([0, 1], dtype="int8")}
    pts = fl.astype(d)
    if b == -1:
        att = dict(att, flag_meanings="other")
    if b == -2:
        pts = np.ma.masked_array(pts, np.arange(pts.size).reshape(pts.shape) == 2)
    c.add_aux_coord(AuxCoord(pts, long_name="air_temperature status_flag", units="1", attributes=att), tuple(range(c.ndim)))
    if b < 0:
        e = raises(S().process, c)
        cov.step()
        expect(isinstance(e, ValueError), "an unusable flag must be refused", got=e)
        return "refused"
    r = S().process(c)
    cov.step()
    expect(not r.coords("air_temperature status_flag"), "the flag is removed", got=[q.name() for q in r.coords()])
    names = [nm[q] for q in sorted(lay)]
    want = cubes.arr(src, *names).astype(np.float32)
    want = np.where(fl.transpose([lay.index(q) for q in sorted(lay)]), np.nan, want)
    got = cubes.arr(r, *names)
    expect(got.shape == want.shape and got.dtype == np.float32 and ((got == want) | (np.isnan(got) & np.isnan(want))).all(), "flagged values are NaN, others kept", expected=want, got=got)
    return "flag"


def dtk(s):
    import numpy as np

    return np.dtype(s).str[1:]


# ------------------------------------------------------------ special coordinates and cell methods
def c_special(tier):
    names = ["percentile", "percentile_over_realization", "wind_percentile", "threshold", "realization", "height"]
    for n in (0, 1, 2, 3):
        for ks in itertools.combinations(range(6), n):
            yield ("find", [names[k] for k in ks], n)
    for n in range(4):
        for ks in itertools.permutations(range(4), n):
            for f in (0, 1):
                yield ("methods", list(ks), f)
    for spp in ("greater_than", "greater_than_or_equal_to", "less_than", "less_than_or_equal_to", "above", "below", "between", None, ""):
        for var in (0, 1, 2):
            yield ("spp", spp, var)
    for diag in ("air_temperature", "wind_speed_of_gust", "x", "probability_of_y", "rate_in_vicinity_of_z", "threshold"):
        for vic in ("", "_in_vicinity", "_in_variable_vicinity"):
            for th in ("_above_threshold", "_below_threshold", "_between_thresholds", ""):
                for pre in (0, 1):
                    yield ("names", [diag, vic, th], pre)


def special(case, cov):
    import cubes
    import numpy as np
    from improver.metadata import probabilistic as P
    from iris.coords import AuxCoord, CellMethod, DimCoord
    from iris.exceptions import CoordinateNotFoundError

    kind, a, b = case
    z = np.zeros((2, 2), np.float32)
    if kind == "find":
        c = cubes.grid(z)
        for k in a:
            c.add_aux_coord(AuxCoord(np.array([1.0], np.float32), long_name=k, units="1"))
        pc = [k for k in a if "percentile" in k]
        with cubes.Unchanged(c):
            e = raises(P.find_percentile_coordinate, c)
            if len(pc) == 1:
                expect(e is None and P.find_percentile_coordinate(c).name() == pc[0], "the percentile coordinate", expected=pc, got=e)
            else:
                expect(isinstance(e, ValueError if pc else CoordinateNotFoundError), "none or several must be refused", got=e)
            expect(P.is_percentile(c) == (len(pc) == 1), "is it percentiles", got=P.is_percentile(c))
            th = "threshold" in a
            e = raises(P.find_threshold_coordinate, c)
            expect((e is None) == th and P.is_probability(c) == th and (e is None or isinstance(e, CoordinateNotFoundError)), "the threshold coordinate", got=e)
        expect(isinstance(raises(P.find_percentile_coordinate, z), TypeError) and isinstance(raises(P.find_threshold_coordinate, z), TypeError), "only cubes")
        cov.step(4)
        return "find"
    if kind == "methods":
        CM = [CellMethod("maximum", coords="time"), CellMethod("mean", coords="time", intervals="1 hour"), CellMethod("sum", coords=("time", "realization"), intervals=("1 hour", "3"), comments=("a", "b")), CellMethod("mode", coords="height", comments="of old")]
        c = cubes.grid(z)
        for k in a:
            c.add_cell_method(CM[k])
        if b:
            P.format_cell_methods_for_probability(c, "rain")
        else:
            P.format_cell_methods_for_diagnostic(c)
        cov.step()
        want = [CellMethod(CM[k].method, coords=CM[k].coord_names, intervals=CM[k].intervals, comments="of rain" if b else None) for k in a]
        expect(list(c.cell_methods) == want, "cell methods", expected=want, got=c.cell_methods)
        return "methods"
    if kind == "spp":
        c = cubes.grid(z)
        t = AuxCoord(np.array([1.0], np.float32), long_name=["threshold", "air_temperature", "other"][b], units="K")
        if b:
            t.var_name = "threshold"
        if a is not None:
            t.attributes["spp__relative_to_threshold"] = a
        c.add_aux_coord(t)
        got = P.probability_is_above_or_below(c)
        cov.step()
        want = "above" if a in ("above", "greater_than", "greater_than_or_equal_to") else "below" if a in ("below", "less_than", "less_than_or_equal_to") else None
        expect(got == want and P.find_threshold_coordinate(c) == t, "direction of the threshold", expected=want, got=got)
        return "spp"
    diag, vic, th = a
    n = ("probability_of_" if b else "") + diag + vic + th
    m = P.probability_cube_name_regex(n)
    cov.step()
    if not b and not n.startswith("probability_of_"):
        expect(m is None, "not a probability", got=m)
        expect(isinstance(raises(P.get_threshold_coord_name_from_probability_name, n), ValueError) and isinstance(raises(P.get_diagnostic_cube_name_from_probability_name, n), ValueError), "must be refused")
        return "no probability"
    d = diag if b else diag[len("probability_of_") :]
    expect(P.get_threshold_coord_name_from_probability_name(n) == d, "name of the threshold coordinate", expected=d, got=P.get_threshold_coord_name_from_probability_name(n))
    expect(P.get_diagnostic_cube_name_from_probability_name(n) == d + vic, "name of the diagnostic", expected=d + vic, got=P.get_diagnostic_cube_name_from_probability_name(n))
    expect(P.in_vicinity_name_format(n) == "probability_of_" + d + "_in_vicinity" + th, "vicinity name", got=P.in_vicinity_name_format(n))
    return "names"


SECTIONS = [Section("attributes", c_attributes, attributes), Section("new", c_new, new), Section("grids", c_grids, grids), Section("types", c_types, types), Section("standard", c_standard, standard), Section("special", c_special, special)]

if __name__ == "__main__":
    main(globals())
