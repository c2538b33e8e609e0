"""C37: spot neighbours, spot extraction and adjustment of spot forecasts."""
import itertools
import warnings

from mc import Section, Violation, expect, expect_close, expect_same, main, raises

PROPERTY = "C37"
H = 3600
ATT = {"title": "T", "source": "S", "institution": "I", "mosg__grid_type": "standard", "mosg__grid_version": "1.3.0", "mosg__model_configuration": "uk_det"}
PX = [-900.0, 40.0, 700.0, 1150.0, 2310.0, 4450.0, 5200.0]
PY = [-980.0, 300.0, 1970.0, 3210.0, 4999.0, -1500.0]
ALT = [None, float("nan"), 0.0, 12.5, 55.0, -3.0]
OROG = [[[0, 10, 20], [30, 40, 50], [60, 70, 80]], [[5, 5, 5], [5, 100, 5], [5, 5, -5]], [[0, 50, 0], [12, 13, 12], [55, 0, 54]]]
METH = {(0, 0): "nearest", (1, 0): "nearest_land", (0, 1): "nearest_minimum_dz", (1, 1): "nearest_land_minimum_dz"}


# ------------------------------------------------------------ neighbours
def c_neighbours(tier):
    radii = (1200.0, 2600.0, 10000.0)
    for bits in range(512):
        for r in radii if tier == "thorough" else (radii[bits % 3],):
            yield ("reg", bits, bits % 3, r, [1, 0], 36, bits % 2)
            for o in range(3) if tier == "thorough" else (bits % 3,):
                yield ("reg", bits, o, r, [1, 1], 36, (bits + 1) % 2)
    for o in range(3):
        for lay in (0, 1):
            for r in radii + (900.0, 4000.0):
                for nl in (2, 3, 4, 5, 8, 9, 10, 36):
                    yield ("reg", 0b101101110, o, r, [0, 1], nl, lay)
                    yield ("reg", 0b101101110, o, r, [1, 1], nl, lay)
            yield ("reg", 511, o, 1000.0, [0, 0], 36, lay)
    for bits in range(0, 4096, 1 if tier == "thorough" else 37):
        for m in ([1, 0], [1, 1]):
            for r in (3.0e6, 1.2e7):
                yield ("glob", bits, 0, r, m, 36, bits % 2)
    for lay in (0, 1):
        yield ("glob", 0, 0, 1e6, [0, 0], 36, lay)
        yield ("glob", 0, 0, 4e6, [0, 1], 36, lay)
    for k in range(10):
        yield ("ids", k, 0, 0, [0, 0], 0, 0)
    for k in range(5):
        yield ("bad", k, 0, 0, [0, 0], 0, 0)


def neighbours(case, cov):
    import cubes
    import numpy as np
    from improver.metadata.utilities import create_coordinate_hash
    from improver.spotdata.neighbour_finding import NeighbourSelection

    kind, bits, o, rad, (land, dz), nl, lay = case
    if kind == "ids":
        orog, mask = cubes.grid(np.array(OROG[0], np.float32), name="surface_altitude", units="m", time=None), cubes.grid(np.ones((3, 3), np.int8), name="land_binary_mask", time=None)
        crs = orog.coord_system().as_cartopy_crs()
        P = dict(site_coordinate_system=crs, site_x_coordinate="px", site_y_coordinate="py")
        wmo = [[3, 12345, None], [None, None, None], [99999, 7, 3002]][bits % 3]
        uid = [[1, 20, 3000], [12345678, 7, 0], [5, 5, 6], [123456789, 1, 2], None][bits // 2]
        sites = []
        for i in range(3):
            s = {"px": 2000.0 * i, "py": 0.0, "altitude": 3.0}
            if wmo[i] is not None:
                s["wmo_id"] = wmo[i]
            if uid is not None or i < 2:
                s["uid"] = uid[i] if uid else i
            sites.append(s)
        n = NeighbourSelection(unique_site_id_key="uid", **P)
        ok = bits // 2 < 2
        if not ok:
            e = raises(n.process, sites, orog, mask)
            cov.step()
            expect(isinstance(e, KeyError if uid is None else ValueError), "identifiers missing, repeated or too long must be refused", got=e)
            return "refused"
        r = n.process(sites, orog, mask)
        cov.step()
        expect(list(r.coord("uid").points) == ["%08d" % u for u in uid], "unique identifiers", got=list(r.coord("uid").points))
        expect(list(r.coord("wmo_id").points) == ["%05d" % w if w else "None" for w in wmo], "WMO identifiers", got=list(r.coord("wmo_id").points))
        return "ids"
    if kind == "bad":
        z, m = np.zeros((3, 3), np.float32), np.ones((3, 3), np.int8)
        orog, mask = cubes.grid(z, name="surface_altitude", units="m", time=None), cubes.grid(m, name="land_binary_mask", time=None)
        if bits == 0:
            mask = cubes.grid(m, time=None, origin=(2000.0, 0.0))
        elif bits == 1:
            mask = cubes.grid(np.ones((3, 2), np.int8), time=None)
        elif bits == 2:
            mask = cubes.transposed(mask, ["projection_x_coordinate", "projection_y_coordinate"])
        elif bits == 3:
            orog, mask = cubes.grid(z, spatial="latlon", spacing=1.0, time=None), cubes.grid(m, spatial="latlon", spacing=1.0, time=None)
        elif bits == 4:
            for c in (orog, mask):
                for ax in "xy":
                    c.coord(axis=ax).convert_units("km")
        e = raises(NeighbourSelection().process, [{"longitude": 0.0, "latitude": 54.0, "altitude": 1.0}], orog, mask)
        cov.step()
        expect(isinstance(e, ValueError), "must be refused", got=e)
        return "refused"
    if kind == "reg":
        og = np.array(OROG[o], np.float32)
        shape = (3, 3)
        kw = dict(time=None)
        orog = cubes.grid(og, name="surface_altitude", units="m", **kw)
        xs, ys = orog.coord(axis="x").points, orog.coord(axis="y").points
        pos = [(x, y) for y in PY for x in PX]
    else:
        og = np.arange(12, dtype=np.float32).reshape(3, 4) * 10
        shape = (3, 4)
        kw = dict(time=None, spatial="latlon", spacing=(60.0, 90.0), origin=(-60.0, -180.0))
        orog = cubes.grid(og, name="surface_altitude", units="m", **kw)
        pos = [(x, y) for y in (-85.0, -40.0, 4.0, 70.0) for x in (-179.0, -100.0, 10.0, 60.0, 140.0, 179.5)]
        xs, ys = orog.coord(axis="x").points, orog.coord(axis="y").points
    lm = np.array([bits >> k & 1 for k in range(og.size)], np.int8).reshape(shape)
    mask = cubes.grid(lm, name="land_binary_mask", **kw)
    if kind == "glob":
        for c in (orog, mask):
            c.coord(axis="x").circular = True
    if lay:
        nm = [orog.coord(axis="x").name(), orog.coord(axis="y").name()]
        orog, mask = cubes.transposed(orog, nm), cubes.transposed(mask, nm)
    crs = orog.coord_system().as_cartopy_crs()
    sites = []
    for i, (x, y) in enumerate(pos):
        s = {"px": x, "py": y, "wmo_id": i + 1}
        a = ALT[(i * 7 + o) % 6]
        if a is not None:
            s["altitude"] = a
        sites.append(s)
    P = dict(site_coordinate_system=crs, site_x_coordinate="px", site_y_coordinate="py") if kind == "reg" else dict(site_x_coordinate="px", site_y_coordinate="py")
    n = NeighbourSelection(land_constraint=bool(land), minimum_dz=bool(dz), search_radius=rad, node_limit=nl, **P)
    gh = create_coordinate_hash(orog)
    with warnings.catch_warnings(record=True) as ws:
        warnings.simplefilter("always")
        with cubes.Unchanged(orog, mask):
            r = n.process(sites, orog, mask)
    cov.step()
    inside = [i for i, (x, y) in enumerate(pos) if kind == "glob" or (-1000 <= x <= 5000 and -1000 <= y <= 5000)]
    expect(r.shape == (1, 3, len(inside)), "sites outside the grid are left out", expected=len(inside), got=r.shape)
    if len(inside) < len(pos):
        expect(any("%d spot sites fall outside" % (len(pos) - len(inside)) in str(w.message) for w in ws), "sites left out are reported", got=[str(w.message)[:80] for w in ws])
    expect([int(q) for q in r.coord("wmo_id").points] == [i + 1 for i in inside], "order of sites", got=r.coord("wmo_id").points)
    expect(list(r.coord("neighbour_selection_method_name").points) == [METH[land, dz]] and list(r.coord("grid_attributes_key").points) == ["x_index", "y_index", "vertical_displacement"], "labels", got=r.coord("neighbour_selection_method_name").points)
    expect(r.attributes == {"model_grid_hash": gh} and r.name() == "grid_neighbours" and r.dtype == np.float32, "description", got=r.attributes)
    if kind == "glob":
        def xyz(x, y):
            lo, la = np.deg2rad(x), np.deg2rad(y)
            return 6371229.0 * np.array([np.cos(la) * np.cos(lo), np.cos(la) * np.sin(lo), np.sin(la)])
    else:
        xyz = lambda x, y: np.array([x, y])
        ll = crs.as_geodetic().transform_points(crs, np.array([pos[i][0] for i in inside]), np.array([pos[i][1] for i in inside]))
        expect_close(r.coord("longitude").points, ll[:, 0], "longitude", atol=1e-4)
        expect_close(r.coord("latitude").points, ll[:, 1], "latitude", atol=1e-4)
    lim = False
    for k, i in enumerate(inside):
        x, y = pos[i]
        dxs = np.abs(((xs - x) + 180) % 360 - 180) if kind == "glob" else np.abs(xs - x)
        near = {(a, b) for a in range(len(xs)) for b in range(len(ys)) if dxs[a] < dxs.min() + 1e-6 and abs(ys[b] - y) < np.abs(ys - y).min() + 1e-6}
        alt = sites[i].get("altitude")
        alts = {og[b, a] for a, b in near} if alt is None or alt != alt else {alt}
        p = xyz(x, y)
        D = {(a, b): float(np.linalg.norm(xyz(xs[a], ys[b]) - p)) for a in range(len(xs)) for b in range(len(ys)) if not land or lm[b, a]}
        ok = near
        if (land or dz) and D:
            inr = sorted((d, q) for q, d in D.items() if d < rad)
            if inr and not dz:
                ok = {q for d, q in inr if d <= inr[0][0] + 1e-6}
            elif inr:
                lim = lim or len(inr) >= nl
                amb = len(inr) > nl and inr[nl - 1][0] > inr[nl][0] - 1e-6
                use = inr if amb else inr[:nl]
                ok = set()
                for al in alts:
                    m = min(abs(og[q[1], q[0]] - al) for d, q in use)
                    best = [(d, q) for d, q in use if abs(abs(og[q[1], q[0]] - al) - m) < 1e-6]
                    ok |= {q for d, q in best if amb or d <= best[0][0] + 1e-6}
        g = (int(r.data[0, 0, k]), int(r.data[0, 1, k]))
        expect(g in ok, "neighbour of the site at (%g, %g)" % (x, y), expected=sorted(ok), got=g)
        ga = float(r.coord("altitude").points[k])
        expect(any(abs(ga - a) < 1e-4 for a in alts), "altitude of the site", expected=sorted(alts), got=ga)
        expect(abs(float(r.data[0, 2, k]) - (ga - og[g[1], g[0]])) < 1e-3, "vertical displacement: site less grid point", got=r.data[0, 2, k])
    expect(any("Limit on number" in str(w.message) for w in ws) == lim, "too low a limit on neighbours is reported", expected=lim, got=[str(w.message)[:60] for w in ws])
    return METH[land, dz]


# ------------------------------------------------------------ extraction
IDX = [(0, 0), (2, 0), (1, 1), (2, 1), (1, 0)]  # x, y


def sites_cube(methods=("nearest",), uid=False, n=5, hash_=None, vd=None, wmo=None):
    import numpy as np
    from improver.spotdata.build_spotdata_cube import build_spotdata_cube

    d = np.zeros((len(methods), 3, n), np.float32)
    for m in range(len(methods)):
        for i in range(n):
            x, y = IDX[(i + 2 * m) % 5]
            d[m, :, i] = x, y, (vd[m][i] if vd else 10 * i - 5 * m)
    kw = dict(unique_site_id=["%08d" % (i + 40) for i in range(n)], unique_site_id_key="met_office_site_id") if uid else {}
    c = build_spotdata_cube(d, "grid_neighbours", 1, np.arange(n, dtype=np.float32) * 7, np.linspace(50, 55, n).astype(np.float32), np.linspace(-5, 1, n).astype(np.float32), wmo or ["%05d" % (i + 3) for i in range(n)], neighbour_methods=list(methods), grid_attributes=["x_index", "y_index", "vertical_displacement"], **kw)
    if hash_:
        c.attributes["model_grid_hash"] = hash_
    return c


LEAD = {
    "r": ("realization", [0, 2], "1"),
    "p": ("percentile", [25.0, 75.0], "%"),
    "t": ("time", None, None),
    "1": ("time", None, None),
}


def field(lay, masked=False, two=0, name="air_temperature", units="K"):
    """A cube over the dimensions named (r, p, t, y, x) with two-dimensional coordinates added when asked."""
    import cubes
    import numpy as np
    from iris.coords import AuxCoord

    lead = []
    for q in sorted(set(lay) - set("yx")):
        s = list(LEAD[q])
        if q in "t1":
            s[1:] = [[cubes.T0 + H * (k + 1) for k in range(2 if q == "t" else 1)], cubes.EPOCH]
        lead.append(tuple(s))
    n = tuple(len(s[1]) for s in lead) + (2, 3)
    v = np.arange(int(np.prod(n)), dtype=np.float32).reshape(n) + 270
    if masked:
        v = np.ma.masked_array(v, (np.arange(v.size).reshape(n) % 4 == 1))
    c = cubes.grid(v, name=name, units=units, leading=lead, attributes=ATT, scalars=[("height", 1.5, "m")])
    if two:
        lt = AuxCoord((np.arange(6).reshape(2, 3) * 60).astype(np.int64), long_name="local_time", units=cubes.EPOCH)
        if two == 2:
            lt.bounds = np.stack([lt.points - 30, lt.points], axis=-1)
        c.add_aux_coord(lt, (c.ndim - 2, c.ndim - 1))
    nm = {"r": "realization", "p": "percentile", "t": "time", "1": "time", "y": "projection_y_coordinate", "x": "projection_x_coordinate"}
    return cubes.transposed(c, [nm[q] for q in lay])


def c_extract(tier):
    lays = ["yx", "xy"] + ["".join(p) for s in ("ryx", "tyx", "1yx") for p in itertools.permutations(s)] + ["rtyx", "yrxt", "rpyx", "xtyr", "r1yx", "pyxr"]
    for lay in lays:
        for masked in (False, True):
            for two in (0, 1, 2):
                for m in (0, 1):
                    for uid in (False, True):
                        yield (lay, masked, two, m, uid, None)
            yield (lay, masked, 0, 0, False, "A title")
    for k in range(3):
        yield ("bad", k, 0, 0, False, None)


def extract(case, cov):
    import cubes
    import numpy as np
    from improver.metadata.utilities import create_coordinate_hash
    from improver.spotdata.spot_extraction import SpotExtraction
    from iris.coords import CellMethod

    lay, masked, two, m, uid, title = case
    if lay == "bad":
        c = field("yx")
        h = create_coordinate_hash(c)
        n = sites_cube(hash_=h if masked else "0" * 64)
        e = raises(SpotExtraction(["nearest", "nearest_land", "nearest"][masked]).process, n, c if masked < 2 else cubes.grid(np.zeros((2, 3), np.float32), origin=(7.0, 0.0)))
        cov.step()
        expect(isinstance(e, ValueError), "another grid or an absent method must be refused", got=e)
        return "refused"
    c = field(lay, masked, two)
    c.add_cell_method(CellMethod("maximum", coords="time"))
    ms = ["nearest", "nearest_land_minimum_dz"]
    n = sites_cube(ms, uid, hash_=create_coordinate_hash(c))
    with cubes.Unchanged(n, c):
        r = SpotExtraction(ms[m]).process(n, c, new_title=title)
    cov.step()
    rest = [q for q in lay if q not in "yx"]
    yi, xi = lay.index("y"), lay.index("x")
    v = np.moveaxis(np.ma.getdata(c.data), [yi, xi], [-2, -1])
    mk = np.moveaxis(np.ma.getmaskarray(c.data), [yi, xi], [-2, -1])
    pts = [IDX[(i + 2 * m) % 5] for i in range(5)]
    want = np.stack([v[..., y, x] for x, y in pts], -1)
    wm = np.stack([mk[..., y, x] for x, y in pts], -1)
    expect(r.shape == want.shape and (np.ma.getmaskarray(r.data) == wm).all(), "shape and mask", expected=want.shape, got=r.data)
    expect((np.ma.getdata(r.data)[~wm] == want[~wm]).all() and r.dtype == np.float32, "values at the neighbours", expected=want, got=r.data)
    names = {"r": "realization", "p": "percentile", "t": "time", "1": "time"}
    expect([q.name() for q in r.coords(dim_coords=True)] == [names[q] for q in rest] + ["spot_index"], "dimensions", got=[q.name() for q in r.coords(dim_coords=True)])
    gd, cd = cubes.describe(r)["coords"], cubes.describe(c)["coords"]
    for q in list(cd):
        if q.startswith("projection") or q == "local_time":
            continue
        expect(q in gd and cubes.diff(gd[q][0], cd[q][0]) is None, "coordinate " + q, expected=cd[q][0], got=gd.get(q))
        old = [lay[d] for d in cd[q][1]]
        expect([(rest + ["s"])[d] for d in gd[q][1]] == old, "dimension of " + q, expected=old, got=gd[q][1])
    if two:
        q, s = r.coord("local_time"), c.coord("local_time")
        w = [60 * (3 * y + x) for x, y in pts]
        expect(list(q.points) == w and r.coord_dims(q) == (r.ndim - 1,) and str(q.units) == cubes.EPOCH, "local times at the sites", expected=w, got=q.points)
        expect((q.bounds is None) == (two == 1) and (two == 1 or [list(b) for b in q.bounds] == [[p - 30, p] for p in w]), "bounds of local times", got=q.bounds)
    for q in ("altitude", "latitude", "longitude", "wmo_id") + (("met_office_site_id",) if uid else ()):
        expect(list(r.coord(q).points) == list(n.coord(q).points) and r.coord_dims(q) == (r.ndim - 1,), "site coordinate " + q, got=r.coord(q).points)
    att = {k: w for k, w in ATT.items() if not k.startswith("mosg__grid")}
    expect(r.attributes == dict(att, title=title or "unknown", model_grid_hash=n.attributes["model_grid_hash"]), "attributes", got=r.attributes)
    expect(r.name() == c.name() and r.units == c.units and r.cell_methods == c.cell_methods, "description", got=r.cell_methods)
    return "extract"


# ------------------------------------------------------------ heights
def spot(v, lead=(), name="air_temperature", units="K", order=None, h=None):
    import cubes
    import numpy as np
    from improver.spotdata.build_spotdata_cube import build_spotdata_cube
    from iris.coords import AuxCoord, DimCoord

    n = v.shape[-1]
    dims = []
    for nm, pts, un, var in lead:
        d = DimCoord(np.array(pts, np.int32 if nm == "realization" else np.float32), units=un)
        d.rename(nm)
        d.var_name = var
        dims.append(d)
    ht = AuxCoord(np.array([1.5], np.float32), "height", units="m")
    c = build_spotdata_cube(v, name, units, np.arange(n, dtype=np.float32) * 7, np.linspace(50, 55, n).astype(np.float32), np.linspace(-5, 1, n).astype(np.float32), ["%05d" % (i + 3) for i in range(n)], scalar_coords=[ht], additional_dims=dims)
    c.attributes.update(title="T", source="S")
    if h:
        c.attributes["model_grid_hash"] = h
    return cubes.transposed(c, order) if order else c


VD = [0.0, -100.0, 30.0, 250.0, -20.0]


def c_height(tier):
    V = (0.0, 0.25, 1.0)
    for n in (1, 2, 5):
        for spp in ("above", "below"):
            for un in ("m", "ft", "km"):
                for lay in (0, 1):
                    for nr in (0, 1, 2):
                        for nt in (2, 3):
                            yield ("prob", n, spp, un, [lay, nr, nt])
        for kind in ("realization", "percentile", "none"):
            for un in ("m", "ft", "km"):
                for lay in (0, 1):
                    for masked in (False, True):
                        yield ("value", n, kind, un, [lay, masked, 0])
    for v in itertools.product(V, repeat=3):
        for spp in ("above", "below"):
            yield ("prob", 5, spp, "m", [0, 0, list(v)])
    yield ("bad", 0, 0, 0, [0, 0, 0])


def height(case, cov):
    import cubes
    import numpy as np
    from cf_units import Unit
    from improver.spotdata.height_adjustment import SpotHeightAdjustment

    kind, n, a, un, (lay, x, nt) = case
    nb = sites_cube(("nearest", "nearest_land"), n=n, vd=[[0.0] * 5, VD])
    f = float(Unit("m").convert(1.0, un)) if un else 1
    base = "cloud_base_height"
    if kind == "bad":
        c = spot(np.zeros((1, 2), np.float32), [(base, [10.0], "m", "threshold")], name="probability_of_%s_below_threshold" % base, units="1")
        e = raises(SpotHeightAdjustment().process, c, sites_cube(n=2))
        cov.step()
        expect(isinstance(e, ValueError), "one threshold must be refused", got=e)
        return "refused"
    p = SpotHeightAdjustment("nearest_land")
    if kind == "value":
        nl = 1 if a == "none" else 3
        v = (np.arange(nl * n, dtype=np.float32).reshape(nl, n) * 100 - 50).astype(np.float32)
        if x:
            v = np.ma.masked_array(v, np.arange(nl * n).reshape(nl, n) % 3 == 0)
        lead = [] if a == "none" else [(a, [25, 50, 75] if a == "percentile" else [0, 1, 2], "%" if a == "percentile" else "1", None)]
        c = spot(v if nl > 1 else v[0], lead, name=base, units=un, order=["spot_index", a] if lay and nl > 1 else None)
        keep = c.copy()
        with cubes.Unchanged(c, nb):
            r = p.process(c, nb)
        cov.step()
        d = np.array(VD[:n], np.float32) * f
        w = keep.data + (d[:, None] if lay and nl > 1 else d)
        cubes.expect_cube(r, cubes.describe(keep), "description", ignore=("data",))
        expect((np.ma.getmaskarray(r.data) == np.ma.getmaskarray(w)).all(), "mask", got=r.data)
        g = ~np.ma.getmaskarray(w)
        expect_close(np.ma.getdata(r.data)[g], np.ma.getdata(w)[g], "height plus displacement", rtol=1e-5, atol=1e-3 * abs(f))
        return "value"
    T = [50.0, 100.0, 1000.0] if not isinstance(nt, int) or nt == 3 else [20.0, 60.0]
    m = len(T)
    P = [[0.0, 0.25, 1.0], [0.1, 0.1, 0.1], [0.5, 0.6, 0.9], [0.0, 1.0, 1.0], [0.3, 0.4, 0.8]]
    rows = [nt] * n if isinstance(nt, list) else [q[:m] for q in P[:n]]
    v = np.array(rows, np.float32).T  # threshold, spot
    if a == "above" and not isinstance(nt, list):
        v = v[::-1].copy()
    lead = [(base, [t * f for t in T], un, "threshold")]
    dims = [base, "spot_index"]
    if x:
        v = np.stack([v, v * np.float32(0.5)][:x])
        lead = [("realization", list(range(x)), "1", None)] + lead
        dims = ["realization"] + dims
    order = (["spot_index"] + dims[:-1] if lay else None)
    c = spot(v, lead, name="probability_of_%s_%s_threshold" % (base, a), units="1", order=order)
    c.coord(base).attributes["spp__relative_to_threshold"] = "greater_than" if a == "above" else "less_than"
    keep = c.copy()
    with cubes.Unchanged(c, nb):
        r = p.process(c, nb)
    cov.step()
    cubes.expect_cube(r, cubes.describe(keep), "description", ignore=("data",))
    order = order or dims
    g = np.moveaxis(r.data, [order.index(q) for q in dims], range(len(dims)))
    w = np.empty(v.shape)
    for idx in itertools.product(*[range(s) for s in v.shape[:-2]]):
        for i in range(n):
            w[idx + (slice(None), i)] = np.interp([t + VD[i] for t in T], T, v[idx + (slice(None), i)])
    expect_close(g, w, "probabilities at thresholds relative to the site, ends beyond the thresholds", atol=2e-5)
    return "prob"


# ------------------------------------------------------------ lapse rates
def c_lapse(tier):
    for lim in (None, 50, 20, 0):
        for lr in itertools.product((-0.0065, 0.0, 0.01, -0.0098), repeat=2):
            yield ("adjust", lim, list(lr), 0)
    for lay in ("s", "ps", "rs", "prs"):
        for masked in (False, True):
            for how in ("fixed", "zero", "grid", "land"):
                for nm in ("air_temperature", "feels_like_temperature"):
                    yield ("apply", lay, [masked, how], nm)
    for k in range(9):
        yield ("bad", k, [0], 0)


def lapse(case, cov):
    import cubes
    import numpy as np
    from improver.lapse_rate import compute_lapse_rate_adjustment
    from improver.metadata.utilities import create_coordinate_hash
    from improver.spotdata.apply_lapse_rate import SpotLapseRateAdjust

    def adj(lr, dz, lim=50):
        c = max(-lim, min(lim, dz))
        return lr * c + (dz - c) * -0.0065

    kind, a, b, nm = case
    D = [-300.0, -50.5, -50.0, -49.0, -20.0, 0.0, 10.0, 20.0, 50.0, 51.0, 500.0]
    if kind == "adjust":
        lr = np.array([[b[0]] * len(D), [b[1]] * len(D)], np.float32)
        for dz in (np.array(D, np.float32), np.array([D, D[::-1]], np.float32)):
            k1, k2 = lr.copy(), dz.copy()
            r = compute_lapse_rate_adjustment(lr, dz, **({} if a is None else {"max_orog_diff_limit": a}))
            cov.step()
            w = [[adj(b[i], (dz if dz.ndim == 1 else dz[i])[j], 50 if a is None else a) for j in range(len(D))] for i in range(2)]
            expect_close(r, w, "adjustment", rtol=1e-5, atol=1e-6)
            expect((lr == k1).all() and (dz == k2).all(), "inputs are not changed", got=dz)
        return "adjust"
    g = cubes.grid(np.array([[-0.0065, 0.0, 0.01], [0.02, -0.0098, -0.003]], np.float32), name="air_temperature_lapse_rate", units="K m-1", scalars=[("height", 1.5, "m")])
    h = create_coordinate_hash(g)
    ms = ("nearest", "nearest_land")
    vd = [[0.0, 70.0, -80.0, 30.0, -10.0], [5.0, -60.0, 90.0, 0.0, 50.0]]
    nb = sites_cube(ms, hash_=h, vd=vd)
    if kind == "bad":
        c = spot(np.full(5, 280, np.float32), h=h)
        kw, args = {}, [c, nb, g]
        if a == 0:
            c.rename("wind_speed")
        elif a == 1:
            args = [c, nb]
        elif a == 2:
            kw = {"fixed_lapse_rate": -0.0065}
        elif a == 3:
            g.rename("lapse_rate")
        elif a == 4:
            g.remove_coord("height")
        elif a == 5:
            g.coord("height").points = np.array([10.0], np.float32)
        elif a == 6:
            nb.attributes["model_grid_hash"] = "1" * 64
        elif a == 7:
            args[0] = spot(np.zeros((2, 5), np.float32), [("air_temperature", [270.0, 280.0], "K", "threshold")], name="probability_of_air_temperature_above_threshold", units="1", h=h)
        else:
            args[2] = cubes.grid(g.data, name=g.name(), units="K m-1", scalars=[("height", 1.5, "m")], origin=(9.0, 0.0))
        e = raises(SpotLapseRateAdjust(**kw).process, *args)
        cov.step()
        expect(e is not None, "must be refused", got=e)
        return "refused"
    masked, how = b
    L = {"p": ("percentile", [25, 50, 75], "%", None), "r": ("realization", [0, 1], "1", None)}
    lead = [L[q] for q in a[:-1]]
    n = tuple(len(q[1]) for q in lead) + (5,)
    v = np.arange(int(np.prod(n)), dtype=np.float32).reshape(n) + 270
    if masked:
        v = np.ma.masked_array(v, np.arange(v.size).reshape(n) % 3 == 1)
    c = spot(v, lead, name=nm, h=h)
    fixed = {"fixed": -0.0065, "zero": 0.0}.get(how)
    m = 1 if how in ("land", "zero") else 0
    with cubes.Unchanged(c, nb, g):
        P = SpotLapseRateAdjust(ms[m], fixed_lapse_rate=fixed)
        r = P.process(c, nb) if fixed is not None else P.process(c, nb, g)
    cov.step()
    d = []
    for i in range(5):
        x, y = IDX[(i + 2 * m) % 5]
        d.append(adj(fixed if fixed is not None else float(g.data[y, x]), vd[m][i]))
    cubes.expect_cube(r, cubes.describe(c), "description", ignore=("data",))
    expect((np.ma.getmaskarray(r.data) == np.ma.getmaskarray(v)).all(), "mask", got=r.data)
    k = ~np.ma.getmaskarray(v)
    expect_close(np.ma.getdata(r.data)[k], (np.ma.getdata(v) + np.array(d))[k], "adjusted temperature", rtol=1e-6, atol=1e-3)
    return "apply"


# ------------------------------------------------------------ manipulation
def c_manip(tier):
    for coord in ("wmo_id", "met_office_site_id", "altitude"):
        for bits in range(32):
            yield ("subset", coord, bits, 0)
    for k in range(6):
        yield ("subset-bad", k, 0, 0)
    for lay in ("ryx", "yxr"):
        for ps in ([50], [10, 50, 90], [25.5, 75], []):
            for collapse in (False, True):
                for lr in (None, "fixed", "grid", "off", "nothing"):
                    yield ("real", lay, [ps, collapse], lr)
    for ps in ([50], [25], [75, 25], [25, 50], []):
        for lr in (None, "fixed"):
            yield ("perc", "pyx", [ps], lr)
    for ps in ([50], [20, 80], []):
        yield ("prob", "", [ps], None)
    for ps in ([50], []):
        for sup in (False, True):
            yield ("det", "yx", [ps], sup)


def manip(case, cov):
    import cubes
    import numpy as np
    from improver.ensemble_copula_coupling.ensemble_copula_coupling import ConvertProbabilitiesToPercentiles, ResamplePercentiles
    from improver.metadata.utilities import create_coordinate_hash
    from improver.percentile import PercentileConverter
    from improver.spotdata.apply_lapse_rate import SpotLapseRateAdjust
    from improver.spotdata.spot_extraction import SpotExtraction
    from improver.spotdata.spot_manipulation import SpotManipulation

    kind, a, b, lr = case
    if kind == "subset":
        n = 5
        c = spot(np.arange(10, dtype=np.float32).reshape(2, 5), [("realization", [0, 1], "1", None)])
        wmo = ["%05d" % (i + 3) for i in range(n)]
        uid = ["%08d" % (i + 40) for i in range(n)]
        from iris.coords import AuxCoord

        c.add_aux_coord(AuxCoord(uid, long_name="met_office_site_id", units="no_unit"), 1)
        keep = [i for i in range(n) if b >> i & 1]
        order = keep[::-1]
        nb = sites_cube(uid=True, n=max(1, len(keep)) + 1, wmo=[wmo[i] for i in order] + ["None"] if order else ["None", "09999"])
        q = nb.coord("met_office_site_id")
        q.points = np.array([uid[i] for i in order] + ["00000999"] if order else ["00000998", "00000999"])
        nb.coord("altitude").points = np.array([7.0 * i for i in order] + [999.0] if order else [998.0, 999.0], np.float32)
        P = SpotManipulation(subset_coord=a)
        with cubes.Unchanged(c, nb):
            if not keep:
                e = raises(P.process, [c, nb])
                cov.step()
                expect(isinstance(e, ValueError), "no site left must be refused", got=e)
                return "refused"
            r = P.process([c, nb])
        cov.step()
        w = c[:, keep if len(keep) > 1 else keep[0]]
        cubes.expect_cube(r, cubes.describe(w), "the sites asked for, in their order")
        return "subset"
    if kind == "subset-bad":
        c = spot(np.arange(5, dtype=np.float32), h="2" * 64)
        nb = sites_cube()
        if a < 3:
            kw = [dict(apply_lapse_rate_correction=True), dict(fixed_lapse_rate=-0.0065), dict(subset_coord="absent")][a]
            e = raises(SpotManipulation(**kw).process, [c, nb])
            cov.step()
            expect(isinstance(e, (NotImplementedError, ValueError)), "must be refused", got=e)
            return "refused"
        w = c.copy()
        w.attributes.pop("model_grid_hash")
        with cubes.Unchanged(c, nb):
            r = SpotManipulation(new_title="x" if a == 4 else None).process([c, nb])
        cov.step()
        cubes.expect_cube(r, cubes.describe(w), "without a request the forecast is returned")
        return "same"
    if kind == "prob":
        c = cubes.prob(np.stack([np.full((2, 3), p, np.float32) for p in (0.9, 0.5, 0.2)]), [270.0, 280.0, 290.0], diag="air_temperature", tunits="K", attributes=ATT)
    else:
        c = field(a)
    h = create_coordinate_hash(c)
    vd = [[0.0, 70.0, -80.0, 30.0, -10.0]]
    nb = sites_cube(("nearest_land",), hash_=h, vd=vd)
    g = cubes.grid(np.array([[-0.0065, 0.0, 0.01], [0.02, -0.0098, -0.003]], np.float32), name="air_temperature_lapse_rate", units="K m-1", scalars=[("height", 1.5, "m")])
    ps = b[0]
    kw = dict(land_constraint=True, extract_percentiles=ps or None, new_title="new")
    inp = [c, nb]
    if kind in ("real", "perc") and lr:
        if lr == "off":
            kw["fixed_lapse_rate"] = -0.0065
        else:
            kw["apply_lapse_rate_correction"] = True
            if lr == "fixed":
                kw["fixed_lapse_rate"] = -0.0065
            elif lr == "grid":
                inp = [c, g, nb]
    if kind == "real":
        kw["realization_collapse"] = b[1]
    if kind == "det":
        kw["suppress_warnings"] = lr
    with warnings.catch_warnings(record=True) as ws:
        warnings.simplefilter("always")
        with cubes.Unchanged(*inp):
            P = SpotManipulation(**kw)
            r = P.process(inp)
            r2 = P.process(inp)
    cov.step(2)
    cubes.expect_cube(r2, cubes.describe(r), "the same again")
    w = SpotExtraction("nearest_land").process(nb, c, new_title="new")
    warned = False
    if kind == "real" and b[1]:
        keep = w
        ax = [q.name() for q in w.coords(dim_coords=True)].index("realization")
        d = w.data.mean(axis=ax)
        w = w[0] if ax == 0 else w[:, 0]
        w.data = d
        w.remove_coord("realization")
        got = r.copy()
        ign = ("cell_methods",)
    else:
        ign = ()
    if ps:
        P32 = [np.float32(p) for p in ps]
        if kind == "real" and not b[1]:
            w = PercentileConverter("realization", percentiles=P32).process(w)
            direct = np.percentile(np.ma.getdata(np.moveaxis(SpotExtraction("nearest_land").process(nb, c).data, 0 if a == "ryx" else 0, 0)), ps, axis=0)
            expect_close(w.data, direct[0] if len(ps) == 1 else direct, "percentiles of the realizations", atol=1e-3)
        elif kind == "perc":
            if set(ps) <= {25, 75}:
                k = [i for i, p in enumerate((25, 75)) if p in ps]
                w = w[k if len(k) > 1 else k[0]]
            else:
                w = ResamplePercentiles().process(w, percentiles=P32)
        elif kind == "prob":
            import iris

            w = iris.util.squeeze(ConvertProbabilitiesToPercentiles().process(w, percentiles=P32))
        else:
            warned = not (kind == "det" and lr)
    if kind in ("real", "perc") and lr in ("fixed", "grid"):
        L = SpotLapseRateAdjust("nearest_land", fixed_lapse_rate=-0.0065 if lr == "fixed" else None)
        w = L(w, nb) if lr == "fixed" else L(w, nb, g)
    elif lr == "nothing":
        warned = True
    w.attributes.pop("model_grid_hash")
    cubes.expect_cube(r, cubes.describe(w), "the steps asked for, in order", ignore=ign + (("data",) if ign else ()))
    expect_close(r.data, w.data, "values", atol=1e-3)
    expect(any("percentile(s)" in str(q.message) or "lapse rate" in str(q.message) for q in ws) == warned, "what cannot be done is reported", expected=warned, got=[str(q.message)[:70] for q in ws])
    return kind


SECTIONS = [Section("neighbours", c_neighbours, neighbours), Section("extract", c_extract, extract), Section("height", c_height, height), Section("lapse", c_lapse, lapse), Section("manip", c_manip, manip)]
if __name__ == "__main__":
    main(globals())
