"""Cube helpers for the checks: complete description of a cube, differences, builders."""
import numpy as np
from mc import Violation, same, short


def describe_coord(c):
    return {
        "points": np.array(c.points), "bounds": None if c.bounds is None else np.array(c.bounds), "units": str(c.units),
        "calendar": getattr(c.units, "calendar", None), "dtype": str(c.points.dtype), "attributes": dict(c.attributes),
        "standard_name": c.standard_name, "long_name": c.long_name, "var_name": c.var_name,
        "coord_system": repr(c.coord_system),
    }


def describe(cube, data=True):
    d = {
        "standard_name": cube.standard_name, "long_name": cube.long_name, "var_name": cube.var_name, "units": str(cube.units),
        "attributes": dict(cube.attributes), "cell_methods": [str(m) for m in cube.cell_methods], "shape": tuple(cube.shape),
        "dim_coords": [c.name() for c in cube.coords(dim_coords=True)],
        "coords": {c.name(): (describe_coord(c), tuple(cube.coord_dims(c))) for c in cube.coords()},
    }
    if data:
        d["data"] = cube.data.copy() if hasattr(cube.data, "copy") else cube.data
        d["dtype"] = str(cube.data.dtype)
        d["masked"] = bool(np.ma.is_masked(cube.data))
    return d


def diff(a, b, path="", ignore=()):
    """First difference of two descriptions, or None."""
    if path in ignore:
        return None
    if isinstance(a, dict) and isinstance(b, dict):
        for k in sorted(set(a) | set(b), key=str):
            p = (path + "." if path else "") + str(k)
            if p in ignore or str(k) in ignore:
                continue
            if k not in a:
                return "%s: only in second: %s" % (p, short(b[k], 200))
            if k not in b:
                return "%s: only in first: %s" % (p, short(a[k], 200))
            r = diff(a[k], b[k], p, ignore)
            if r:
                return r
        return None
    if isinstance(a, (tuple, list)) and isinstance(b, (tuple, list)) and len(a) == len(b):
        for i, (x, y) in enumerate(zip(a, b)):
            r = diff(x, y, path + "[%d]" % i, ignore)
            if r:
                return r
        return None
    if same(a, b):
        return None
    return "%s: %s != %s" % (path, short(a, 400), short(b, 400))


def expect_cube(got, want, msg, ignore=()):
    """got, want: cubes or descriptions."""
    g = got if isinstance(got, dict) else describe(got)
    w = want if isinstance(want, dict) else describe(want)
    r = diff(g, w, ignore=ignore)
    if r:
        raise Violation(msg + " - " + r)


class Unchanged:
    """Context manager asserting that cubes/arrays passed to a call are not modified by it."""

    def __init__(self, *objs, ignore=()):
        self.objs = objs
        self.ignore = ignore

    @staticmethod
    def _desc(o):
        if o is None or isinstance(o, (str, int, float, bool)):
            return o
        if isinstance(o, np.ndarray):
            return o.copy()
        if isinstance(o, (list, tuple)):
            return [Unchanged._desc(x) for x in o]
        if isinstance(o, dict):
            return {k: Unchanged._desc(v) for k, v in o.items()}
        return describe(o)

    def __enter__(self):
        self.before = [self._desc(o) for o in self.objs]
        return self

    def __exit__(self, et, ev, tb):
        if et is None:
            for i, (o, b) in enumerate(zip(self.objs, self.before)):
                r = diff(self._desc(o), b, ignore=self.ignore)
                if r:
                    raise Violation("the call modified its input %d - %s" % (i, r))
        return False


# ------------------------------------------------------------------ builders
EPOCH = "seconds since 1970-01-01 00:00:00"
T0 = 1510272000  # 2017-11-10 00:00 UTC


def grid(data, name="precipitation_rate", units="1", leading=(), spatial="equalarea", spacing=2000.0, origin=(0.0, 0.0), time=T0 + 4 * 3600,
         frt=T0, time_bounds=None, attributes=None, scalars=(), standard=None):
    """A gridded cube [leading..., y, x] with IMPROVER conventions. leading: (name, points, units[, dtype[, attributes]])."""
    from iris.coords import AuxCoord, DimCoord
    from iris.cube import Cube
    from iris.coord_systems import GeogCS, LambertAzimuthalEqualArea

    data = data if isinstance(data, np.ma.MaskedArray) else np.asarray(data)
    ny, nx = data.shape[-2:]
    if spatial == "latlon":
        cs = GeogCS(6371229.0)
        nms, u = ("latitude", "longitude"), "degrees"
    else:
        cs = LambertAzimuthalEqualArea(latitude_of_projection_origin=54.9, longitude_of_projection_origin=-2.5, ellipsoid=GeogCS(6378137.0, 6356752.314140356))
        nms, u = ("projection_y_coordinate", "projection_x_coordinate"), "m"
    cube = Cube(data, units=units, attributes=dict(attributes or {}))
    cube.rename(name)
    n = data.ndim - 2
    assert n == len(leading), (data.shape, leading)
    for i, spec in enumerate(leading):
        nm, pts, un = spec[:3]
        dt = spec[3] if len(spec) > 3 else {"realization": np.int32, "time": np.int64, "forecast_period": np.int32}.get(nm, np.float32)
        c = DimCoord(np.array(pts, dtype=dt), units=un, attributes=dict(spec[4]) if len(spec) > 4 else None)
        c.rename(nm)
        if nm == "threshold" or (len(spec) > 5 and spec[5]):
            c.var_name = "threshold"
        cube.add_dim_coord(c, i)
    sy = sx = spacing
    if isinstance(spacing, (tuple, list)):
        sy, sx = spacing
    for k, (nm, o, s, m) in enumerate(zip(nms, origin, (sy, sx), (ny, nx))):
        pts = (o + s * np.arange(m)).astype(np.float32)
        b = np.stack([pts - s / 2, pts + s / 2], axis=1).astype(np.float32)
        cube.add_dim_coord(DimCoord(pts, standard_name=nm, units=u, bounds=b, coord_system=cs), n + k)
    names = [s[0] for s in leading]
    if time is not None:
        if "time" not in names:
            tb = None if time_bounds is None else np.array(time_bounds, np.int64)
            cube.add_aux_coord(DimCoord(np.int64(time), "time", units=EPOCH, bounds=tb))
        if frt is not None:
            cube.add_aux_coord(DimCoord(np.int64(frt), "forecast_reference_time", units=EPOCH))
            if "time" in names:
                d = names.index("time")
                pts = np.array(leading[d][1], np.int64)
                cube.add_aux_coord(AuxCoord((pts - frt).astype(np.int32), "forecast_period", units="seconds"), d)
            elif "forecast_period" not in names:
                fb = None if time_bounds is None else (np.array(time_bounds, np.int64) - frt).astype(np.int32)
                cube.add_aux_coord(DimCoord(np.int32(time - frt), "forecast_period", units="seconds", bounds=fb))
    for spec in scalars:
        nm, pt, un = spec[:3]
        c = AuxCoord(np.array(pt, dtype=spec[3] if len(spec) > 3 else np.float32) if not isinstance(pt, str) else pt, units=un)
        c.rename(nm)
        cube.add_aux_coord(c)
    return cube


def prob(data, thresholds, diag="precipitation_rate", tunits="m s-1", spp="greater_than", **kw):
    """Probability cube [threshold, y, x] (or with further leading dimensions given in kw['before'])."""
    before = kw.pop("before", ())
    lead = list(before) + [(diag, thresholds, tunits, np.float32, {"spp__relative_to_threshold": spp}, True)]
    rel = "above" if "greater" in spp else "below"
    return grid(data, name="probability_of_%s_%s_threshold" % (diag, rel), units="1", leading=lead, **kw)


def arr(cube, *names):
    """The data with its dimensions in the order of these coordinates (which must be exactly the dimensions)."""
    dims = [cube.coord_dims(n) for n in names]
    if any(len(d) != 1 for d in dims) or sorted(d[0] for d in dims) != list(range(cube.ndim)):
        raise Violation("the result should have the dimensions %s" % (names,), got=short([c.name() for c in cube.coords(dim_coords=True)]))
    return cube.data.transpose([d[0] for d in dims])


def transposed(cube, names):
    """A copy of cube with its dimensions in the order named."""
    c = cube.copy()
    c.transpose([c.coord_dims(n)[0] for n in names])
    return c
