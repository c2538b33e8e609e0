"""CF-netCDF save and load for the iris stand-in."""
import re

import cf_units
import netCDF4
import numpy as np
import numpy.ma as ma

import iris.coord_systems as cs
from iris.coords import AuxCoord, CellMethod, DimCoord

_GM_ATTRS = {
    "latitude_longitude": ["semi_major_axis", "semi_minor_axis", "longitude_of_prime_meridian"],
    "lambert_azimuthal_equal_area": [
        "latitude_of_projection_origin",
        "longitude_of_projection_origin",
        "false_easting",
        "false_northing",
    ],
    "transverse_mercator": [
        "latitude_of_projection_origin",
        "longitude_of_central_meridian",
        "false_easting",
        "false_northing",
        "scale_factor_at_central_meridian",
    ],
}


def _safe(name):
    return re.sub(r"[^a-zA-Z0-9_]", "_", name)


class _Saver:
    def __init__(self, path):
        self.ds = netCDF4.Dataset(str(path), "w", format="NETCDF4")
        self.coords = []  # (coord, dims tuple, varname)
        self.dims = {}
        self.gms = []

    def unique(self, name):
        base, i = name, 0
        while name in self.ds.variables:
            name = "%s_%d" % (base, i)
            i += 1
        return name

    def dim_name(self, cube, d):
        dc = cube.coords(dimensions=d, dim_coords=True)
        if dc:
            for c, dims, var in self.coords:
                if c == dc[0] and type(c) is type(dc[0]) and dims == (var,):
                    return var
            base = _safe(dc[0].var_name or dc[0].name())
            name, i = base, 0
            while name in self.ds.dimensions or name in self.ds.variables:
                name = "%s_%d" % (base, i)
                i += 1
            self.ds.createDimension(name, cube.shape[d])
            self.write_coord(dc[0], (name,), name)
            return name
        name = "dim%d" % d
        while name in self.ds.dimensions and self.ds.dimensions[name].size != cube.shape[d]:
            name += "_0"
        if name not in self.ds.dimensions:
            self.ds.createDimension(name, cube.shape[d])
        return name

    def write_array(self, name, arr, dims, **kw):
        if arr.dtype.kind in "SU":
            ln = max(1, max(len(s.encode() if isinstance(s, str) else s) for s in arr.flat))
            sdim = "string%d" % ln
            if sdim not in self.ds.dimensions:
                self.ds.createDimension(sdim, ln)
            var = self.ds.createVariable(name, "S1", dims + (sdim,))
            chars = np.zeros(arr.shape + (ln,), "S1")
            for idx in np.ndindex(arr.shape):
                s = str(arr[idx]).encode()
                for i in range(ln):
                    chars[idx + (i,)] = s[i : i + 1] if i < len(s) else b" "
            var[:] = chars
            return var
        var = self.ds.createVariable(name, arr.dtype.newbyteorder("="), dims, **kw)
        var[...] = arr
        return var

    def write_meta(self, var, obj, units=True):
        if obj.standard_name:
            var.standard_name = obj.standard_name
        if obj.long_name:
            var.long_name = obj.long_name
        u = obj.units
        if units and not u.is_no_unit() and not u.is_unknown():
            var.units = str(u)
            if u.is_time_reference():
                var.calendar = u.calendar
        elif u.is_no_unit():
            var.units = "no_unit"

    def grid_mapping(self, system):
        for s, name in self.gms:
            if s == system:
                return name
        name = self.unique(system.grid_mapping_name)
        var = self.ds.createVariable(name, np.int32)
        var.grid_mapping_name = system.grid_mapping_name
        for a in _GM_ATTRS.get(system.grid_mapping_name, []):
            setattr(var, a, getattr(system, a))
        ell = getattr(system, "ellipsoid", None)
        if ell is not None:
            for a in _GM_ATTRS["latitude_longitude"]:
                setattr(var, a, getattr(ell, a))
        self.gms.append((system, name))
        return name

    def write_coord(self, coord, dims, name):
        var = self.write_array(name, np.asarray(coord.points) if dims else np.asarray(coord.points).reshape(()) if coord.dtype.kind not in "SU" else np.asarray(coord.points)[0:1].reshape(()), dims)
        if coord.standard_name in ("latitude", "longitude", "projection_x_coordinate", "projection_y_coordinate"):
            var.axis = "X" if coord.standard_name in ("longitude", "projection_x_coordinate") else "Y"
        elif coord.units.is_time_reference():
            var.axis = "T"
        self.write_meta(var, coord)
        if coord.has_bounds():
            if "bnds" not in self.ds.dimensions:
                self.ds.createDimension("bnds", coord.nbounds)
            bname = name + "_bnds"
            b = np.asarray(coord.bounds)
            self.write_array(bname, b if dims else b.reshape(-1), dims + ("bnds",))
            var.bounds = bname
        for k, v in coord.attributes.items():
            var.setncattr(k, v)
        if isinstance(coord, DimCoord) and coord.circular:
            var.setncattr("circular_", 1)
        self.coords.append((coord.copy(), dims, name))

    def write_cube(self, cube, local_keys, **kw):
        dims = tuple(self.dim_name(cube, d) for d in range(cube.ndim))
        name = self.unique(_safe(cube.var_name or cube.name()))
        data = cube.data
        comp = {}
        if kw.get("zlib") is not None:
            comp["zlib"] = kw["zlib"]
        if kw.get("complevel") is not None:
            comp["complevel"] = kw["complevel"]
        if kw.get("shuffle") is not None:
            comp["shuffle"] = kw["shuffle"]
        if kw.get("least_significant_digit") is not None:
            comp["least_significant_digit"] = kw["least_significant_digit"]
        if kw.get("chunksizes") is not None:
            comp["chunksizes"] = kw["chunksizes"]
        if ma.isMaskedArray(data) and data.dtype.kind in "fiu":
            comp["fill_value"] = netCDF4.default_fillvals[data.dtype.str[1:]]
        if not dims:
            comp = {k: v for k, v in comp.items() if k == "fill_value"}
        var = self.write_array(name, data, dims, **comp)
        self.write_meta(var, cube)
        aux = []
        gm = set()
        for c in cube.coords():
            if c.coord_system is not None:
                gm.add(self.grid_mapping(c.coord_system))
            if any(c is d for d in cube.dim_coords):
                continue
            cdims = tuple(dims[d] for d in cube.coord_dims(c))
            found = None
            for o, od, on in self.coords:
                if od == cdims and o == c and type(o) is type(c):
                    found = on
            if found is None:
                found = self.unique(_safe(c.var_name or c.name()))
                while found in self.ds.dimensions:
                    found += "_0"
                self.write_coord(c, cdims, found)
            aux.append(found)
        if aux:
            var.coordinates = " ".join(sorted(aux))
        if gm:
            var.grid_mapping = sorted(gm)[0]
        if cube.cell_methods:
            var.cell_methods = " ".join(cm._cf().strip() for cm in cube.cell_methods)
        for k in sorted(local_keys):
            if k in cube.attributes:
                var.setncattr(k, cube.attributes[k])
        return var


def save(cube, filename, netcdf_format="NETCDF4", local_keys=None, unlimited_dimensions=None, zlib=False, complevel=4, shuffle=True, fletcher32=False, contiguous=False, chunksizes=None, endian="native", least_significant_digit=None, packing=None, fill_value=None):
    from iris.cube import Cube

    cubes = [cube] if isinstance(cube, Cube) else list(cube)
    local_keys = set(local_keys or ())
    # attributes common to every cube (and not local) are global
    global_keys = None
    for c in cubes:
        keys = {k for k in c.attributes if k not in local_keys}
        global_keys = keys if global_keys is None else global_keys & keys
    for c in cubes:
        for k in list(global_keys or ()):
            if np.any(c.attributes[k] != cubes[0].attributes[k]):
                global_keys.discard(k)
    for c in cubes:
        for k in c.attributes:
            if k not in (global_keys or ()):
                local_keys.add(k)
    local_keys.discard("Conventions")
    sv = _Saver(filename)
    try:
        for k in sorted(global_keys or ()):
            if k != "Conventions":
                sv.ds.setncattr(k, cubes[0].attributes[k])
        for c in cubes:
            sv.write_cube(
                c, local_keys, zlib=zlib, complevel=complevel, shuffle=shuffle, chunksizes=chunksizes, least_significant_digit=least_significant_digit
            )
        sv.ds.setncattr("Conventions", "CF-1.7")
    finally:
        sv.ds.close()


class _LazyVar:
    """Deferred variable data (stands in for iris' dask-wrapped proxy)."""

    def __init__(self, path, name, shape, dtype, keys=()):
        self.path, self.name, self.shape, self.dtype, self.keys = path, name, tuple(shape), np.dtype(dtype), keys
        self.ndim = len(self.shape)

    def __getitem__(self, key):
        probe = np.broadcast_to(np.zeros((), self.dtype), self.shape)[key]
        return _LazyVar(self.path, self.name, probe.shape, self.dtype, self.keys + (key,))

    def transpose(self, order):
        out = _LazyVar(self.path, self.name, [self.shape[i] for i in order], self.dtype, self.keys + (("T", tuple(order)),))
        return out

    def compute(self):
        ds = netCDF4.Dataset(self.path, "r")
        try:
            arr = _read_array(ds.variables[self.name], True)
        finally:
            ds.close()
        for k in self.keys:
            if isinstance(k, tuple) and len(k) == 2 and isinstance(k[0], str):
                arr = arr.transpose(k[1])
            else:
                arr = arr[k]
        return arr


def _read_array(var, masked=False):
    var.set_auto_chartostring(False)
    arr = var[...]
    if masked and arr.dtype.kind != "S":
        arr = ma.asanyarray(arr)
        if arr.mask is ma.nomask or not ma.is_masked(arr):
            arr = ma.array(arr.data, mask=False)
        return arr
    if arr.dtype.kind == "S":
        a = np.asarray(arr)
        out = np.empty(a.shape[:-1], dtype=object)
        for idx in np.ndindex(a.shape[:-1]):
            out[idx] = b"".join(a[idx]).decode().strip().strip("\0")
        return np.array(out.tolist()) if out.ndim else np.array(out.item())
    if ma.isMaskedArray(arr) and not ma.is_masked(arr):
        if "_FillValue" not in var.ncattrs():
            arr = arr.data
        else:
            arr = arr.data
    return np.asanyarray(arr)


def _units(var):
    if "units" not in var.ncattrs():
        return None
    u = var.units
    if u == "no_unit":
        return cf_units.Unit("no_unit")
    try:
        return cf_units.Unit(u, calendar=var.calendar if "calendar" in var.ncattrs() else None)
    except ValueError:
        return None


def _system(ds, name):
    var = ds.variables[name]
    a = {k: var.getncattr(k) for k in var.ncattrs()}
    ell = None
    if "semi_major_axis" in a:
        ell = cs.GeogCS(a["semi_major_axis"], a.get("semi_minor_axis"))
    g = a.get("grid_mapping_name")
    if g == "latitude_longitude":
        return ell
    if g == "lambert_azimuthal_equal_area":
        return cs.LambertAzimuthalEqualArea(
            a["latitude_of_projection_origin"], a["longitude_of_projection_origin"], a["false_easting"], a["false_northing"], ellipsoid=ell
        )
    if g == "transverse_mercator":
        return cs.TransverseMercator(
            a["latitude_of_projection_origin"], a["longitude_of_central_meridian"], a["false_easting"], a["false_northing"], a["scale_factor_at_central_meridian"], ellipsoid=ell
        )
    return None


_SKIP = {"standard_name", "long_name", "units", "calendar", "bounds", "axis", "coordinates", "grid_mapping", "cell_methods", "_FillValue", "circular_"}


def _make_coord(ds, name, dim, system):
    var = ds.variables[name]
    pts = _read_array(var)
    kwargs = dict(units=_units(var), var_name=name)
    if "standard_name" in var.ncattrs():
        kwargs["standard_name"] = var.standard_name
    if "long_name" in var.ncattrs():
        kwargs["long_name"] = var.long_name
    if "bounds" in var.ncattrs():
        kwargs["bounds"] = _read_array(ds.variables[var.bounds])
    if kwargs.get("standard_name") in ("latitude", "longitude", "projection_x_coordinate", "projection_y_coordinate", "grid_latitude", "grid_longitude"):
        kwargs["coord_system"] = system
    kwargs["attributes"] = {k: var.getncattr(k) for k in var.ncattrs() if k not in _SKIP}
    if kwargs["units"] is None and pts.dtype.kind in "SU":
        kwargs["units"] = "no_unit"
    if dim or pts.size == 1 and pts.dtype.kind in "fiu":
        try:
            return DimCoord(pts, circular=bool("circular_" in var.ncattrs()), **kwargs)
        except ValueError:
            pass
    return AuxCoord(pts, **kwargs)


def _cell_methods(text):
    out = []
    for m in re.finditer(r"((?:[\w]+:\s*)+)([\w ]*?[\w]+)\s*(\((?P<x>[^)]*)\))?\s*(?=(?:[\w]+:)|$)", text):
        coords = [c.strip() for c in m.group(1).split(":") if c.strip()]
        intervals, comments = [], []
        extra = m.group("x")
        if extra:
            mm = re.findall(r"(interval|comment):\s*([^:]*?)(?=\s*(?:interval:|comment:|$))", extra)
            for k, v in mm:
                (intervals if k == "interval" else comments).append(v.strip())
            if not mm:
                comments.append(extra)
        out.append(CellMethod(m.group(2), coords, intervals or None, comments or None))
    return out


def load_cubes(filename):
    from iris.cube import Cube

    ds = netCDF4.Dataset(str(filename), "r")
    try:
        referenced = set()
        for n, v in ds.variables.items():
            at = v.ncattrs()
            if "bounds" in at:
                referenced.add(v.bounds)
            if "coordinates" in at:
                referenced.update(v.coordinates.split())
            if "grid_mapping" in at:
                referenced.add(v.grid_mapping)
            if n in ds.dimensions:
                referenced.add(n)
        gattrs = {k: ds.getncattr(k) for k in ds.ncattrs()}
        out = []
        for n, v in ds.variables.items():
            if n in referenced:
                continue
            if v.dtype.kind in "fiu":
                data = _LazyVar(str(filename), n, v.shape, v.dtype)
            else:
                data = _read_array(v)
            cube = Cube(data, var_name=n, units=_units(v))
            if "standard_name" in v.ncattrs():
                cube.standard_name = v.standard_name
            if "long_name" in v.ncattrs():
                cube.long_name = v.long_name
            attrs = dict(gattrs)
            attrs.update({k: v.getncattr(k) for k in v.ncattrs() if k not in _SKIP})
            cube.attributes = attrs
            if "cell_methods" in v.ncattrs():
                cube.cell_methods = _cell_methods(v.cell_methods)
            system = _system(ds, v.grid_mapping) if "grid_mapping" in v.ncattrs() else None
            dims = [d for d in v.dimensions if not d.startswith("string")] if v.dtype.kind == "S" or v.dtype == "S1" else list(v.dimensions)
            for i, d in enumerate(dims):
                if d in ds.variables:
                    c = _make_coord(ds, d, True, system)
                    if isinstance(c, DimCoord):
                        cube.add_dim_coord(c, i)
                    else:
                        cube.add_aux_coord(c, i)
            if "coordinates" in v.ncattrs():
                for cn in v.coordinates.split():
                    if cn not in ds.variables:
                        continue
                    cdims = [d for d in ds.variables[cn].dimensions if not d.startswith("string")]
                    c = _make_coord(ds, cn, False, system)
                    cube.add_aux_coord(c, [dims.index(d) for d in cdims] or None)
            out.append(cube)
        return out
    finally:
        ds.close()
