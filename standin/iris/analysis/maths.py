"""Cube arithmetic of the iris stand-in."""
import operator

import numpy as np
import numpy.ma as ma

import iris.exceptions
from iris._common import _attr_equal


def _clear(cube):
    cube.standard_name = None
    cube.long_name = None
    cube.var_name = None
    cube.cell_methods = ()
    cube.attributes.pop("STASH", None)


def binary(cube, other, op, kind, reverse=False, in_place=False):
    from iris.coords import Coord
    from iris.cube import Cube

    if not isinstance(other, (Cube, Coord, np.ndarray, int, float, np.number)):
        return NotImplemented
    units = cube.units
    out_coords = None
    if isinstance(other, Cube):
        if kind in ("add", "sub"):
            if cube.units != other.units:
                raise iris.exceptions.NotYetImplementedError(
                    "Differing units (%s & %s) %s not implemented" % (cube.units, other.units, kind)
                )
        elif kind == "mul":
            units = cube.units * other.units
        else:
            units = cube.units / other.units
        a, b = cube.data, other.data
        if a.shape != b.shape:
            b = _broadcast_other(cube, other)
    elif isinstance(other, Coord):
        dims = cube.coord_dims(other)
        pts = other.points
        if dims:
            shp = [1] * cube.ndim
            for i, d in enumerate(dims):
                shp[d] = pts.shape[i]
            pts = pts.reshape(shp)
        a, b = cube.data, pts
        if kind == "mul":
            units = cube.units * other.units
        elif kind == "div":
            units = cube.units / other.units
    else:
        a, b = cube.data, other
        if kind == "div" and reverse:
            units = cube.units ** -1
    data = op(b, a) if reverse else op(a, b)
    data = np.asanyarray(data)
    if data.dtype == np.float64 and cube.dtype == np.float32 and isinstance(other, (int, float)):
        data = data.astype(np.float32)
    if in_place:
        new = cube
        new._data = data
    else:
        if data.shape != cube.shape:
            if isinstance(other, Cube) and data.shape == other.shape:
                new = other.copy(data)
            else:
                raise ValueError("Operands shape mismatch in cube arithmetic")
        else:
            new = cube.copy(data)
        if isinstance(other, Cube):
            _combine(new, cube, other)
    _clear(new)
    new.units = units
    return new


def _combine(new, cube, other):
    """Lenient metadata combination of cube arithmetic: attributes that
    conflict are dropped, those on one side only are kept; scalar coordinates
    with different values are dropped, those on one side only are kept."""
    attrs = {}
    for k in list(cube.attributes) + [k for k in other.attributes if k not in cube.attributes]:
        if k in cube.attributes and k in other.attributes:
            if not _attr_equal(cube.attributes[k], other.attributes[k]):
                continue
        attrs[k] = cube.attributes.get(k, other.attributes.get(k))
    new.attributes = attrs
    for c in cube.dim_coords:
        for o in other.dim_coords:
            if o.name() == c.name() and o.shape == c.shape and not np.array_equal(o.points, c.points):
                raise ValueError(
                    "Coordinate %r has different points for the LHS cube %r and RHS cube %r."
                    % (c.name(), cube.name(), other.name())
                )
    src = other if new.shape == cube.shape else cube
    for c in list(new.aux_coords):
        if new.coord_dims(c):
            continue
        o = src.coords(c.name())
        if o and not src.coord_dims(o[0]) and (
            o[0].shape != c.shape
            or not np.array_equal(o[0].points, c.points)
            or o[0].has_bounds() != c.has_bounds()
            or (c.has_bounds() and not np.array_equal(o[0].bounds, c.bounds))
        ):
            new.remove_coord(c)
    for o in src.aux_coords:
        if not src.coord_dims(o) and not cube.coords(o.name()) :
            new.add_aux_coord(o.copy())
        elif not src.coord_dims(o) and src is cube and not new.coords(o.name()) and not other.coords(o.name()):
            new.add_aux_coord(o.copy())


def _broadcast_other(cube, other):
    # match dimensions by coordinate name
    dim_map = []
    for d in range(other.ndim):
        dc = other.coords(dimensions=d, dim_coords=True)
        if dc and cube.coords(dc[0].name(), dim_coords=True):
            dim_map.append(cube.coord_dims(dc[0].name())[0])
        else:
            return other.data
    from iris.util import broadcast_to_shape

    return broadcast_to_shape(other.data, cube.shape, dim_map)


def _u(fn, unit=None):
    def f(cube, in_place=False):
        new = cube if in_place else cube.copy()
        new._data = fn(cube.data)
        _clear(new)
        return new

    return f


abs = _u(np.abs)
exp = _u(np.exp)
log = _u(np.log)


def exponentiate(cube, exponent, in_place=False):
    return cube ** exponent


def multiply(cube, other, dim=None, in_place=False):
    return binary(cube, other, operator.mul, "mul", in_place=in_place)


def subtract(cube, other, dim=None, in_place=False):
    return binary(cube, other, operator.sub, "sub", in_place=in_place)


def add(cube, other, dim=None, in_place=False):
    return binary(cube, other, operator.add, "add", in_place=in_place)


def divide(cube, other, dim=None, in_place=False):
    return binary(cube, other, operator.truediv, "div", in_place=in_place)
