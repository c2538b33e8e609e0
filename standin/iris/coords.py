"""Coordinates of the iris stand-in (semantics follow iris 3.0)."""
import copy as _copy
import operator
import warnings
from collections import namedtuple
from collections.abc import Iterable

import cf_units
import numpy as np
import numpy.ma as ma

import iris.exceptions
from iris._common import (
    AncillaryVariableMetadata,
    CellMeasureMetadata,
    CFVariableMixin,
    CoordMetadata,
    DimCoordMetadata,
)


class CoordExtent(
    namedtuple(
        "CoordExtent",
        ["name_or_coord", "minimum", "maximum", "min_inclusive", "max_inclusive"],
    )
):
    def __new__(cls, name_or_coord, minimum, maximum, min_inclusive=True, max_inclusive=True):
        return super().__new__(cls, name_or_coord, minimum, maximum, min_inclusive, max_inclusive)


BOUND_POSITION_START = 0
BOUND_POSITION_MIDDLE = 0.5
BOUND_POSITION_END = 1


class Cell(namedtuple("Cell", ["point", "bound"])):
    # comparisons with numpy scalars are ours, not numpy's
    __array_priority__ = 100
    __array_ufunc__ = None

    def __new__(cls, point=None, bound=None):
        if point is None:
            raise ValueError("Point must be defined.")
        if bound is not None:
            bound = tuple(bound)
        if isinstance(point, np.ndarray):
            if point.shape != (1,) and point.shape != ():
                raise ValueError("Point must be a scalar.")
            point = point.reshape(-1)[0]
        return super().__new__(cls, point, bound)

    def __mod__(self, mod):
        point = self.point
        bound = self.bound
        if bound is not None:
            bound = tuple([val % mod for val in bound])
        return Cell(point % mod, bound)

    def __add__(self, mod):
        point = self.point + mod
        bound = self.bound
        if bound is not None:
            bound = tuple([val + mod for val in bound])
        return Cell(point, bound)

    def __hash__(self):
        bound = self.bound
        if bound is None:
            return hash(self.point)
        rbound = bound[::-1]
        if rbound < bound:
            bound = rbound
        return hash((self.point, bound))

    def __eq__(self, other):
        if isinstance(other, (int, float, np.number)) or hasattr(other, "timetuple"):
            if self.bound is not None:
                return self.contains_point(other)
            return self.point == other
        if isinstance(other, Cell):
            return (self.point == other.point) and (
                self.bound == other.bound
                or (
                    self.bound is not None
                    and other.bound is not None
                    and self.bound == other.bound[::-1]
                )
            )
        if isinstance(other, str) and self.bound is None and isinstance(self.point, str):
            return self.point == other
        return NotImplemented

    def __ne__(self, other):
        result = self.__eq__(other)
        if result is not NotImplemented:
            result = not result
        return result

    def _common(self, other, op):
        if (isinstance(other, list) and len(other) == 1) or (
            isinstance(other, np.ndarray) and other.shape == (1,)
        ):
            other = other[0]
        if isinstance(other, np.ndarray) and other.shape == ():
            other = float(other)
        if not (
            isinstance(other, (int, float, np.number, Cell, str)) or hasattr(other, "timetuple")
        ):
            raise TypeError("Unexpected type of other {}.".format(type(other)))
        if isinstance(other, Cell):
            if self.bound is None:
                if other.bound is None:
                    return op(self.point, other.point)
                if self.point == other.point:
                    return op in (operator.lt, operator.le)
                return op(self.point, other.point)
            if other.bound is None:
                if self.point == other.point:
                    return op in (operator.gt, operator.ge)
                return op(self.point, other.point)
            if self.bound[0] == other.bound[0]:
                if self.bound[1] == other.bound[1]:
                    return op(self.point, other.point)
                return op(self.bound[1], other.bound[1])
            return op(self.bound[0], other.bound[0])
        if self.bound is None:
            me = self.point
        else:
            if hasattr(other, "timetuple"):
                raise TypeError(
                    "Cannot determine whether a point lies within a bounded "
                    "region for datetime-like objects."
                )
            if op in (operator.gt, operator.le):
                me = min(self.bound)
            else:
                me = max(self.bound)
        return op(me, other)

    def __ge__(self, other):
        return self._common(other, operator.ge)

    def __le__(self, other):
        return self._common(other, operator.le)

    def __gt__(self, other):
        return self._common(other, operator.gt)

    def __lt__(self, other):
        return self._common(other, operator.lt)

    def __str__(self):
        if self.bound is not None:
            return repr(self)
        return str(self.point)

    def contains_point(self, point):
        if hasattr(point, "timetuple"):
            raise TypeError(
                "Cannot determine whether a point lies within a bounded region "
                "for datetime-like objects."
            )
        if self.bound is None:
            raise ValueError("Point cannot exist inside an unbounded cell.")
        return point >= np.min(self.bound) and point <= np.max(self.bound)


def _full_keys(keys, ndim):
    if not isinstance(keys, tuple):
        keys = (keys,)
    if any(k is Ellipsis for k in keys):
        i = [k is Ellipsis for k in keys].index(True)
        keys = keys[:i] + (slice(None),) * (ndim - len(keys) + 1) + keys[i + 1 :]
    while len(keys) > ndim and isinstance(keys[-1], slice) and keys[-1] == slice(None):
        keys = keys[:-1]
    if len(keys) > ndim:
        raise IndexError("More slices requested than dimensions. Requested %r, but there were only %s dimensions." % (keys, ndim))
    return keys + (slice(None),) * (ndim - len(keys))


def _ortho_index(array, keys):
    """Orthogonal (per-dimension) indexing, as iris does it."""
    n_fancy = 0
    for k in keys:
        if isinstance(k, (tuple, list, np.ndarray)):
            n_fancy += 1
    if n_fancy <= 1 and not any(
        isinstance(k, (int, np.integer)) for k in keys
    ):
        return array[tuple(np.asarray(k) if isinstance(k, (tuple, list)) else k for k in keys)]
    # fancy first (keeps dims), then the integer/slice keys
    for dim, k in enumerate(keys):
        if isinstance(k, (tuple, list, np.ndarray)):
            sl = [slice(None)] * array.ndim
            sl[dim] = np.asarray(k)
            array = array[tuple(sl)]
    basic = tuple(
        slice(None) if isinstance(k, (tuple, list, np.ndarray)) else k for k in keys
    )
    return array[basic]


class _DimMeta(CFVariableMixin):
    """Common parent of coordinates, ancillary variables, cell measures."""

    def __init__(self, values, standard_name=None, long_name=None, var_name=None, units=None, attributes=None):
        self._standard_name = None
        self.standard_name = standard_name
        self.long_name = long_name
        self._var_name = None
        self.var_name = var_name
        self._units = cf_units.as_unit(units)
        self.attributes = attributes
        self._values = self._sanitise(values, 0)

    @staticmethod
    def _sanitise(values, ndmin):
        if hasattr(values, "compute") and not isinstance(values, np.ndarray):
            values = values.compute()
        if isinstance(values, ma.MaskedArray):
            values = ma.array(values, copy=True)
            if values.ndim < ndmin:
                values = values.reshape((1,) * (ndmin - values.ndim) + values.shape)
            return values
        return np.array(values, ndmin=max(ndmin, 0))

    @property
    def shape(self):
        return self._values.shape

    @property
    def ndim(self):
        return self._values.ndim

    @property
    def dtype(self):
        return self._values.dtype


class AncillaryVariable(_DimMeta):
    _MD = AncillaryVariableMetadata

    def __init__(self, data, standard_name=None, long_name=None, var_name=None, units="no-unit", attributes=None):
        super().__init__(data, standard_name, long_name, var_name, units, attributes)

    @property
    def data(self):
        return self._values

    @data.setter
    def data(self, v):
        self._values = self._sanitise(v, 0)

    def core_data(self):
        return self._values

    def has_lazy_data(self):
        return False

    def copy(self, values=None):
        new = _copy.deepcopy(self)
        if values is not None:
            new._values = self._sanitise(values, 0)
        return new

    def __getitem__(self, keys):
        keys = _full_keys(keys, self.ndim)
        return self.copy(_ortho_index(self._values, keys))

    def __eq__(self, other):
        if not isinstance(other, AncillaryVariable):
            return NotImplemented
        return self.metadata == other.metadata and np.array_equal(self._values, other._values)

    def __ne__(self, other):
        r = self.__eq__(other)
        return r if r is NotImplemented else not r

    def __hash__(self):
        return hash(id(self))


class CellMeasure(AncillaryVariable):
    _MD = CellMeasureMetadata

    def __init__(self, data, standard_name=None, long_name=None, var_name=None, units="1", attributes=None, measure=None):
        super().__init__(data, standard_name, long_name, var_name, units, attributes)
        self.measure = measure or "area"


class Coord(_DimMeta):
    _MD = CoordMetadata

    def __init__(
        self,
        points,
        standard_name=None,
        long_name=None,
        var_name=None,
        units=None,
        bounds=None,
        attributes=None,
        coord_system=None,
        climatological=False,
    ):
        super().__init__(points, standard_name, long_name, var_name, units, attributes)
        self._values = self._san_points(self._values)
        self.coord_system = coord_system
        self._bounds = None
        self.bounds = bounds
        self.climatological = climatological

    # --- values
    def _san_points(self, points):
        points = self._sanitise(points, 1)
        return points

    def _check_new_points(self, points):
        pass

    def _check_new_bounds(self, bounds):
        pass

    @property
    def points(self):
        return self._values.view()

    @points.setter
    def points(self, points):
        points = self._san_points(points)
        if points.shape != self._values.shape:
            # replacing with a scalar is allowed for length one coordinates
            if not (points.size == self._values.size == 1):
                raise ValueError(
                    "Require data with shape %r, got %r." % (self.shape, points.shape)
                )
            points = points.reshape(self._values.shape)
        self._check_new_points(points)
        self._values = points

    @property
    def bounds(self):
        return None if self._bounds is None else self._bounds.view()

    @bounds.setter
    def bounds(self, bounds):
        if bounds is None:
            self._bounds = None
            return
        if hasattr(bounds, "compute") and not isinstance(bounds, np.ndarray):
            bounds = bounds.compute()
        bounds = np.array(bounds, ndmin=2) if not isinstance(bounds, ma.MaskedArray) else ma.array(bounds, ndmin=2, copy=True)
        if bounds.shape[:-1] != self.shape:
            if self.shape == (1,) and bounds.ndim == 2 and bounds.shape[0] == 1:
                pass
            else:
                raise ValueError(
                    "Bounds shape must be compatible with points shape."
                )
        self._check_new_bounds(bounds)
        self._bounds = bounds

    @property
    def climatological(self):
        return self._climatological if self._bounds is not None else False

    @climatological.setter
    def climatological(self, value):
        self._climatological = bool(value)

    def core_points(self):
        return self.points

    def core_bounds(self):
        return self.bounds

    lazy_points = core_points
    lazy_bounds = core_bounds

    def has_lazy_points(self):
        return False

    def has_lazy_bounds(self):
        return False

    def has_bounds(self):
        return self._bounds is not None

    @property
    def nbounds(self):
        return 0 if self._bounds is None else self._bounds.shape[-1]

    @property
    def bounds_dtype(self):
        return None if self._bounds is None else self._bounds.dtype

    # --- copy / compare
    def copy(self, points=None, bounds=None):
        if points is None and bounds is not None:
            raise ValueError(
                "If bounds are specified, points must also be specified"
            )
        new = _copy.copy(self)
        new._attributes = _copy.deepcopy(self._attributes)
        new.coord_system = _copy.deepcopy(self.coord_system)
        if points is None:
            new._values = self._values.copy()
            new._bounds = None if self._bounds is None else self._bounds.copy()
        else:
            new._bounds = None
            new._values = None
            points = new._san_points(points)
            new._values = points
            try:
                new._check_new_points(points)
            except ValueError:
                raise
            new.bounds = bounds
        return new

    def __deepcopy__(self, memo):
        return self.copy()

    @classmethod
    def from_coord(cls, coord):
        kwargs = {
            "points": coord.points,
            "bounds": coord.bounds,
            "standard_name": coord.standard_name,
            "long_name": coord.long_name,
            "var_name": coord.var_name,
            "units": coord.units,
            "attributes": coord.attributes,
            "coord_system": _copy.deepcopy(coord.coord_system),
            "climatological": coord.climatological,
        }
        if issubclass(cls, DimCoord):
            kwargs["circular"] = getattr(coord, "circular", False)
        return cls(**kwargs)

    def __eq__(self, other):
        if not isinstance(other, Coord):
            return NotImplemented
        if self is other:
            return True
        if not (self.metadata == other.metadata):
            return False
        if not _arr_eq(self._values, other._values):
            return False
        if (self._bounds is None) != (other._bounds is None):
            return False
        if self._bounds is not None and not _arr_eq(self._bounds, other._bounds):
            return False
        return True

    def __ne__(self, other):
        r = self.__eq__(other)
        return r if r is NotImplemented else not r

    def __hash__(self):
        return hash(id(self))

    # --- cells and indexing
    def cell(self, index):
        keys = _full_keys(index, self.ndim)
        point = np.array(self._values[keys if len(keys) > 1 else keys[0]], ndmin=1).flatten()
        if point.shape != (1,):
            raise IndexError(
                "The index %s did not uniquely identify a single point to create "
                "a cell with." % (index,)
            )
        bound = None
        if self._bounds is not None:
            bound = np.array(self._bounds[keys if len(keys) > 1 else keys[0]]).flatten()
        if self.units.is_time_reference():
            pt = self.units.num2date(point, only_use_cftime_datetimes=False)[0]
            bd = None
            if bound is not None:
                bd = tuple(self.units.num2date(bound, only_use_cftime_datetimes=False))
            return Cell(pt, bd)
        return Cell(point[0], None if bound is None else tuple(bound))

    def cells(self):
        if self.ndim != 1:
            raise iris.exceptions.CoordinateMultiDimError(self)
        n = self.shape[0]
        if self.units.is_time_reference() and n:
            pts = self.units.num2date(np.asarray(self._values), only_use_cftime_datetimes=False)
            bds = [None] * n
            if self._bounds is not None:
                bds = [
                    tuple(b)
                    for b in self.units.num2date(self._bounds, only_use_cftime_datetimes=False)
                ]
            return iter([Cell(p, b) for p, b in zip(pts, bds)])
        return iter([self.cell(i) for i in range(n)])

    def __getitem__(self, keys):
        keys = _full_keys(keys, self.ndim)
        points = _ortho_index(self._values, keys)
        if not isinstance(points, np.ndarray):
            points = np.array(points)
        if points.shape and min(points.shape) == 0:
            raise IndexError("Cannot index with zero length slice.")
        bounds = None
        if self._bounds is not None:
            bounds = _ortho_index(self._bounds, tuple(keys) + (slice(None),))
            if not isinstance(bounds, np.ndarray):
                bounds = np.array(bounds)
            if bounds.ndim == 1:
                bounds = bounds.reshape(1, -1)
        return self.copy(points=points, bounds=bounds)

    # --- arithmetic
    def _binop(self, other, fn):
        if isinstance(other, _DimMeta):
            raise iris.exceptions.NotYetImplementedError(
                "coord %s coord" % fn.__name__
            )
        if isinstance(other, (int, float, np.number)):
            new = self.copy()
            new._values = np.asarray(fn(self._values, other))
            if self._bounds is not None:
                new._bounds = fn(self._bounds, other)
            return new
        return NotImplemented

    def __add__(self, other):
        return self._binop(other, operator.add)

    def __sub__(self, other):
        return self._binop(other, operator.sub)

    def __mul__(self, other):
        return self._binop(other, operator.mul)

    def __truediv__(self, other):
        return self._binop(other, operator.truediv)

    def __neg__(self):
        new = self.copy()
        new._values = -self._values
        if self._bounds is not None:
            new._bounds = -self._bounds
        return new

    def convert_units(self, unit):
        unit = cf_units.as_unit(unit)
        if self.units.is_unknown():
            raise iris.exceptions.UnitConversionError(
                "Cannot convert from unknown units. "
                'The "units" attribute may be set directly.'
            )
        if unit == self.units and unit.calendar == self.units.calendar:
            self.units = unit
            return
        new_points = self.units.convert(self._values, unit)
        new_bounds = None
        if self._bounds is not None:
            new_bounds = self.units.convert(self._bounds, unit)
        self._values = self._san_points(new_points)
        self._bounds = None if new_bounds is None else np.array(new_bounds)
        for key in "actual_range", "valid_max", "valid_min", "valid_range":
            if key in self.attributes:
                self.attributes[key] = self.units.convert(self.attributes[key], unit)
        self.units = unit

    # --- properties of the values
    def is_monotonic(self):
        if self.ndim != 1:
            raise iris.exceptions.CoordinateMultiDimError(self)
        if self.shape == (1,):
            return True
        if not _monotonic(self._values):
            return False
        if self._bounds is not None:
            for b in range(self.nbounds):
                if not _monotonic(self._bounds[..., b]):
                    return False
        return True

    def is_contiguous(self, rtol=1e-05, atol=1e-08):
        if self._bounds is None:
            return False
        if self.ndim == 1 and self.nbounds == 2:
            return bool(
                np.allclose(self._bounds[1:, 0], self._bounds[:-1, 1], rtol=rtol, atol=atol)
            )
        return False

    def contiguous_bounds(self):
        if self._bounds is None:
            if self.ndim == 1:
                warnings.warn("Coordinate {!r} is not bounded, guessing contiguous bounds.".format(self.name()))
                bounds = self._guess_bounds()
            else:
                raise ValueError("Cannot guess bounds")
        else:
            bounds = self._bounds
        res = np.resize(bounds[..., 0], bounds.shape[0] + 1)
        res[-1] = bounds[-1, 1]
        return res

    def is_compatible(self, other, ignore=None):
        ok = self.name() == other.name() and self.units == other.units
        if ok:
            common = set(self.attributes).intersection(other.attributes)
            if ignore is not None:
                if isinstance(ignore, str):
                    ignore = (ignore,)
                common = common.difference(ignore)
            for key in common:
                if np.any(self.attributes[key] != other.attributes[key]):
                    return False
        return ok

    def collapsed(self, dims_to_collapse=None):
        if isinstance(dims_to_collapse, (int, np.integer)):
            dims_to_collapse = [dims_to_collapse]
        if np.issubdtype(self.dtype, np.str_) or self.dtype.kind in "SO":
            def serialize(x):
                return "|".join([str(i) for i in x.flatten()])

            bounds = None
            if self.has_bounds():
                shape = self._bounds.shape[1:]
                bounds = []
                for index in np.ndindex(shape):
                    bounds.append(serialize(self._bounds[(slice(None),) + index]))
                bounds = np.array(bounds).reshape((1,) + shape)
            if self.ndim == 1 or dims_to_collapse is None:
                points = np.array(serialize(self._values)).reshape((1,))
                return self.copy(points=points, bounds=bounds)
            raise NotImplementedError
        if dims_to_collapse is None:
            dims_to_collapse = list(range(self.ndim))
        if self.ndim > 1:
            warnings.warn(
                "Collapsing a multi-dimensional coordinate. "
                "Metadata may not be fully descriptive for {!r}.".format(self.name())
            )
        elif not self.is_contiguous():
            warnings.warn(
                "Collapsing a non-contiguous coordinate. "
                "Metadata may not be fully descriptive for {!r}.".format(self.name())
            )
        dims = tuple(d % self.ndim for d in dims_to_collapse)
        if self.has_bounds():
            item = self._bounds
            dims = dims + (item.ndim - 1,)
        else:
            item = self._values
        bounds = np.stack([item.min(axis=dims), item.max(axis=dims)], axis=-1)
        points = np.array(bounds.sum(axis=-1) * 0.5, dtype=self.dtype)
        if bounds.ndim == 1:
            bounds = bounds.reshape(1, -1)
            points = points.reshape(1)
        return self.copy(points=points, bounds=bounds)

    def _guess_bounds(self, bound_position=0.5):
        if self.ndim != 1:
            raise iris.exceptions.CoordinateMultiDimError(self)
        if not hasattr(self, "circular") and self.shape[0] < 2:
            raise ValueError("Cannot guess bounds for a coordinate of length 1.")
        if self.has_bounds():
            raise ValueError("Coord already has bounds. Remove the bounds before guessing new ones.")
        pts = self._values
        if getattr(self, "circular", False):
            pts = np.empty(self._values.size + 2)
            pts[1:-1] = self._values
            direction = 1 if self._values[-1] > self._values[0] else -1
            pts[0] = self._values[-1] - (self.units.modulus * direction)
            pts[-1] = self._values[0] + (self.units.modulus * direction)
            diffs = np.diff(pts)
        else:
            if self.shape[0] < 2:
                raise ValueError("Cannot guess bounds for a coordinate of length 1.")
            diffs = np.diff(self._values)
            diffs = np.insert(diffs, 0, diffs[0])
            diffs = np.append(diffs, diffs[-1])
        min_bounds = self._values - diffs[:-1] * bound_position
        max_bounds = self._values + diffs[1:] * (1 - bound_position)
        bounds = np.array([min_bounds, max_bounds]).transpose()
        if self.name() in ("latitude", "grid_latitude") and self.units == "degree":
            points = self._values
            if (points >= -90).all() and (points <= 90).all():
                np.clip(bounds, -90, 90, out=bounds)
        return bounds

    def guess_bounds(self, bound_position=0.5):
        self.bounds = self._guess_bounds(bound_position)

    def nearest_neighbour_index(self, point):
        points = self._values
        bounds = self._bounds
        if self.ndim != 1:
            raise ValueError("Nearest-neighbour is currently limited to one-dimensional coordinates.")
        do_circular = getattr(self, "circular", False)
        if do_circular:
            wrap = self.units.modulus
            index_offset = 0
            new_pts = [
                [points[0] - wrap * 0 - (points[0] - (points[-1] - wrap))],
            ]
            points = np.concatenate([[points[-1] - wrap], points, [points[0] + wrap]])
            min_pt, max_pt = points[0], points[-1]
            while point < min_pt:
                point = point + wrap
            while point > max_pt:
                point = point - wrap
            bounds = None
        if bounds is not None:
            inside = [i for i, b in enumerate(bounds) if min(b) <= point <= max(b)]
            if inside:
                points = bounds.mean(axis=1) if False else points
                d = [abs(points[i] - point) for i in inside]
                # iris picks the nearest among the bounded cells that contain it
                return int(inside[int(np.argmin(d))])
        diff = np.array(points, dtype=np.float64 if np.asarray(points).dtype.kind in "fiu" else None) - point
        diff = np.abs(diff)
        index = int(diff.argmin())
        if do_circular:
            if index == 0:
                index = len(points) - 2
            elif index == len(points) - 1:
                index = 1
            index -= 1
        return index

    def intersect(self, other, return_indices=False):
        self_cells = list(self.cells())
        other_cells = list(other.cells())
        inds = [i for i, c in enumerate(self_cells) if c in other_cells]
        if return_indices:
            return np.array(inds)
        if not inds:
            raise ValueError("No intersection between %s coords possible." % self.name())
        return self[np.array(inds)]

    def __str__(self):
        return self._repr()

    def __repr__(self):
        return self._repr()

    def _repr(self):
        pts = self._values
        if self.units.is_time_reference() and self.units.calendar:
            try:
                pts = self.units.num2date(pts)
                fmt = lambda a: "[" + ", ".join(str(x) for x in np.asarray(a).flatten()) + "]"
                pstr = fmt(pts)
                bstr = "" if self._bounds is None else ", bounds=" + "[" + ", ".join(fmt(b) for b in self.units.num2date(self._bounds)) + "]"
            except Exception:
                pstr, bstr = repr(self._values), ""
        else:
            pstr = np.array2string(np.asarray(pts), separator=", ")
            bstr = "" if self._bounds is None else ", bounds=" + np.array2string(np.asarray(self._bounds), separator=", ")
        s = "%s(%s%s, standard_name=%r" % (type(self).__name__, pstr, bstr, self.standard_name)
        s += ", units=%r" % (self.units,)
        if self.long_name is not None:
            s += ", long_name=%r" % self.long_name
        if self.var_name is not None:
            s += ", var_name=%r" % self.var_name
        if self.attributes:
            s += ", attributes=%r" % (dict(self.attributes),)
        if self.coord_system is not None:
            s += ", coord_system=%r" % (self.coord_system,)
        return s + ")"

    def xml_str(self):
        return "%s|%r|%s|%s" % (
            self._repr(),
            None if self.attributes is None else sorted((k, str(v)) for k, v in self.attributes.items()),
            self.dtype,
            self.bounds_dtype,
        )


def _arr_eq(a, b):
    if a.shape != b.shape:
        return False
    if ma.isMaskedArray(a) or ma.isMaskedArray(b):
        ma_, mb_ = ma.getmaskarray(a), ma.getmaskarray(b)
        return bool(np.array_equal(ma_, mb_)) and bool(np.all(np.asarray(a)[~ma_] == np.asarray(b)[~mb_]))
    if a.dtype.kind == "f" and b.dtype.kind == "f":
        return bool(((a == b) | ((a != a) & (b != b))).all())
    r = a == b
    return bool(np.all(r))


def _monotonic(array, strict=True):
    array = np.asarray(array)
    if array.size <= 1:
        return True
    if array.dtype.kind in "SUO":
        return False
    d = np.diff(array)
    return bool((d > 0).all() or (d < 0).all())


class DimCoord(Coord):
    _MD = DimCoordMetadata

    def __init__(
        self,
        points,
        standard_name=None,
        long_name=None,
        var_name=None,
        units=None,
        bounds=None,
        attributes=None,
        coord_system=None,
        circular=False,
        climatological=False,
    ):
        self._climatological = False
        super().__init__(
            points, standard_name, long_name, var_name, units, bounds, attributes, coord_system, climatological
        )
        self._check_new_points(self._values)
        self._values.flags.writeable = False
        self.circular = bool(circular)

    @classmethod
    def from_regular(cls, zeroth, step, count, standard_name=None, long_name=None, var_name=None, units=None, attributes=None, coord_system=None, circular=False, climatological=False, with_bounds=False):
        points = (zeroth + step) + step * np.arange(count, dtype=np.float32)
        bounds = None
        if with_bounds:
            delta = 0.5 * step
            bounds = np.concatenate([[points - delta], [points + delta]]).T
        return cls(points, standard_name=standard_name, long_name=long_name, var_name=var_name, units=units, attributes=attributes, coord_system=coord_system, circular=circular, bounds=bounds)

    def _san_points(self, points):
        points = self._sanitise(points, 1)
        return points

    def _check_new_points(self, points):
        if points.ndim not in (0, 1):
            raise ValueError(
                "The DimCoord points array must be a scalar or 1-d array: %r dims" % points.ndim
            )
        if not (np.issubdtype(points.dtype, np.number) or points.dtype.kind in "b"):
            raise ValueError(
                "The %r DimCoord points array must be numeric."
                % self.name()
            )
        if ma.is_masked(points):
            raise TypeError("A %r DimCoord points array must not be masked." % self.name())
        if points.size > 1:
            d = np.diff(np.asarray(points))
            if not ((d > 0).all() or (d < 0).all()):
                raise ValueError(
                    "The %r DimCoord points array must be strictly monotonic." % self.name()
                )

    def _check_new_bounds(self, bounds):
        pts = self._values
        if bounds.shape[:-1] != pts.shape:
            raise ValueError(
                "The shape of the %r DimCoord bounds array should be points.shape + (n_bounds,)" % self.name()
            )
        n_points = pts.shape[0]
        if not np.issubdtype(bounds.dtype, np.number):
            raise ValueError("The %r DimCoord bounds array must be numeric." % self.name())
        if n_points > 1:
            directions = set()
            for b in range(bounds.shape[-1]):
                d = np.diff(bounds[:, b])
                if not ((d > 0).all() or (d < 0).all()):
                    raise ValueError(
                        "The %r DimCoord bounds array must be strictly monotonic." % self.name()
                    )
                directions.add(d[0] > 0)
            if len(directions) != 1:
                raise ValueError(
                    "The direction of monotonicity for the %r DimCoord must be consistent across all bounds." % self.name()
                )
            if bounds.shape[-1] == 2:
                # iris swaps a bounds array stored against the direction
                pass

    @property
    def points(self):
        return self._values.view() if not self._values.flags.writeable else self._ro(self._values)

    @staticmethod
    def _ro(a):
        v = a.view()
        v.flags.writeable = False
        return v

    @points.setter
    def points(self, points):
        points = self._san_points(points)
        if points.shape != self._values.shape:
            raise ValueError(
                "Require data with shape %r, got %r." % (self.shape, points.shape)
            )
        self._check_new_points(points)
        points.flags.writeable = False
        self._values = points

    @property
    def bounds(self):
        return None if self._bounds is None else self._ro(self._bounds)

    @bounds.setter
    def bounds(self, bounds):
        Coord.bounds.fset(self, bounds)

    def copy(self, points=None, bounds=None):
        new = Coord.copy(self, points, bounds)
        new._values.flags.writeable = False
        return new

    def collapsed(self, dims_to_collapse=None):
        coord = Coord.collapsed(self, dims_to_collapse=dims_to_collapse)
        if self.circular and self.units.modulus is not None:
            bnds = coord.bounds.copy()
            bnds[0, 1] = coord.bounds[0, 0] + self.units.modulus
            coord.bounds = bnds
            coord.points = np.array(np.sum(coord.bounds) * 0.5, dtype=self.points.dtype)
        coord.circular = False
        return coord

    def __getitem__(self, key):
        coord = Coord.__getitem__(self, key)
        coord.circular = self.circular and coord.shape == self.shape
        return coord


class AuxCoord(Coord):
    pass


class CellMethod:
    def __init__(self, method, coords=None, intervals=None, comments=None):
        if not isinstance(method, str):
            raise TypeError("'method' must be a string - got a '%s'" % type(method))
        self.method = method
        _coords = []
        if coords is None:
            pass
        elif isinstance(coords, Coord):
            _coords.append(coords.name())
        elif isinstance(coords, str):
            _coords.append(coords)
        else:
            for c in coords:
                _coords.append(c.name() if isinstance(c, Coord) else c)
        self.coord_names = tuple(_coords)

        def tup(v):
            if v is None:
                return ()
            if isinstance(v, str):
                return (v,)
            return tuple(v)

        self.intervals = tup(intervals)
        self.comments = tup(comments)

    def _id(self):
        return (self.method, self.coord_names, self.intervals, self.comments)

    def __eq__(self, other):
        if not isinstance(other, CellMethod):
            return NotImplemented
        return self._id() == other._id()

    def __ne__(self, other):
        r = self.__eq__(other)
        return r if r is NotImplemented else not r

    def __lt__(self, other):
        return self._id() < other._id()

    def __gt__(self, other):
        return self._id() > other._id()

    def __hash__(self):
        return hash(str(self))

    def __str__(self):
        import itertools

        parts = []
        for name, interval, comment in itertools.zip_longest(
            self.coord_names, self.intervals, self.comments, fillvalue=""
        ):
            info = ", ".join(x for x in (interval, comment) if x)
            parts.append("%s (%s)" % (name, info) if info else "%s" % name)
        return "%s: " % self.method + ", ".join(parts)

    def _cf(self):
        """The CF 'cell_methods' attribute text of this cell method."""
        coord_string = " ".join([coord + ":" for coord in self.coord_names])
        other = ""
        if self.intervals or self.comments:
            bits = ["interval: %s" % i for i in self.intervals]
            bits += ["comment: %s" % c for c in self.comments]
            other = " (" + " ".join(bits) + ")"
        return "%s %s%s" % (coord_string, self.method, other)

    def __repr__(self):
        return "CellMethod(method=%r, coord_names=%r, intervals=%r, comments=%r)" % self._id()
