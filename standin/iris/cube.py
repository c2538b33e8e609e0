"""Cube and CubeList of the iris stand-in (semantics follow iris 3.0)."""
import copy
import hashlib
import operator
from collections import OrderedDict
from collections.abc import Iterable

import cf_units
import numpy as np
import numpy.ma as ma

import iris.exceptions
from iris import _constraints
from iris._common import CFVariableMixin, CubeMetadata
from iris.coords import AncillaryVariable, AuxCoord, CellMeasure, CellMethod, Coord, DimCoord, _full_keys, _ortho_index
from iris.util import guess_coord_axis


def _is_lazy(data):
    return not isinstance(data, np.ndarray) and hasattr(data, "compute")


class Cube(CFVariableMixin):
    _MD = CubeMetadata
    __array_priority__ = 100

    def __init__(
        self,
        data,
        standard_name=None,
        long_name=None,
        var_name=None,
        units=None,
        attributes=None,
        cell_methods=None,
        dim_coords_and_dims=None,
        aux_coords_and_dims=None,
        aux_factories=None,
        cell_measures_and_dims=None,
        ancillary_variables_and_dims=None,
    ):
        if isinstance(data, str):
            raise TypeError("Invalid data type: {!r}.".format(data))
        if _is_lazy(data):
            self._data = data
        elif isinstance(data, np.ndarray):
            self._data = data
        else:
            self._data = np.asarray(data)
        self._standard_name = None
        self.standard_name = standard_name
        self.long_name = long_name
        self._var_name = None
        self.var_name = var_name
        self._units = cf_units.as_unit(units)
        self.attributes = attributes
        self._cell_methods = tuple(cell_methods) if cell_methods else ()
        self._dim_coords_and_dims = []
        self._aux_coords_and_dims = []
        self._aux_factories = []
        self._cell_measures_and_dims = []
        self._ancillary_variables_and_dims = []
        identities = set()
        if dim_coords_and_dims:
            dims = set()
            for coord, dim in dim_coords_and_dims:
                ident = coord.standard_name, coord.long_name
                if ident not in identities and dim not in dims:
                    self._add_unique_dim_coord(coord, dim)
                else:
                    self.add_dim_coord(coord, dim)
                identities.add(ident)
                dims.add(dim)
        if aux_coords_and_dims:
            for coord, dims in aux_coords_and_dims:
                ident = coord.standard_name, coord.long_name
                if ident not in identities:
                    self._add_unique_aux_coord(coord, dims)
                else:
                    self.add_aux_coord(coord, dims)
                identities.add(ident)
        if cell_measures_and_dims:
            for cm, dims in cell_measures_and_dims:
                self.add_cell_measure(cm, dims)
        if ancillary_variables_and_dims:
            for av, dims in ancillary_variables_and_dims:
                self.add_ancillary_variable(av, dims)

    # ------------------------------------------------------------ metadata
    @property
    def cell_methods(self):
        return self._cell_methods

    @cell_methods.setter
    def cell_methods(self, cell_methods):
        self._cell_methods = tuple(cell_methods) if cell_methods else ()

    def add_cell_method(self, cell_method):
        self._cell_methods += (cell_method,)

    # ---------------------------------------------------------------- data
    @property
    def data(self):
        if _is_lazy(self._data):
            d = self._data.compute()
            if not isinstance(d, np.ndarray):
                d = np.asarray(d)
            self._data = d
        return self._data

    @data.setter
    def data(self, data):
        if not _is_lazy(data):
            if not hasattr(data, "shape"):
                data = np.asanyarray(data)
            elif not isinstance(data, np.ndarray):
                data = np.asarray(data)
        if isinstance(data, ma.core.MaskedConstant):
            data = ma.array(data.data, mask=data.mask, dtype=self.dtype)
        if self.shape != data.shape:
            # the one permitted reshape: () -> (1,)
            if self.shape or data.shape != (1,):
                raise ValueError("Require data with shape %r, got %r." % (self.shape, data.shape))
        self._data = data

    def has_lazy_data(self):
        return _is_lazy(self._data)

    def core_data(self):
        return self._data

    def lazy_data(self):
        if _is_lazy(self._data):
            return self._data
        import dask.array as da

        return da.from_array(self._data, chunks=-1, asarray=not ma.isMaskedArray(self._data))

    @property
    def shape(self):
        return self._data.shape

    @property
    def ndim(self):
        return self._data.ndim

    @property
    def dtype(self):
        return self._data.dtype

    def is_compatible(self, other, ignore=None):
        ok = self.name() == other.name() and self.units == other.units and self.cell_methods == other.cell_methods
        if ok:
            for key in set(self.attributes).intersection(other.attributes):
                if np.any(self.attributes[key] != other.attributes[key]):
                    return False
        return ok

    def convert_units(self, unit):
        unit = cf_units.as_unit(unit)
        if self.units.is_unknown():
            raise iris.exceptions.UnitConversionError(
                "Cannot convert from unknown units. "
                'The "cube.units" attribute may be set directly.'
            )
        if self.has_lazy_data():
            old, dt = self.units, self.dtype
            if old != unit:
                self._data = self._data.map_blocks(lambda v: old.convert(v, unit))
        elif self.units != unit:
            data = self._data
            if ma.isMaskedArray(data):
                new = self.units.convert(data, unit)
                if not ma.isMaskedArray(new):
                    new = ma.array(new, mask=ma.getmaskarray(data))
            else:
                new = self.units.convert(data, unit)
            self._data = np.asanyarray(new)
        for key in "actual_range", "valid_max", "valid_min", "valid_range":
            if key in self.attributes:
                self.attributes[key] = self.units.convert(self.attributes[key], unit)
        self.units = unit

    # -------------------------------------------------------------- coords
    def _norm_dims(self, coord, data_dims):
        if data_dims is None:
            data_dims = ()
        elif isinstance(data_dims, Iterable):
            data_dims = tuple(int(d) for d in data_dims)
        else:
            data_dims = (int(data_dims),)
        if data_dims:
            if len(data_dims) != coord.ndim:
                raise ValueError(
                    "Invalid data dimensions: {} given, {} expected for {!r}.".format(
                        len(data_dims), coord.ndim, coord.name()
                    )
                )
            for i, dim in enumerate(data_dims):
                if coord.shape[i] != self.shape[dim]:
                    raise ValueError(
                        "Unequal lengths. Cube dimension {} => {}; coord {!r} dimension {} => {}.".format(
                            dim, self.shape[dim], coord.name(), i, coord.shape[i]
                        )
                    )
        elif coord.shape != (1,):
            raise ValueError("Missing data dimensions for multi-valued {} {!r}".format("coord", coord.name()))
        return data_dims

    def add_aux_coord(self, coord, data_dims=None):
        if self.coords(coord):
            raise iris.exceptions.CannotAddError("Duplicate coordinates are not permitted.")
        self._add_unique_aux_coord(coord, data_dims)

    def _add_unique_aux_coord(self, coord, data_dims):
        data_dims = self._norm_dims(coord, data_dims)
        self._aux_coords_and_dims.append((coord, data_dims))

    def add_dim_coord(self, dim_coord, data_dim):
        if self.coords(dim_coord):
            raise iris.exceptions.CannotAddError(
                "The coordinate already exists on the cube. Duplicate coordinates are not permitted."
            )
        self._add_unique_dim_coord(dim_coord, data_dim)

    def _add_unique_dim_coord(self, dim_coord, data_dim):
        if not isinstance(dim_coord, DimCoord):
            raise ValueError("The dim_coord must be a DimCoord instance.")
        if isinstance(data_dim, Iterable):
            data_dim = list(data_dim)
            if len(data_dim) != 1:
                raise ValueError("The supplied data dimension must be a single number.")
            data_dim = int(data_dim[0])
        else:
            data_dim = int(data_dim)
        if data_dim < 0:
            raise ValueError("The cube does not have the specified dimension (%d)" % data_dim)
        if any(d == data_dim for _, d in self._dim_coords_and_dims):
            raise ValueError("A dim_coord is already associated with dimension %d." % data_dim)
        if not data_dim < self.ndim:
            raise ValueError("The cube does not have the specified dimension (%d)" % data_dim)
        if dim_coord.shape[0] != self.shape[data_dim]:
            raise ValueError(
                "Unequal lengths. Cube dimension {} => {}; coord {!r} => {}.".format(
                    data_dim, self.shape[data_dim], dim_coord.name(), len(dim_coord.points)
                )
            )
        self._dim_coords_and_dims.append((dim_coord, data_dim))

    def add_ancillary_variable(self, av, data_dims=None):
        if data_dims is None:
            data_dims = ()
        elif not isinstance(data_dims, Iterable):
            data_dims = (data_dims,)
        self._ancillary_variables_and_dims.append((av, tuple(data_dims)))

    def add_cell_measure(self, cm, data_dims=None):
        if data_dims is None:
            data_dims = ()
        elif not isinstance(data_dims, Iterable):
            data_dims = (data_dims,)
        self._cell_measures_and_dims.append((cm, tuple(data_dims)))

    def _match(self, items, name_or_item):
        out = []
        for it, dims in items:
            if name_or_item is None:
                out.append(it)
            elif isinstance(name_or_item, str):
                if it.name() == name_or_item:
                    out.append(it)
            elif it is name_or_item or it.metadata == name_or_item.metadata:
                out.append(it)
        return out

    def ancillary_variables(self, name=None):
        return self._match(self._ancillary_variables_and_dims, name)

    def ancillary_variable(self, name=None):
        r = self.ancillary_variables(name)
        if len(r) != 1:
            raise iris.exceptions.AncillaryVariableNotFoundError(
                "Expected to find exactly 1 {!s} ancillary_variable, but found {}.".format(name, len(r) or "none")
            )
        return r[0]

    def ancillary_variable_dims(self, av):
        av = self.ancillary_variable(av)
        return [d for a, d in self._ancillary_variables_and_dims if a is av][0]

    def remove_ancillary_variable(self, av):
        av = self.ancillary_variable(av)
        self._ancillary_variables_and_dims = [x for x in self._ancillary_variables_and_dims if x[0] is not av]

    def cell_measures(self, name=None):
        return self._match(self._cell_measures_and_dims, name)

    def cell_measure(self, name=None):
        r = self.cell_measures(name)
        if len(r) != 1:
            raise iris.exceptions.CellMeasureNotFoundError(
                "Expected to find exactly 1 {!s} cell measure, but found {}.".format(name, len(r) or "none")
            )
        return r[0]

    def cell_measure_dims(self, cm):
        cm = self.cell_measure(cm)
        return [d for a, d in self._cell_measures_and_dims if a is cm][0]

    def remove_cell_measure(self, cm):
        cm = self.cell_measure(cm)
        self._cell_measures_and_dims = [x for x in self._cell_measures_and_dims if x[0] is not cm]

    @property
    def dim_coords(self):
        return tuple(c for c, d in sorted(self._dim_coords_and_dims, key=lambda cd: (cd[1], cd[0].name())))

    @property
    def aux_coords(self):
        return tuple(c for c, d in sorted(self._aux_coords_and_dims, key=lambda cd: (cd[1], cd[0].name())))

    @property
    def derived_coords(self):
        return ()

    @property
    def aux_factories(self):
        return ()

    def coords(
        self,
        name_or_coord=None,
        standard_name=None,
        long_name=None,
        var_name=None,
        attributes=None,
        axis=None,
        contains_dimension=None,
        dimensions=None,
        coord_system=None,
        dim_coords=None,
    ):
        out = []
        if dim_coords in (True, None):
            out += list(self.dim_coords)
        if dim_coords in (False, None):
            out += list(self.aux_coords)
        if name_or_coord is not None:
            if isinstance(name_or_coord, str):
                name = name_or_coord
                out = [c for c in out if c.name() == name]
            else:
                target = name_or_coord.metadata if isinstance(name_or_coord, Coord) else name_or_coord
                out = [c for c in out if c is name_or_coord or c.metadata == target]
        if standard_name is not None:
            out = [c for c in out if c.standard_name == standard_name]
        if long_name is not None:
            out = [c for c in out if c.long_name == long_name]
        if var_name is not None:
            out = [c for c in out if c.var_name == var_name]
        if axis is not None:
            axis = axis.upper()
            out = [c for c in out if guess_coord_axis(c) == axis]
        if attributes is not None:
            if not isinstance(attributes, dict):
                raise ValueError("The attributes keyword was expecting a dictionary type, but got a %s instead." % type(attributes))
            out = [
                c
                for c in out
                if all(k in c.attributes and c.attributes[k] == v for k, v in attributes.items())
            ]
        if coord_system is not None:
            if isinstance(coord_system, type):
                out = [c for c in out if isinstance(c.coord_system, coord_system)]
            else:
                out = [c for c in out if c.coord_system == coord_system]
        if contains_dimension is not None:
            out = [c for c in out if contains_dimension in self.coord_dims(c)]
        if dimensions is not None:
            if not isinstance(dimensions, Iterable):
                dimensions = [dimensions]
            dimensions = tuple(dimensions)
            out = [c for c in out if self.coord_dims(c) == dimensions]
        return out

    def coord(
        self,
        name_or_coord=None,
        standard_name=None,
        long_name=None,
        var_name=None,
        attributes=None,
        axis=None,
        contains_dimension=None,
        dimensions=None,
        coord_system=None,
        dim_coords=None,
    ):
        coords = self.coords(
            name_or_coord=name_or_coord,
            standard_name=standard_name,
            long_name=long_name,
            var_name=var_name,
            attributes=attributes,
            axis=axis,
            contains_dimension=contains_dimension,
            dimensions=dimensions,
            coord_system=coord_system,
            dim_coords=dim_coords,
        )
        if len(coords) > 1:
            raise iris.exceptions.CoordinateNotFoundError(
                "Expected to find exactly 1 coordinate, but found %s. They were: %s."
                % (len(coords), ", ".join(c.name() for c in coords))
            )
        if len(coords) == 0:
            name = name_or_coord
            if name_or_coord is not None and not isinstance(name_or_coord, str):
                name = name_or_coord.name()
            bad_name = name or standard_name or long_name or ""
            raise iris.exceptions.CoordinateNotFoundError(
                "Expected to find exactly 1 %s coordinate, but found none." % bad_name
            )
        return coords[0]

    def coord_dims(self, coord):
        if isinstance(coord, str):
            coord = self.coord(coord)
        for c, d in self._dim_coords_and_dims:
            if c is coord:
                return (d,)
        for c, d in self._aux_coords_and_dims:
            if c is coord:
                return d
        target = coord.metadata
        for c, d in self._dim_coords_and_dims:
            if c.metadata == target:
                return (d,)
        for c, d in self._aux_coords_and_dims:
            if c.metadata == target:
                return d
        raise iris.exceptions.CoordinateNotFoundError(coord.name())

    def remove_coord(self, coord):
        coord = self.coord(coord)
        self._dim_coords_and_dims = [x for x in self._dim_coords_and_dims if x[0] is not coord]
        self._aux_coords_and_dims = [x for x in self._aux_coords_and_dims if x[0] is not coord]

    def replace_coord(self, new_coord):
        old_coord = self.coord(new_coord)
        dims = self.coord_dims(old_coord)
        was_dimensioned = any(old_coord is c for c in self.dim_coords)
        self.remove_coord(old_coord)
        if was_dimensioned and isinstance(new_coord, DimCoord):
            self.add_dim_coord(new_coord, dims[0])
        else:
            self.add_aux_coord(new_coord, dims)

    def coord_system(self, spec=None):
        from iris.coord_systems import CoordSystem

        if isinstance(spec, str) or spec is None:
            spec_name = spec
        else:
            spec_name = spec.__name__
        coord_systems = {}
        for c in self.coords():
            if c.coord_system is not None:
                coord_systems[type(c.coord_system).__name__] = c.coord_system
        if spec_name is None or spec_name == "CoordSystem":
            for key in ("CoordSystem",):
                if key in coord_systems:
                    return coord_systems[key]
            return next(iter(coord_systems.values()), None)
        return coord_systems.get(spec_name)

    # ------------------------------------------------------------ indexing
    def __getitem__(self, keys):
        full = _full_keys(keys, self.ndim)
        norm = []
        for k in full:
            if isinstance(k, np.ndarray) and k.ndim == 0:
                k = int(k)
            elif isinstance(k, np.ndarray) and k.dtype.kind == "b":
                k = tuple(int(i) for i in np.where(k)[0])
            elif isinstance(k, (list, np.ndarray)):
                k = tuple(int(i) for i in k)
            elif isinstance(k, np.integer):
                k = int(k)
            norm.append(k)
        full = tuple(norm)
        mapping, new = {}, 0
        for i, k in enumerate(full):
            if isinstance(k, int):
                mapping[i] = None
            else:
                mapping[i] = new
                new += 1
        src = self._data
        if _is_lazy(src):
            data = src
            for dim, k in enumerate(full):
                if isinstance(k, tuple):
                    sl = [slice(None)] * data.ndim
                    sl[dim] = list(k)
                    data = data[tuple(sl)]
            data = data[tuple(slice(None) if isinstance(k, tuple) else k for k in full)]
        else:
            data = _ortho_index(src, full) if full else src[()]
            if isinstance(data, ma.core.MaskedConstant):
                data = ma.array(np.zeros((), dtype=self.dtype), mask=True, dtype=self.dtype)
            elif ma.isMaskedArray(data):
                data = data.copy()
                if ma.count_masked(data) == 0:
                    data = data.filled()
            else:
                data = np.array(data)
        if data.shape and min(data.shape) == 0:
            raise IndexError("Cannot index with zero length slice.")
        cube = Cube(data)
        cube._copy_metadata(self)
        for coord, dim in sorted(self._dim_coords_and_dims, key=lambda cd: (cd[1], cd[0].name())):
            k = full[dim]
            nd = mapping[dim]
            try:
                new_coord = coord[(k,)] if not (isinstance(k, slice) and k == slice(None)) else coord.copy()
            except ValueError:  # no longer monotonic
                new_coord = AuxCoord.from_coord(coord)[(k,)]
            if nd is None:
                cube._add_unique_aux_coord(new_coord, None)
            else:
                cube._add_unique_dim_coord_or_aux(new_coord, nd)
        for coord, dims in sorted(self._aux_coords_and_dims, key=lambda cd: (cd[1], cd[0].name())):
            if dims:
                ks = tuple(full[d] for d in dims)
                try:
                    new_coord = coord[ks]
                except ValueError:
                    new_coord = AuxCoord.from_coord(coord)[ks]
                nds = tuple(mapping[d] for d in dims if mapping[d] is not None)
                cube._add_unique_aux_coord(new_coord, nds or None)
            else:
                cube._add_unique_aux_coord(coord.copy(), None)
        for av, dims in self._ancillary_variables_and_dims:
            ks = tuple(full[d] for d in dims)
            new_av = av[ks] if dims else av.copy()
            cube._ancillary_variables_and_dims.append((new_av, tuple(mapping[d] for d in dims if mapping[d] is not None)))
        for cm, dims in self._cell_measures_and_dims:
            ks = tuple(full[d] for d in dims)
            new_cm = cm[ks] if dims else cm.copy()
            cube._cell_measures_and_dims.append((new_cm, tuple(mapping[d] for d in dims if mapping[d] is not None)))
        return cube

    def _add_unique_dim_coord_or_aux(self, coord, dim):
        if isinstance(coord, DimCoord):
            self._add_unique_dim_coord(coord, dim)
        else:
            self._add_unique_aux_coord(coord, (dim,))

    def _copy_metadata(self, other):
        self._standard_name = other._standard_name
        self.long_name = other.long_name
        self._var_name = other._var_name
        self._units = other._units
        self._attributes = copy.deepcopy(other._attributes)
        self._cell_methods = other._cell_methods

    __iter__ = None

    def copy(self, data=None):
        if data is None:
            new_data = self._data if _is_lazy(self._data) else copy.deepcopy(self._data)
            if ma.isMaskedArray(new_data):
                # deepcopy of a masked array must not share its mask
                new_data = ma.array(self._data, copy=True)
                if isinstance(self._data, ma.core.MaskedConstant):
                    new_data = ma.array(self._data.data, mask=True)
        else:
            if not hasattr(data, "shape"):
                data = np.asanyarray(data)
            if data.shape != self.shape:
                raise ValueError("Require data with shape %r, got %r." % (self.shape, data.shape))
            new_data = data
        new = Cube(new_data)
        new._copy_metadata(self)
        new._dim_coords_and_dims = [(c.copy(), d) for c, d in self._dim_coords_and_dims]
        new._aux_coords_and_dims = [(c.copy(), d) for c, d in self._aux_coords_and_dims]
        new._ancillary_variables_and_dims = [(c.copy(), d) for c, d in self._ancillary_variables_and_dims]
        new._cell_measures_and_dims = [(c.copy(), d) for c, d in self._cell_measures_and_dims]
        return new

    def __copy__(self):
        raise copy.Error("Cube shallow-copy not allowed. Use deepcopy() or Cube.copy()")

    def __deepcopy__(self, memo):
        return self.copy()

    def __eq__(self, other):
        if not isinstance(other, Cube):
            return NotImplemented
        if not (self.metadata == other.metadata):
            return False
        if self.shape != other.shape:
            return False
        mine, theirs = self.coords(), other.coords()
        if len(mine) != len(theirs):
            return False
        for c in mine:
            match = [d for d in theirs if c == d and self.coord_dims(c) == other.coord_dims(d)]
            if not match:
                return False
        a, b = self.data, other.data
        if a.dtype.kind in "SUO" or b.dtype.kind in "SUO":
            return bool(np.array_equal(a, b))
        if ma.isMaskedArray(a) or ma.isMaskedArray(b):
            m1, m2 = ma.getmaskarray(a), ma.getmaskarray(b)
            if not (m1 == m2).all():
                return False
            return bool(np.allclose(np.asarray(a)[~m1], np.asarray(b)[~m2]))
        return bool(np.allclose(a, b))

    def __ne__(self, other):
        r = self.__eq__(other)
        return r if r is NotImplemented else not r

    def __hash__(self):
        return hash(id(self))

    # ----------------------------------------------------------- reshaping
    def transpose(self, new_order=None):
        if new_order is None:
            new_order = np.arange(self.ndim)[::-1]
        new_order = [int(i) % self.ndim if self.ndim else int(i) for i in new_order]
        if len(new_order) != self.ndim:
            raise ValueError("Incorrect number of dimensions.")
        self._data = self._data.transpose(new_order)
        inv = {src: dest for dest, src in enumerate(new_order)}
        self._dim_coords_and_dims = [(c, inv[d]) for c, d in self._dim_coords_and_dims]
        self._aux_coords_and_dims = [(c, tuple(inv[d] for d in ds)) for c, ds in self._aux_coords_and_dims]
        self._ancillary_variables_and_dims = [(c, tuple(inv[d] for d in ds)) for c, ds in self._ancillary_variables_and_dims]
        self._cell_measures_and_dims = [(c, tuple(inv[d] for d in ds)) for c, ds in self._cell_measures_and_dims]

    def _as_list_of_coords(self, names_or_coords):
        if isinstance(names_or_coords, (str, Coord)) or not isinstance(names_or_coords, Iterable):
            names_or_coords = [names_or_coords]
        out = []
        for n in names_or_coords:
            if isinstance(n, str) or isinstance(n, Coord):
                out.append(self.coord(n))
            else:
                raise TypeError("Don't know how to handle coordinate of type '%s'." % type(n))
        return out

    def slices_over(self, ref_to_slice):
        if isinstance(ref_to_slice, (str, Coord, int, np.integer)) or not isinstance(ref_to_slice, Iterable):
            ref_to_slice = [ref_to_slice]
        slice_dims = set()
        for ref in ref_to_slice:
            if isinstance(ref, (int, np.integer)):
                if ref < 0 or ref > self.ndim:
                    raise ValueError("Requested an iterator over a dimension (%s) which does not exist." % ref)
                slice_dims.add(int(ref))
            else:
                (coord,) = self._as_list_of_coords(ref)
                slice_dims.update(self.coord_dims(coord))
        opposite = sorted(set(range(self.ndim)) - slice_dims)
        return self.slices(opposite, ordered=False)

    def slices(self, ref_to_slice, ordered=True):
        if isinstance(ref_to_slice, (str, Coord, int, np.integer)) or not isinstance(ref_to_slice, Iterable):
            ref_to_slice = [ref_to_slice]
        dims_to_slice = []
        for ref in ref_to_slice:
            if isinstance(ref, (int, np.integer)):
                if ref < 0 or ref > self.ndim:
                    raise ValueError("Requested an iterator over a dimension ({}) which does not exist.".format(ref))
                dims_to_slice.append(int(ref))
            else:
                (coord,) = self._as_list_of_coords(ref)
                if not self.coord_dims(coord):
                    raise ValueError(
                        "Requested an iterator over a coordinate ({}) which does not describe a dimension.".format(coord.name())
                    )
                dims_to_slice.extend(self.coord_dims(coord))
        if len(set(dims_to_slice)) != len(dims_to_slice):
            raise ValueError("The requested coordinates are not orthogonal.")
        return _SliceIterator(self, dims_to_slice, ordered)

    # ------------------------------------------------------------- extract
    def extract(self, constraint):
        constraint = _constraints.as_constraint(constraint)
        return constraint.extract(self)

    def subset(self, coord):
        if not isinstance(coord, Coord):
            raise ValueError("coord_to_extract must be a valid Coord.")
        coord_to_extract = self.coord(coord)
        if coord_to_extract.ndim > 1:
            raise iris.exceptions.CoordinateMultiDimError(coord_to_extract)
        dims = self.coord_dims(coord_to_extract)
        if not dims:
            return self if coord_to_extract in [coord] else None
        inds = coord_to_extract.intersect(coord, return_indices=True)
        full = [slice(None)] * self.ndim
        full[dims[0]] = tuple(int(i) for i in inds)
        return self[tuple(full)]

    def intersection(self, *args, **kwargs):
        result = self
        ignore_bounds = kwargs.pop("ignore_bounds", False)
        for name, rng in kwargs.items():
            result = result._intersect_modulus(name, *rng, ignore_bounds=ignore_bounds)
        for arg in args:
            result = result._intersect_modulus(*arg, ignore_bounds=ignore_bounds)
        return result

    def _intersect_modulus(self, name, minimum, maximum, min_inclusive=True, max_inclusive=True, ignore_bounds=False):
        coord = self.coord(name)
        if coord.ndim != 1:
            raise iris.exceptions.CoordinateMultiDimError(coord)
        if coord.nbounds not in (0, 2):
            raise ValueError("expected 0 or 2 bound values per cell")
        if minimum > maximum:
            raise ValueError("minimum greater than maximum")
        modulus = coord.units.modulus
        if modulus is None:
            raise ValueError("coordinate units with no modulus are not yet supported")
        dims = self.coord_dims(coord)
        points = coord.points.astype(np.float64)
        wrapped = ((points - minimum + modulus) % modulus) + minimum
        # guard against numerical noise moving a point by a whole modulus
        tol = 1e-4 if coord.dtype == np.float32 else 1e-9
        wrapped = np.where(np.abs(wrapped - modulus - minimum) < tol, minimum, wrapped)
        if coord.has_bounds() and not ignore_bounds:
            bnds = coord.bounds.astype(np.float64)
            off = wrapped - points
            b = bnds + off[:, None]
            lo, hi = b.min(axis=1), b.max(axis=1)
            # a cell whose upper bound wraps into the range from below
            lo2, hi2 = lo - modulus, hi - modulus
            inside = (lo <= maximum) & (hi >= minimum)
            inside2 = (lo2 <= maximum) & (hi2 >= minimum)
            wrapped = np.where(inside2 & ~inside, wrapped - modulus, wrapped)
            sel = inside | inside2
            lo_c = np.where(inside, lo, lo2)
            hi_c = np.where(inside, hi, hi2)
            if min_inclusive is False:
                sel &= hi_c > minimum
            if max_inclusive is False:
                sel &= lo_c < maximum
        else:
            sel = (wrapped >= minimum if min_inclusive else wrapped > minimum) & (
                wrapped <= maximum if max_inclusive else wrapped < maximum
            )
        inds = np.where(sel)[0]
        if inds.size == 0:
            raise IndexError("zero intersections between coordinate and range")
        if not dims:
            return self.copy()
        # keep ascending (or original-direction) order of wrapped points
        w = wrapped[inds]
        descending = len(points) > 1 and points[0] > points[-1]
        order = np.argsort(-w if descending else w, kind="stable")
        inds = inds[order]
        keys = [slice(None)] * self.ndim
        d = np.diff(inds)
        if inds.size == len(points) and (d == 1).all():
            keys[dims[0]] = slice(None)
        elif inds.size > 1 and (d == 1).all() or inds.size == 1:
            keys[dims[0]] = slice(int(inds[0]), int(inds[-1]) + 1)
        else:
            keys[dims[0]] = tuple(int(i) for i in inds)
        if isinstance(keys[dims[0]], tuple):
            tmp = self.copy()
            old = tmp.coord(name)
            was_dim = any(old is c for c in tmp.dim_coords)
            tmp.remove_coord(old)
            cut = tmp[tuple(keys)]
        else:
            cut = self[tuple(keys)]
            was_dim = any(cut.coord(name) is c for c in cut.dim_coords)
            cut.remove_coord(name)
        new_pts = (coord.points[inds] + (wrapped[inds] - points[inds])).astype(coord.dtype)
        new_b = None
        if coord.has_bounds():
            new_b = (coord.bounds[inds] + (wrapped[inds] - points[inds])[:, None]).astype(coord.bounds_dtype)
        new = coord.copy(points=new_pts, bounds=new_b) if len(inds) == len(points) or True else None
        if was_dim:
            cut.add_dim_coord(new, dims[0])
        else:
            cut.add_aux_coord(new, dims)
        return cut

    # --------------------------------------------------------- aggregation
    def collapsed(self, coords, aggregator, **kwargs):
        from iris.analysis import WeightedAggregator

        weights = kwargs.get("weights")
        if weights is not None:
            weights = np.asanyarray(weights)
            if weights.shape != self.shape:
                # iris requires weights of the cube shape
                raise ValueError("Weights must be the same shape as the data")
        coords = self._as_list_of_coords(coords)
        dims = set()
        for c in coords:
            dims.update(self.coord_dims(c))
        if not dims:
            raise iris.exceptions.CoordinateCollapseError(
                "Cannot collapse a dimension which does not describe any data."
            )
        dims = sorted(dims)
        untouched = [d for d in range(self.ndim) if d not in dims]
        idx = [slice(None)] * self.ndim
        for d in dims:
            idx[d] = 0
        out = self[tuple(idx)]
        for c in list(self.dim_coords) + list(self.aux_coords):
            cd = self.coord_dims(c)
            local = [cd.index(d) for d in dims if d in cd]
            if not local:
                continue
            new_c = c.collapsed(local)
            keep = [untouched.index(d) for d in cd if d not in dims]
            key = tuple(0 if i in local else slice(None) for i in range(len(cd)))
            new_c = new_c[key]
            if not keep and not isinstance(new_c, DimCoord):
                pass
            old = [
                o
                for o in out.aux_coords
                if o.metadata == c.metadata and tuple(out.coord_dims(o)) == tuple(keep)
            ]
            if old:
                out.remove_coord(old[0])
            out.add_aux_coord(new_c, keep or None)
        end = 1
        for d in dims:
            end *= self.shape[d]
        order = untouched + dims
        new_shape = [self.shape[d] for d in untouched] + [end]
        unrolled = np.transpose(self.data, order).reshape(new_shape)
        if weights is not None:
            kwargs["weights"] = np.transpose(weights, order).reshape(new_shape)
        result = aggregator.aggregate(unrolled, axis=-1, **kwargs)
        aggregator.update_metadata(out, coords, axis=-1, **kwargs)
        return aggregator.post_process(out, result, coords, **kwargs)

    def aggregated_by(self, coords, aggregator, **kwargs):
        coords = self._as_list_of_coords(coords)
        dim = self.coord_dims(coords[0])
        (dim,) = dim
        keys = list(zip(*[list(c.points) for c in coords]))
        groups = OrderedDict()
        for i, k in enumerate(keys):
            groups.setdefault(k, []).append(i)
        parts = []
        first = list(groups.values())
        for inds in first:
            sl = [slice(None)] * self.ndim
            sl[dim] = tuple(inds)
            sub = np.asanyarray(self.data)[tuple(list(i) if isinstance(i, tuple) else i for i in sl)]
            parts.append(aggregator.aggregate(sub, axis=dim, **kwargs))
        data = ma.stack(parts, axis=dim) if any(ma.isMaskedArray(p) for p in parts) else np.stack(parts, axis=dim)
        sl = [slice(None)] * self.ndim
        sl[dim] = tuple(i[0] for i in first)
        out = self[tuple(sl)]
        out = out.copy(data)
        for c in self.coords(contains_dimension=dim):
            if c.ndim == 1 and not any(c is g for g in coords):
                pts, bds = [], []
                for inds in first:
                    cc = c[tuple(inds)].collapsed() if len(inds) > 1 else c[tuple(inds)]
                    pts.append(cc.points[0])
                    bds.append(cc.bounds[0] if cc.has_bounds() else [cc.points[0]] * 2)
                kw = dict(standard_name=c.standard_name, long_name=c.long_name, var_name=c.var_name, units=c.units, attributes=c.attributes, coord_system=c.coord_system)
                out.remove_coord(out.coord(c.name()))
                out.add_aux_coord(AuxCoord(np.array(pts, dtype=c.dtype if c.dtype.kind not in "SU" else None), bounds=np.array(bds) if c.dtype.kind not in "SU" else None, **kw), dim)
        aggregator.update_metadata(out, coords, aggregate=True, **kwargs)
        return aggregator.post_process(out, data, coords, **kwargs)

    def interpolate(self, sample_points, scheme, collapse_scalar=True):
        coords, points = zip(*sample_points)
        interp = scheme.interpolator(self, coords)
        return interp(points, collapse_scalar=collapse_scalar)

    def regrid(self, grid, scheme):
        return scheme.regridder(self, grid)(self)

    # ---------------------------------------------------------- arithmetic
    def _binary(self, other, op, kind, reverse=False, in_place=False):
        from iris.analysis import maths

        return maths.binary(self, other, op, kind, reverse, in_place)

    def __add__(self, other):
        return self._binary(other, operator.add, "add")

    __radd__ = __add__

    def __iadd__(self, other):
        return self._binary(other, operator.add, "add", in_place=True)

    def __sub__(self, other):
        return self._binary(other, operator.sub, "sub")

    def __isub__(self, other):
        return self._binary(other, operator.sub, "sub", in_place=True)

    def __rsub__(self, other):
        return self._binary(other, operator.sub, "sub", reverse=True)

    def __mul__(self, other):
        return self._binary(other, operator.mul, "mul")

    __rmul__ = __mul__

    def __imul__(self, other):
        return self._binary(other, operator.mul, "mul", in_place=True)

    def __truediv__(self, other):
        return self._binary(other, operator.truediv, "div")

    def __rtruediv__(self, other):
        return self._binary(other, operator.truediv, "div", reverse=True)

    def __itruediv__(self, other):
        return self._binary(other, operator.truediv, "div", in_place=True)

    def __pow__(self, power):
        new = self.copy(self.data ** power)
        new.units = self.units ** power if not self.units.is_unknown() else self.units
        new.rename(None)
        return new

    def __neg__(self):
        new = self.copy(-self.data)
        return new

    # ------------------------------------------------------------- display
    def summary(self, shorten=False, name_padding=35):
        dims = []
        for d in range(self.ndim):
            dc = self.coords(dimensions=d, dim_coords=True)
            dims.append("%s: %d" % (dc[0].name() if dc else "-- ", self.shape[d]))
        text = "%s / (%s)" % (self.name(), self.units)
        text = "%-*s (%s)" % (name_padding, text, "; ".join(dims)) if dims else "%s (scalar cube)" % text
        if shorten:
            return text
        lines = [text]
        vec = [c for c in self.aux_coords if self.coord_dims(c)]
        sca = [c for c in self.aux_coords if not self.coord_dims(c)]
        if self.dim_coords:
            lines.append("     Dimension coordinates:")
            for c in self.dim_coords:
                lines.append("          %s" % c.name())
        if vec:
            lines.append("     Auxiliary coordinates:")
            for c in vec:
                lines.append("          %s" % c.name())
        if sca:
            lines.append("     Scalar coordinates:")
            for c in sorted(sca, key=lambda c: c.name()):
                lines.append("          %s: %s" % (c.name(), c.cell(0)))
        if self.attributes:
            lines.append("     Attributes:")
            for k, v in sorted(self.attributes.items()):
                lines.append("          %s: %s" % (k, v))
        if self.cell_methods:
            lines.append("     Cell methods:")
            for cm in self.cell_methods:
                lines.append("          %s" % cm)
        return "\n".join(lines)

    def __str__(self):
        return self.summary()

    def __repr__(self):
        return "<iris 'Cube' of %s>" % self.summary(shorten=True, name_padding=1)

    def xml(self, checksum=False, order=True, byteorder=True):
        d = self.data
        rows = ["<cube %r %r %r %r %s %s" % (self.standard_name, self.long_name, self.var_name, str(self.units), d.dtype, d.shape)]
        for k in sorted(self.attributes):
            rows.append("  attr %s=%r" % (k, self.attributes[k]))
        for c in sorted(self.coords(), key=lambda c: c.name()):
            rows.append("  coord %s dims=%s" % (c.xml_str(), self.coord_dims(c)))
        for cm in self.cell_methods:
            rows.append("  cm %r" % cm)
        if checksum:
            a = np.ascontiguousarray(d.filled() if ma.isMaskedArray(d) else d)
            rows.append("  data %s" % hashlib.md5(a.tobytes() if a.dtype.kind != "O" else repr(a).encode()).hexdigest())
            if ma.isMaskedArray(d):
                rows.append("  mask %s" % hashlib.md5(np.ascontiguousarray(ma.getmaskarray(d)).tobytes()).hexdigest())
        rows.append("/>")
        return "\n".join(rows)


class _SliceIterator:
    def __init__(self, cube, dims_to_slice, ordered):
        self._cube = cube
        self._req = list(dims_to_slice)
        self._ordered = ordered
        rest = [d for d in range(cube.ndim) if d not in self._req]
        self._rest = rest
        self._iter = np.ndindex(*[cube.shape[d] for d in rest])

    def __iter__(self):
        return self

    def __next__(self):
        idx = next(self._iter)
        keys = [slice(None)] * self._cube.ndim
        for d, i in zip(self._rest, idx):
            keys[d] = int(i)
        cube = self._cube[tuple(keys)]
        if self._ordered and any(a > b for a, b in zip(self._req, self._req[1:])):
            rank = sorted(self._req)
            cube.transpose([rank.index(d) for d in self._req])
        return cube

    next = __next__


class CubeList(list):
    def __init__(self, list_of_cubes=()):
        list.__init__(self, list_of_cubes if list_of_cubes is not None else ())

    def __add__(self, other):
        return CubeList(list.__add__(self, other))

    def __getitem__(self, keys):
        result = super().__getitem__(keys)
        if isinstance(result, list):
            result = CubeList(result)
        return result

    def __deepcopy__(self, memo):
        return CubeList([c.copy() for c in self])

    def __copy__(self):
        return CubeList(list(self))

    def __str__(self):
        return "\n".join("%s: %s" % (i, c.summary(shorten=True)) for i, c in enumerate(self)) or "< No cubes >"

    def __repr__(self):
        return "[%s]" % ",\n".join(repr(c) for c in self)

    def xml(self, checksum=False, order=True, byteorder=True):
        return "\n".join(c.xml(checksum=checksum) for c in self)

    def extract(self, constraints):
        out = CubeList()
        for c in _constraints.list_of_constraints(constraints):
            for cube in self:
                sub = c.extract(cube)
                if sub is not None:
                    out.append(sub)
        return out

    def extract_cube(self, constraint):
        return self._extract_strict([constraint])[0]

    def extract_cubes(self, constraints):
        return CubeList(self._extract_strict(_constraints.list_of_constraints(constraints)))

    def _extract_strict(self, constraints):
        res = []
        for c in constraints:
            c = _constraints.as_constraint(c)
            found = CubeList([x for x in (c.extract(cube) for cube in self) if x is not None])
            if len(found) != 1:
                raise iris.exceptions.ConstraintMismatchError(
                    "Got %s cubes for constraint %r, expecting 1." % (len(found), c)
                )
            res.append(found[0])
        return res

    def merge_cube(self):
        from iris import _merge

        return _merge.merge_cube(self)

    def merge(self, unique=True):
        from iris import _merge

        return _merge.merge(self, unique)

    def concatenate_cube(self, check_aux_coords=True):
        from iris import _merge

        if not self:
            raise ValueError("can't concatenate an empty CubeList")
        return _merge.concatenate_cube(self)

    def concatenate(self, check_aux_coords=True):
        from iris import _merge

        return _merge.concatenate(self)

    def realise_data(self):
        for c in self:
            c.data
