"""Constraints of the iris stand-in."""
import operator
from collections.abc import Iterable, Mapping

import numpy as np

import iris.exceptions
from iris.time import PartialDateTime


class Constraint:
    def __init__(self, name=None, cube_func=None, coord_values=None, **kwargs):
        if not (name is None or isinstance(name, str)):
            raise TypeError("name must be None or string, got %r" % name)
        if not (cube_func is None or callable(cube_func)):
            raise TypeError("cube_func must be None or callable, got %r" % cube_func)
        if not (coord_values is None or isinstance(coord_values, Mapping)):
            raise TypeError("coord_values must be None or a collections.Mapping, got %r" % coord_values)
        coord_values = coord_values or {}
        duplicate_keys = set(coord_values.keys()) & set(kwargs.keys())
        if duplicate_keys:
            raise ValueError("Duplicate coordinate conditions specified for: %s" % list(duplicate_keys))
        self._name = name
        self._cube_func = cube_func
        self._coord_values = dict(coord_values)
        self._coord_values.update(kwargs)
        self._coord_constraints = [
            _CoordConstraint(n, thing) for n, thing in self._coord_values.items()
        ]

    def __repr__(self):
        args = []
        if self._name:
            args.append(("name", self._name))
        if self._cube_func:
            args.append(("cube_func", self._cube_func))
        if self._coord_values:
            args.append(("coord_values", self._coord_values))
        return "Constraint(%s)" % ", ".join("%s=%r" % (k, v) for k, v in args)

    def extract(self, cube):
        cim = self._CIM_extract(cube)
        slice_tuple = cim.as_slice()
        result = None
        if slice_tuple == ():
            result = cube
        elif slice_tuple is not None:
            result = cube[slice_tuple]
        return result

    def _CIM_extract(self, cube):
        cim = _ColumnIndexManager(cube.ndim)
        if self._name:
            match = self._name in cube._names or self._name == cube.name()
            if not match:
                cim.all_indices = False
                return cim
        if self._cube_func and not self._cube_func(cube):
            cim.all_indices = False
            return cim
        for cc in self._coord_constraints:
            cim = cim.combine(cc.extract(cube), operator.__and__)
        return cim

    def __and__(self, other):
        return ConstraintCombination(self, other, operator.__and__)

    def __rand__(self, other):
        return ConstraintCombination(other, self, operator.__and__)


class ConstraintCombination(Constraint):
    def __init__(self, lhs, rhs, operator_):
        self.lhs = as_constraint(lhs)
        self.rhs = as_constraint(rhs)
        self.operator = operator_

    def _coordless_match(self, cube):
        return self.operator(self.lhs._coordless_match(cube), self.rhs._coordless_match(cube))

    def __repr__(self):
        return "ConstraintCombination(%r, %r, %r)" % (self.lhs, self.rhs, self.operator)

    def _CIM_extract(self, cube):
        return self.lhs._CIM_extract(cube).combine(self.rhs._CIM_extract(cube), self.operator)


class _CoordConstraint:
    def __init__(self, coord_name, coord_thing):
        self.coord_name = coord_name
        self._coord_thing = coord_thing

    def extract(self, cube):
        from iris.coords import Cell, DimCoord

        cim = _ColumnIndexManager(cube.ndim)
        try:
            coord = cube.coord(self.coord_name)
        except iris.exceptions.CoordinateNotFoundError:
            cim.all_indices = False
            return cim
        dims = cube.coord_dims(coord)
        if len(dims) > 1:
            raise iris.exceptions.CoordinateMultiDimError(
                "Cannot apply constraints to multidimensional coordinates"
            )
        thing = self._coord_thing
        try_quick = False
        if callable(thing):
            call_func = thing
        elif isinstance(thing, Iterable) and not isinstance(thing, (str, PartialDateTime, Cell)):
            desired = list(thing)
            if coord.has_bounds():
                def call_func(cell):
                    return cell in desired
            else:
                def call_func(cell):
                    return cell.point in desired
        else:
            def call_func(c):
                return c == thing

            try_quick = isinstance(coord, DimCoord) and not isinstance(thing, PartialDateTime)
        if try_quick:
            try:
                i = coord.nearest_neighbour_index(thing)
            except TypeError:
                try_quick = False
        if try_quick:
            r = np.zeros(coord.shape, dtype=bool)
            if coord.cell(i) == thing:
                r[i] = True
        else:
            r = np.array([bool(call_func(cell)) for cell in coord.cells()])
        if dims:
            cim[dims[0]] = r
        elif not all(r):
            cim.all_indices = False
        return cim


class _ColumnIndexManager:
    def __init__(self, ndims):
        self._arrays = [True] * ndims
        self.ndims = ndims
        self.all_indices = True

    def __getitem__(self, key):
        return self._arrays[key]

    def __setitem__(self, key, value):
        self._arrays[key] = value

    def combine(self, other, op):
        result = _ColumnIndexManager(self.ndims)
        result.all_indices = op(bool(self.all_indices), bool(other.all_indices))
        for i in range(self.ndims):
            result[i] = op(self[i], other[i])
        return result

    def as_slice(self):
        if not self.all_indices:
            return None
        result = []
        for d in self._arrays:
            if isinstance(d, np.ndarray):
                where = np.where(d)[0]
                if len(where) == 0:
                    return None
                if len(where) == len(d):
                    # every element matches
                    if len(d) == 1:
                        result.append(0)
                    else:
                        result.append(slice(None))
                elif len(where) == 1:
                    result.append(int(where[0]))
                else:
                    delta = np.diff(where)
                    if (delta == delta[0]).all():
                        result.append(slice(int(where[0]), int(where[-1]) + 1, int(delta[0])))
                    else:
                        result.append(tuple(int(w) for w in where))
            else:
                result.append(slice(None))
        if all(isinstance(r, slice) and r == slice(None) for r in result):
            return ()
        return tuple(result)


def list_of_constraints(constraints):
    if isinstance(constraints, str) or not isinstance(constraints, Iterable):
        constraints = [constraints]
    return [as_constraint(c) for c in constraints]


def as_constraint(thing):
    if isinstance(thing, Constraint):
        return thing
    if thing is None:
        return Constraint()
    if isinstance(thing, str):
        return Constraint(thing)
    raise TypeError("Cannot cast %s to a constraint." % type(thing))


class AttributeConstraint(Constraint):
    def __init__(self, **attributes):
        self._attributes = attributes
        super().__init__(cube_func=self._cube_func_)

    def _cube_func_(self, cube):
        for name, value in self._attributes.items():
            if name not in cube.attributes:
                return False
            cube_attr = cube.attributes.get(name)
            if callable(value):
                if not value(cube_attr):
                    return False
            elif cube_attr != value:
                return False
        return True

    def __repr__(self):
        return "AttributeConstraint(%r)" % self._attributes


class NameConstraint(Constraint):
    def __init__(self, standard_name="none", long_name="none", var_name="none", STASH="none"):
        self._wanted = {"standard_name": standard_name, "long_name": long_name, "var_name": var_name}
        super().__init__(cube_func=self._func)

    def _func(self, cube):
        for k, v in self._wanted.items():
            if v == "none":
                continue
            actual = getattr(cube, k)
            if callable(v):
                if not (actual is not None and v(actual)):
                    return False
            elif actual != v:
                return False
        return True
