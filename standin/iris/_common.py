"""Shared naming/metadata machinery of the iris stand-in."""
from collections import namedtuple

import cf_units
import numpy as np

import iris.std_names


def _attr_equal(a, b):
    if isinstance(a, np.ndarray) or isinstance(b, np.ndarray):
        return np.array_equal(a, b)
    try:
        return bool(a == b)
    except Exception:
        return False


class LimitedAttributeDict(dict):
    _forbidden_keys = (
        "standard_name",
        "long_name",
        "units",
        "bounds",
        "axis",
        "calendar",
        "leap_month",
        "leap_year",
        "month_lengths",
        "coordinates",
        "grid_mapping",
        "climatology",
        "cell_methods",
        "formula_terms",
        "compress",
        "add_offset",
        "scale_factor",
        "_FillValue",
    )

    def __init__(self, *args, **kwargs):
        dict.__init__(self, *args, **kwargs)
        for key in self:
            self._check(key)

    def _check(self, key):
        if key in self._forbidden_keys:
            raise ValueError("%r is not a permitted attribute" % key)

    def __eq__(self, other):
        if not isinstance(other, dict):
            return NotImplemented
        if set(self) != set(other):
            return False
        return all(_attr_equal(self[k], other[k]) for k in self)

    def __ne__(self, other):
        r = self.__eq__(other)
        return r if r is NotImplemented else not r

    __hash__ = None

    def __setitem__(self, key, value):
        self._check(key)
        dict.__setitem__(self, key, value)

    def update(self, *args, **kwargs):
        for k, v in dict(*args, **kwargs).items():
            self[k] = v

    def copy(self):
        return LimitedAttributeDict(self)

    def __reduce__(self):
        return (LimitedAttributeDict, (dict(self),))


def _md_name(self, default=None, token=False):
    return self.standard_name or self.long_name or self.var_name or default or "unknown"


class _MetaEq:
    __slots__ = ()
    _ignore_foreign = ("circular",)

    def __eq__(self, other):
        if not isinstance(other, _MetaEq):
            return NotImplemented
        fields = set(self._fields) & set(other._fields)
        if ("cell_methods" in self._fields) != ("cell_methods" in other._fields):
            return False
        if ("coord_system" in self._fields) != ("coord_system" in other._fields):
            return False
        for f in fields:
            if not _attr_equal(getattr(self, f), getattr(other, f)):
                return False
        return True

    def __ne__(self, other):
        r = self.__eq__(other)
        return r if r is NotImplemented else not r

    __hash__ = None

    def _sort_key(self):
        return tuple(
            str(getattr(self, f)) if getattr(self, f) is not None else ""
            for f in ("standard_name", "long_name", "var_name", "units")
        ) + (str(sorted((str(k), str(v)) for k, v in self.attributes.items())),)

    def __lt__(self, other):
        return self._sort_key() < other._sort_key()

    name = _md_name


_CubeMD = namedtuple(
    "CubeMetadata",
    ["standard_name", "long_name", "var_name", "units", "attributes", "cell_methods"],
)
_CoordMD = namedtuple(
    "CoordMetadata",
    [
        "standard_name",
        "long_name",
        "var_name",
        "units",
        "attributes",
        "coord_system",
        "climatological",
    ],
)
_DimCoordMD = namedtuple("DimCoordMetadata", _CoordMD._fields + ("circular",))
_AncilMD = namedtuple(
    "AncillaryVariableMetadata",
    ["standard_name", "long_name", "var_name", "units", "attributes"],
)
_MeasMD = namedtuple("CellMeasureMetadata", _AncilMD._fields + ("measure",))


def _mk(base):
    return type(base.__name__, (_MetaEq, base), {"__slots__": (), "__hash__": None})


CubeMetadata = _mk(_CubeMD)
CoordMetadata = _mk(_CoordMD)
DimCoordMetadata = _mk(_DimCoordMD)
AncillaryVariableMetadata = _mk(_AncilMD)
CellMeasureMetadata = _mk(_MeasMD)


def get_valid_standard_name(name):
    if name is None:
        return None
    parts = name.split(None, 1)
    if not parts or parts[0] not in iris.std_names.STD_NAMES:
        raise ValueError("%r is not a valid standard_name" % (name,))
    return name


class CFVariableMixin:
    _MD = None

    def name(self, default=None, token=False):
        return (
            self._standard_name
            or self.long_name
            or self._var_name
            or default
            or "unknown"
        )

    def rename(self, name):
        try:
            self.standard_name = name
            self.long_name = None
        except ValueError:
            self.standard_name = None
            self.long_name = str(name)
        self.var_name = None

    @property
    def _names(self):
        return (self._standard_name, self.long_name, self._var_name)

    @property
    def standard_name(self):
        return self._standard_name

    @standard_name.setter
    def standard_name(self, name):
        self._standard_name = get_valid_standard_name(name)

    @property
    def var_name(self):
        return self._var_name

    @var_name.setter
    def var_name(self, name):
        if name is not None:
            if not name:
                raise ValueError("An empty string is not a valid netCDF variable name.")
            if set(name).intersection(" \t\n"):
                raise ValueError(
                    "{!r} is not a valid netCDF variable name as it contains "
                    "whitespace.".format(name)
                )
        self._var_name = name

    @property
    def units(self):
        return self._units

    @units.setter
    def units(self, unit):
        self._units = cf_units.as_unit(unit)

    @property
    def attributes(self):
        return self._attributes

    @attributes.setter
    def attributes(self, attributes):
        self._attributes = LimitedAttributeDict(attributes or {})

    @property
    def metadata(self):
        return self._MD(*[getattr(self, f) for f in self._MD._fields])

    @metadata.setter
    def metadata(self, metadata):
        if hasattr(metadata, "_asdict"):
            values = metadata._asdict()
        elif isinstance(metadata, dict):
            values = metadata
        else:
            values = dict(zip(self._MD._fields, metadata))
        for f in self._MD._fields:
            if f in values:
                setattr(self, f, values[f])
            elif f == "circular":
                self.circular = False
