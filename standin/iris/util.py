"""Helpers of the iris stand-in."""
import copy

import numpy as np
import numpy.ma as ma

import iris.exceptions


def guess_coord_axis(coord):
    axis = None
    sn, ln = coord.standard_name, coord.long_name
    if sn in ("longitude", "grid_longitude", "projection_x_coordinate") or (
        coord.coord_system is None and False
    ):
        axis = "X"
    elif sn in ("latitude", "grid_latitude", "projection_y_coordinate"):
        axis = "Y"
    elif coord.units.is_convertible("hPa") or coord.attributes.get("positive") in ("up", "down"):
        axis = "Z"
    elif coord.units.is_time_reference():
        axis = "T"
    return axis


def is_regular(coord):
    d = np.diff(coord.points)
    return bool(d.size and np.all(d == d[0]))


def array_equal(array1, array2, withnans=False):
    a, b = np.asanyarray(array1), np.asanyarray(array2)
    if a.shape != b.shape:
        return False
    if ma.isMaskedArray(a) or ma.isMaskedArray(b):
        m1, m2 = ma.getmaskarray(a), ma.getmaskarray(b)
        if not np.array_equal(m1, m2):
            return False
        a, b = np.asarray(a)[~m1], np.asarray(b)[~m2]
    if withnans and a.dtype.kind == "f":
        return bool(((a == b) | ((a != a) & (b != b))).all())
    return bool(np.all(a == b))


def broadcast_to_shape(array, shape, dim_map):
    if len(dim_map) != array.ndim:
        raise ValueError("dim_map must have an entry for every dimension of the input array")

    def helper(a):
        strides = [0] * len(shape)
        for idim, dim in enumerate(dim_map):
            if shape[dim] != a.shape[idim]:
                raise ValueError("shape and array are not compatible")
            strides[dim] = idim
        dims = [d % len(shape) for d in dim_map]
        order = sorted(range(len(dims)), key=lambda i: dims[i])
        a = a.transpose(order)
        a = a.reshape([shape[d] if d in dims else 1 for d in range(len(shape))])
        return np.broadcast_to(a, tuple(shape))

    if ma.isMaskedArray(array):
        data = helper(array.data)
        if array.mask is ma.nomask or array.mask.ndim == 0:
            return ma.array(data, mask=array.mask)
        return ma.array(data, mask=helper(array.mask))
    return helper(array)


def new_axis(src_cube, scalar_coord=None):
    from iris.coords import DimCoord

    if scalar_coord is not None:
        scalar_coord = src_cube.coord(scalar_coord)
        if scalar_coord.shape != (1,) or src_cube.coord_dims(scalar_coord):
            emsg = "{} is not a scalar coordinate."
            raise ValueError(emsg.format(scalar_coord.name()))
    from iris.cube import Cube

    new_cube = Cube(src_cube.core_data()[None], )
    new_cube.metadata = src_cube.metadata
    for coord in src_cube.aux_coords:
        if scalar_coord is not None and scalar_coord is coord:
            dim_coord = DimCoord.from_coord(coord)
            new_cube.add_dim_coord(dim_coord, 0)
        else:
            dims = np.array(src_cube.coord_dims(coord), dtype=int) + 1
            new_cube.add_aux_coord(coord.copy(), [int(d) for d in dims] or None)
    for coord in src_cube.dim_coords:
        dims = src_cube.coord_dims(coord)[0] + 1
        new_cube.add_dim_coord(coord.copy(), dims)
    for av in src_cube.ancillary_variables():
        dims = [d + 1 for d in src_cube.ancillary_variable_dims(av)]
        new_cube.add_ancillary_variable(copy.deepcopy(av), dims)
    for cm in src_cube.cell_measures():
        dims = [d + 1 for d in src_cube.cell_measure_dims(cm)]
        new_cube.add_cell_measure(copy.deepcopy(cm), dims)
    return new_cube


def squeeze(cube):
    slices = [0 if cube.shape[dim] == 1 else slice(None) for dim in range(cube.ndim)]
    squeezed = cube[tuple(slices)]
    if squeezed is cube or (len(slices) == 0):
        squeezed = cube.copy()
    return squeezed


def equalise_attributes(cubes):
    common_keys = list(cubes[0].attributes.keys())
    for cube in cubes[1:]:
        cube_keys = list(cube.attributes.keys())
        common_keys = [
            key
            for key in common_keys
            if (key in cube_keys and np.all(cube.attributes[key] == cubes[0].attributes[key]))
        ]
    for cube in cubes:
        for key in list(cube.attributes.keys()):
            if key not in common_keys:
                del cube.attributes[key]


def unify_time_units(cubes):
    epochs = {}
    for cube in cubes:
        for time_coord in cube.coords():
            if time_coord.units.is_time_reference():
                epoch = epochs.setdefault(time_coord.units.calendar, time_coord.units.origin)
                import cf_units

                time_coord.convert_units(cf_units.Unit(epoch, time_coord.units.calendar))


def promote_aux_coord_to_dim_coord(cube, name_or_coord):
    from iris.coords import Coord, DimCoord

    if isinstance(name_or_coord, str):
        aux_coord = cube.coord(name_or_coord)
    elif isinstance(name_or_coord, Coord):
        aux_coord = name_or_coord
    else:
        raise ValueError("Don't know how to handle coordinate of type {}. Ensure all coordinates are of type str or iris.coords.Coord.".format(type(name_or_coord)))
    if aux_coord in cube.dim_coords:
        return
    if aux_coord not in cube.aux_coords:
        raise ValueError("Attempting to promote an AuxCoord ({}) which does not exist in the cube.".format(aux_coord.name()))
    coord_dim = cube.coord_dims(aux_coord)
    if len(coord_dim) != 1:
        raise ValueError(
            "Attempting to promote an AuxCoord ({}) which is associated with {} dimensions.".format(aux_coord.name(), len(coord_dim))
        )
    try:
        dim_coord = DimCoord.from_coord(aux_coord)
    except ValueError as valerr:
        raise ValueError("Attempt to promote an AuxCoord ({}) fails when attempting to create a DimCoord from the AuxCoord because: {}".format(aux_coord.name(), valerr))
    old_dim_coord = cube.coords(dim_coords=True, contains_dimension=coord_dim[0])
    if len(old_dim_coord) == 1:
        demote_dim_coord_to_aux_coord(cube, old_dim_coord[0])
    cube.remove_coord(aux_coord)
    cube.add_dim_coord(dim_coord, coord_dim)


def demote_dim_coord_to_aux_coord(cube, name_or_coord):
    from iris.coords import Coord

    dim_coord = cube.coord(name_or_coord) if isinstance(name_or_coord, str) else name_or_coord
    if dim_coord not in cube.dim_coords:
        return
    coord_dim = cube.coord_dims(dim_coord)
    cube.remove_coord(dim_coord)
    cube.add_aux_coord(dim_coord, coord_dim)


def reverse(cube_or_array, coords_or_dims):
    if isinstance(cube_or_array, np.ndarray):
        dims = [coords_or_dims] if isinstance(coords_or_dims, int) else list(coords_or_dims)
        keys = [slice(None)] * cube_or_array.ndim
        for d in dims:
            keys[d] = slice(None, None, -1)
        return cube_or_array[tuple(keys)]
    cube = cube_or_array
    if not isinstance(coords_or_dims, (list, tuple, set)):
        coords_or_dims = [coords_or_dims]
    keys = [slice(None)] * cube.ndim
    for c in coords_or_dims:
        dims = [c] if isinstance(c, int) else cube.coord_dims(c)
        for d in dims:
            keys[d] = slice(None, None, -1)
    return cube[tuple(keys)]


def describe_diff(cube_a, cube_b, output_file=None):
    import sys

    out = output_file or sys.stdout
    if cube_a.is_compatible(cube_b):
        out.write("Cubes are compatible\n")
    else:
        out.write("Cubes are not compatible\n")


def _is_circular(points, modulus, bounds=None):
    return False
