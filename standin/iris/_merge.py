"""Cube merging and concatenation for the iris stand-in.

Semantics: scalar coordinates whose values differ between the source cubes
span new leading dimensions; see the iris user guide, "Merging and
concatenating".
"""
import itertools

import numpy as np
import numpy.ma as ma

import iris.exceptions
from iris._common import _attr_equal
from iris.coords import AuxCoord, Cell, DimCoord

_HINTS = ["time", "forecast_reference_time", "forecast_period"]
_AXIS = {"T": 0, "Z": 1, "Y": 2, "X": 3}


def _coord_key(coord):
    from iris.util import guess_coord_axis

    return (
        not np.issubdtype(coord.dtype, np.number),
        not isinstance(coord, DimCoord),
        _HINTS.index(coord.name()) - len(_HINTS) if coord.name() in _HINTS else len(_HINTS) + 1,
        _AXIS.get(guess_coord_axis(coord), len(_AXIS) + 1),
        coord.metadata._sort_key(),
    )


class _Sig:
    def __init__(self, cube):
        self.cube = cube
        self.md = cube.metadata
        self.shape = cube.shape
        self.dtype = cube.dtype
        self.scalars = []
        self.vdim = []
        self.vaux = []
        dim_ids = {id(c) for c in cube.dim_coords}
        for coord in sorted(cube.coords(), key=_coord_key):
            dims = cube.coord_dims(coord)
            if not dims and coord.shape == (1,):
                self.scalars.append(coord)
            elif id(coord) in dim_ids:
                self.vdim.append((coord, dims))
            else:
                self.vaux.append((coord, dims))

    def differences(self, other):
        msgs = []
        a, b = self.md, other.md
        if a.standard_name != b.standard_name or a.long_name != b.long_name or a.var_name != b.var_name:
            for f in ("standard_name", "long_name", "var_name"):
                if getattr(a, f) != getattr(b, f):
                    msgs.append("cube.%s differs: %r != %r" % (f, getattr(a, f), getattr(b, f)))
        if a.units != b.units:
            msgs.append("cube.units differ: %r != %r" % (a.units, b.units))
        if a.attributes != b.attributes:
            diff_keys = set(a.attributes.keys()) ^ set(b.attributes.keys())
            if diff_keys:
                msgs.append("cube.attributes keys differ: " + ", ".join(repr(k) for k in sorted(diff_keys)))
            else:
                ks = [k for k in a.attributes if not _attr_equal(a.attributes[k], b.attributes[k])]
                msgs.append("cube.attributes values differ for keys: " + ", ".join(repr(k) for k in sorted(ks)))
        if a.cell_methods != b.cell_methods:
            msgs.append("cube.cell_methods differ")
        if self.shape != other.shape:
            msgs.append("cube.shape differs: %s != %s" % (self.shape, other.shape))
        if self.dtype != other.dtype:
            msgs.append("cube data dtype differs: {} != {}".format(self.dtype, other.dtype))
        sa = [c.metadata for c in self.scalars]
        sb = [c.metadata for c in other.scalars]
        if len(sa) != len(sb) or any(x != y for x, y in zip(sa, sb)):
            na = [c.name() for c in self.scalars]
            nb = [c.name() for c in other.scalars]
            names = [n for n in na if n not in nb] + [n for n in nb if n not in na]
            if not names:
                names = [x.name() for x, y in zip(sa, sb) if x != y]
            msgs.append("Coordinates in cube.aux_coords (scalar) differ: %s." % ", ".join(names))
        for label, va, vb in (("dim_coords", self.vdim, other.vdim), ("aux_coords (non-scalar)", self.vaux, other.vaux)):
            if len(va) != len(vb) or any(d1 != d2 or c1 != c2 for (c1, d1), (c2, d2) in zip(va, vb)):
                names = sorted({c.name() for c, _ in va} ^ {c.name() for c, _ in vb}) or [
                    c1.name() for (c1, d1), (c2, d2) in zip(va, vb) if d1 != d2 or c1 != c2
                ]
                msgs.append("Coordinates in cube.%s differ: %s." % (label, ", ".join(names)))
        return msgs


def _cellkey(coord):
    p = coord.points.reshape(-1)[0]
    p = p.item() if hasattr(p, "item") else p
    b = None
    if coord.has_bounds():
        b = tuple(x.item() if hasattr(x, "item") else x for x in coord.bounds.reshape(-1))
    return (p, b)


def _sort_cells(keys):
    return sorted(keys, key=lambda k: Cell(k[0], k[1])) if len(keys) > 1 else list(keys)


def _stack(datas, shape):
    lazy = [d for d in datas if hasattr(d, "compute") and not isinstance(d, np.ndarray)]
    datas = [d.compute() if hasattr(d, "compute") and not isinstance(d, np.ndarray) else d for d in datas]
    if any(ma.isMaskedArray(d) for d in datas):
        out = ma.stack([ma.asarray(d) for d in datas])
        if out.mask is not ma.nomask:
            out.mask = ma.getmaskarray(out).copy()
    else:
        out = np.stack([np.asarray(d) for d in datas])
    return out


def merge_group(sigs, unique=True):
    """Merge cubes sharing one signature. Returns a list of cubes."""
    from iris.cube import Cube

    first = sigs[0]
    n = len(sigs)
    names = list(range(len(first.scalars)))
    keys = [[_cellkey(s.scalars[i]) for i in names] for s in sigs]
    # duplicates
    groups = {}
    for s, k in zip(sigs, keys):
        groups.setdefault(tuple(k), []).append(s)
    depth = max(len(v) for v in groups.values())
    if depth > 1:
        if unique:
            dup = [v for v in groups.values() if len(v) > 1][0][0]
            raise iris.exceptions.DuplicateDataError(
                "Duplicate %r cube, with scalar coordinates %s"
                % (
                    dup.cube.name(),
                    ", ".join("%s=%s" % (c.name(), c.cell(0)) for c in dup.scalars),
                )
            )
        out = []
        for lvl in range(depth):
            sub = [v[lvl] for v in groups.values() if len(v) > lvl]
            out.extend(merge_group(sub, unique=False))
        return out
    uniq = {i: _sort_cells(list(dict.fromkeys(k[i] for k in keys))) for i in names}
    varying = [i for i in names if len(uniq[i]) > 1]
    # pairwise separability -> groups
    adj = {i: set() for i in varying}
    for i, j in itertools.combinations(varying, 2):
        pairs = {(k[i], k[j]) for k in keys}
        if len(pairs) != len(uniq[i]) * len(uniq[j]):
            adj[i].add(j)
            adj[j].add(i)
    seen, comps = set(), []
    for i in varying:
        if i in seen:
            continue
        comp, todo = [], [i]
        while todo:
            x = todo.pop()
            if x in seen:
                continue
            seen.add(x)
            comp.append(x)
            todo.extend(adj[x])
        comps.append(sorted(comp))
    dims = []  # each: dict(values=[...], members)
    for comp in comps:
        combos = list(dict.fromkeys(tuple(k[i] for i in comp) for k in keys))
        found = None
        for r in range(1, len(comp) + 1):
            for sub in itertools.combinations(comp, r):
                size = 1
                for i in sub:
                    size *= len(uniq[i])
                if size != len(combos):
                    continue
                pos = [comp.index(i) for i in sub]
                if len({tuple(c[p] for p in pos) for c in combos}) == len(combos):
                    found = sub
                    break
            if found:
                break
        if found:
            dims.append(("sep", comp, found, combos))
        else:
            dims.append(("anon", comp, None, combos))
    # full grid check
    total = 1
    for d in dims:
        total *= len(d[3])
    if total != n:
        # inseparable overall: one anonymous dimension for everything
        comp = varying
        combos = list(dict.fromkeys(tuple(k[i] for i in comp) for k in keys))
        found = None
        for i in comp:
            if len(uniq[i]) == n:
                found = (i,)
                break
        dims = [("sep" if found else "anon", comp, found, combos)]
    # layout of the new dimensions
    axes = []  # (kind, payload) one per new dimension
    for kind, comp, found, combos in dims:
        if kind == "sep":
            for i in found:
                axes.append((min(found), i, ("coord", i)))
        else:
            axes.append((min(comp), -1, ("anon", comp, combos)))
    from iris.util import guess_coord_axis

    def axis_then_position(a):
        # new dimensions: coordinates without an axis first, then T, Z, Y, X
        if a[1] < 0:
            return (0, a[0])
        axis = guess_coord_axis(first.scalars[a[1]])
        return ({"T": 1, "Z": 2, "Y": 3, "X": 4}.get(axis, 0), a[1])

    axes.sort(key=axis_then_position)
    axes = [a[2] for a in axes]
    shape = []
    for ax in axes:
        shape.append(len(uniq[ax[1]]) if ax[0] == "coord" else len(ax[2]))
    ordered = [None] * (int(np.prod(shape)) if shape else 1)
    index_of = []
    for s, k in zip(sigs, keys):
        idx = []
        for ax in axes:
            if ax[0] == "coord":
                idx.append(uniq[ax[1]].index(k[ax[1]]))
            else:
                idx.append(ax[2].index(tuple(k[i] for i in ax[1])))
        flat = int(np.ravel_multi_index(idx, shape)) if shape else 0
        ordered[flat] = s
        index_of.append(idx)
    if shape:
        data = _stack([s.cube.core_data() for s in ordered], None)
        data = data.reshape(tuple(shape) + first.shape)
        if ma.isMaskedArray(data) and ma.count_masked(data) == 0 and not any(
            ma.isMaskedArray(s.cube.core_data()) for s in sigs
        ):
            data = data.data
    else:
        data = first.cube.core_data()
    nd = len(shape)
    cube = Cube(data)
    cube.metadata = first.md
    covered = set()
    pending_aux = []
    axis_of = {ax[1]: d for d, ax in enumerate(axes) if ax[0] == "coord"}
    for i in names:
        template = first.scalars[i]
        if i not in varying:
            cube.add_aux_coord(template.copy())
        elif i in axis_of:
            pts = np.array([k[0] for k in uniq[i]], dtype=template.dtype if template.dtype.kind not in "SU" else None)
            bds = None
            if template.has_bounds():
                bds = np.array([k[1] for k in uniq[i]], dtype=template.bounds_dtype)
            _add(cube, template, pts, bds, (axis_of[i],), covered, True)
        else:
            pending_aux.append(i)
    for i in pending_aux:
        template = first.scalars[i]
        # which axes does it depend on?
        dep = None
        cand_axes = range(nd)
        for r in range(1, nd + 1):
            for sub in itertools.combinations(cand_axes, r):
                mp = {}
                ok = True
                for idx, k in zip(index_of, keys):
                    t = tuple(idx[a] for a in sub)
                    if mp.setdefault(t, k[i]) != k[i]:
                        ok = False
                        break
                if ok:
                    dep = (sub, mp)
                    break
            if dep:
                break
        sub, mp = dep
        shp = tuple(shape[a] for a in sub)
        flat_p = [mp[t][0] for t in itertools.product(*[range(x) for x in shp])]
        pts = np.array(flat_p, dtype=template.dtype if template.dtype.kind not in "SU" else None).reshape(shp)
        bds = None
        if template.has_bounds():
            bds = np.array(
                [mp[t][1] for t in itertools.product(*[range(x) for x in shp])], dtype=template.bounds_dtype
            ).reshape(shp + (-1,))
        _add(cube, template, pts, bds, sub, covered, False)
    for coord, cdims in first.vdim:
        cube.add_dim_coord(coord.copy(), cdims[0] + nd)
    for coord, cdims in first.vaux:
        cube.add_aux_coord(coord.copy(), [d + nd for d in cdims] or None)
    for av in first.cube.ancillary_variables():
        cube.add_ancillary_variable(av.copy(), [d + nd for d in first.cube.ancillary_variable_dims(av)])
    for cm in first.cube.cell_measures():
        cube.add_cell_measure(cm.copy(), [d + nd for d in first.cube.cell_measure_dims(cm)])
    return [cube]


def _add(cube, template, pts, bds, dims, covered, is_dim):
    kwargs = dict(
        standard_name=template.standard_name,
        long_name=template.long_name,
        var_name=template.var_name,
        units=template.units,
        attributes=template.attributes,
        coord_system=template.coord_system,
    )
    try:
        coord = DimCoord(pts, bounds=bds, **kwargs)
        if len(dims) == 1 and dims[0] not in covered:
            cube.add_dim_coord(coord, dims[0])
            covered.add(dims[0])
        else:
            cube.add_aux_coord(coord, dims)
    except ValueError:
        coord = AuxCoord(pts, bounds=bds, **kwargs)
        cube.add_aux_coord(coord, dims)


def merge_cube(cubes):
    if not cubes:
        raise ValueError("can't merge an empty CubeList")
    sigs = [_Sig(c) for c in cubes]
    for s in sigs[1:]:
        msgs = sigs[0].differences(s)
        if msgs:
            raise iris.exceptions.MergeError(msgs)
    out = merge_group(sigs, unique=True)
    if len(out) != 1:
        raise iris.exceptions.MergeError(["An unexpected problem prevented merging."])
    return out[0]


def merge(cubes, unique=True):
    from iris.cube import CubeList

    groups = []
    for cube in cubes:
        s = _Sig(cube)
        for g in groups:
            if not g[0].differences(s):
                g.append(s)
                break
        else:
            groups.append([s])
    out = CubeList()
    # iris keeps cubes of one name together, in order of first appearance
    order = {}
    for g in groups:
        order.setdefault(g[0].cube.name(), len(order))
    for g in sorted(groups, key=lambda g: order[g[0].cube.name()]):
        out.extend(merge_group(g, unique))
    return out


# ------------------------------------------------------------- concatenate
def _concat_pair_axis(a, b):
    """Dimension along which b can follow a, or raise with reasons."""
    msgs = []
    ma_, mb = a.metadata, b.metadata
    if ma_ != mb:
        msgs.append("Cube metadata differs for phenomenon: %s" % a.name())
    if a.ndim != b.ndim:
        msgs.append("An unexpected dimension mismatch: %s != %s" % (a.ndim, b.ndim))
        raise iris.exceptions.ConcatenateError(msgs)
    if a.dtype != b.dtype:
        msgs.append("Data types differ: %s != %s" % (a.dtype, b.dtype))
    da = [(c.metadata, a.coord_dims(c)) for c in a.dim_coords]
    db = [(c.metadata, b.coord_dims(c)) for c in b.dim_coords]
    if len(da) != len(db) or any(x != y for x, y in zip(da, db)):
        msgs.append("Dimension coordinates differ: %s != %s" % (", ".join(c.name() for c in a.dim_coords), ", ".join(c.name() for c in b.dim_coords)))
    na = sorted((c.name() for c in a.aux_coords))
    nb = sorted((c.name() for c in b.aux_coords))
    if na != nb:
        msgs.append("Auxiliary coordinates differ: %s != %s" % (", ".join(na), ", ".join(nb)))
    if msgs:
        raise iris.exceptions.ConcatenateError(msgs)
    axes = []
    for ca, cb in zip(a.dim_coords, b.dim_coords):
        if ca != cb:
            axes.append(a.coord_dims(ca)[0])
    if len(axes) != 1:
        raise iris.exceptions.ConcatenateError(["Expected only a single axis to differ"] if axes else ["Cubes do not differ in any dimension coordinate"])
    ax = axes[0]
    for c in a.aux_coords:
        cd = a.coord_dims(c)
        other = b.coord(c.name())
        if ax not in cd:
            if c != other:
                if not cd:
                    raise iris.exceptions.ConcatenateError(["Scalar coordinates values or metadata differ: %s != %s" % (c.name(), other.name())])
                raise iris.exceptions.ConcatenateError(["Auxiliary coordinates differ: %s" % c.name()])
        elif c.metadata != other.metadata:
            raise iris.exceptions.ConcatenateError(["Auxiliary coordinates differ: %s != %s" % (c.name(), other.name())])
    return ax


def _concat(cubes):
    from iris.cube import Cube

    if len(cubes) == 1:
        return cubes[0]
    ax = None
    for c in cubes[1:]:
        this = _concat_pair_axis(cubes[0], c)
        if ax is not None and this != ax:
            raise iris.exceptions.ConcatenateError(["Cubes differ along several dimensions"])
        ax = this
    dc = cubes[0].coord(dimensions=ax, dim_coords=True)
    cubes = sorted(cubes, key=lambda c: c.coord(dc.name()).points[0], reverse=bool(len(dc.points) > 1 and dc.points[0] > dc.points[-1]))
    prev = None
    for c in cubes:
        pts = c.coord(dc.name()).points
        lo, hi = min(pts), max(pts)
        if prev is not None and lo <= prev and not (len(dc.points) > 1 and dc.points[0] > dc.points[-1]):
            raise iris.exceptions.ConcatenateError(["Found cubes with overlap on concatenate axis %s, skipping concatenation for these cubes" % dc.name()])
        prev = hi
    datas = [c.data for c in cubes]
    if any(ma.isMaskedArray(d) for d in datas):
        data = ma.concatenate(datas, axis=ax)
    else:
        data = np.concatenate(datas, axis=ax)
    cube = Cube(data)
    cube.metadata = cubes[0].metadata
    for c in cubes[0].coords():
        cd = cubes[0].coord_dims(c)
        is_dim = any(c is d for d in cubes[0].dim_coords)
        if ax in cd:
            pos = cd.index(ax)
            pts = np.concatenate([q.coord(c.name()).points for q in cubes], axis=pos)
            bds = None
            if c.has_bounds():
                bds = np.concatenate([q.coord(c.name()).bounds for q in cubes], axis=pos)
            new = (
                DimCoord(pts, bounds=bds, standard_name=c.standard_name, long_name=c.long_name, var_name=c.var_name, units=c.units, attributes=c.attributes, coord_system=c.coord_system)
                if is_dim
                else AuxCoord(pts, bounds=bds, standard_name=c.standard_name, long_name=c.long_name, var_name=c.var_name, units=c.units, attributes=c.attributes, coord_system=c.coord_system)
            )
        else:
            new = c.copy()
        if is_dim:
            cube.add_dim_coord(new, cd[0])
        else:
            cube.add_aux_coord(new, cd or None)
    return cube


def concatenate_cube(cubes):
    names = {c.name() for c in cubes}
    if len(names) > 1:
        raise iris.exceptions.ConcatenateError(["Cube names differ: {} != {}".format(*sorted(names)[:2])])
    return _concat(list(cubes))


def concatenate(cubes):
    from iris.cube import CubeList

    groups = []
    for c in cubes:
        for g in groups:
            try:
                if g[0].name() == c.name():
                    _concat(g + [c])
                    g.append(c)
                    break
            except (iris.exceptions.ConcatenateError, ValueError, iris.exceptions.CoordinateNotFoundError):
                continue
        else:
            groups.append([c])
    return CubeList([_concat(g) for g in groups])
