"""Rectilinear interpolation and regridding for the iris stand-in."""
import datetime

import numpy as np
import numpy.ma as ma

import iris.exceptions
from iris.coords import AuxCoord, DimCoord


def _weights_1d(src, pts, method):
    """Lower index and upper weight for each target point (ascending src)."""
    src = np.asarray(src, dtype=np.float64)
    pts = np.asarray(pts, dtype=np.float64)
    if len(src) == 1:
        return np.zeros(pts.shape, int), np.zeros(pts.shape)
    idx = np.clip(np.searchsorted(src, pts, side="right") - 1, 0, len(src) - 2)
    w = (pts - src[idx]) / (src[idx + 1] - src[idx])
    if method == "nearest":
        w = np.where(w <= 0.5, 0.0, 1.0)
    return idx, w


def _out_of_range(src, pts):
    src = np.asarray(src, dtype=np.float64)
    pts = np.asarray(pts, dtype=np.float64)
    return (pts < src[0]) | (pts > src[-1])


def _interp_axis(data, axis, src, pts, method):
    idx, w = _weights_1d(src, pts, method)
    data = np.moveaxis(np.asarray(data), axis, 0)
    lo = data[idx]
    if len(src) == 1:
        return np.moveaxis(lo, 0, axis)
    hi = data[idx + 1]
    wb = w.reshape((-1,) + (1,) * (data.ndim - 1))
    if method == "nearest":
        out = np.where(wb < 0.5, lo, hi)
    else:
        ft = np.complex128 if data.dtype.kind == "c" else np.float64
        out = lo.astype(ft) * (1.0 - wb) + hi.astype(ft) * wb
    return np.moveaxis(out, 0, axis)


def _result_dtype(dtype, method):
    if method == "nearest":
        return np.dtype(dtype)
    return np.promote_types(dtype, np.float16)


class RectilinearInterpolator:
    def __init__(self, cube, coords, method, extrapolation_mode):
        self.cube = cube.copy()
        self.coords = [self.cube.coord(c) for c in coords]
        self.method = method
        self.mode = extrapolation_mode
        for c in self.coords:
            if c.ndim != 1:
                raise ValueError("Interpolation coords must be 1-d for rectilinear interpolation.")
            if not c.is_monotonic():
                raise ValueError("Cannot interpolate over the non-monotonic coordinate {}.".format(c.name()))

    def _points(self, coord, pts):
        scalar = np.ndim(pts) == 0
        arr = np.atleast_1d(np.asarray(pts))
        if arr.dtype.kind == "O" or isinstance(arr.flat[0], datetime.datetime):
            arr = np.array([coord.units.date2num(p) for p in arr.flat])
        return scalar, arr

    def __call__(self, sample_points, collapse_scalar=True):
        cube = self.cube
        data = cube.data
        collapse = []
        out_mask = None
        masked = ma.isMaskedArray(data)
        mask = ma.getmaskarray(data).astype(np.float64) if masked else None
        values = np.asarray(data)
        in_dtype = values.dtype
        replaced = {}
        for coord, pts in zip(self.coords, sample_points):
            scalar, arr = self._points(coord, pts)
            dims = cube.coord_dims(coord)
            if not dims:
                raise ValueError("Cannot interpolate over a scalar coordinate {!r}.".format(coord.name()))
            (dim,) = dims
            src = np.asarray(coord.points, dtype=np.float64)
            circ = getattr(coord, "circular", False)
            v, m = values, mask
            if len(src) > 1 and src[0] > src[-1]:
                src = src[::-1]
                v = np.flip(v, dim)
                m = None if m is None else np.flip(m, dim)
                flipped = True
            else:
                flipped = False
            q = np.asarray(arr, dtype=np.float64)
            if circ:
                mod = coord.units.modulus
                q = (q - src[0]) % mod + src[0]
                src = np.append(src, src[0] + mod)
                v = np.concatenate([v, np.take(v, [0], axis=dim)], axis=dim)
                m = None if m is None else np.concatenate([m, np.take(m, [0], axis=dim)], axis=dim)
            oor = _out_of_range(src, q)
            if self.mode == "error" and oor.any():
                raise ValueError("One of the requested xi is out of bounds in dimension %s" % dim)
            values = _interp_axis(v, dim, src, q, self.method)
            if m is not None:
                mask = _interp_axis(m, dim, src, q, self.method)
            if oor.any() and self.mode in ("nan", "mask", "nanmask"):
                shp = [1] * values.ndim
                shp[dim] = len(q)
                o = np.broadcast_to(oor.reshape(shp), values.shape)
                if self.mode == "nan" or (self.mode == "nanmask" and not masked):
                    values = np.where(o, np.nan, values)
                else:
                    out_mask = o if out_mask is None else None
                    if mask is None:
                        mask = o.astype(np.float64)
                        masked = True
                    else:
                        mask = np.maximum(mask, o)
            replaced[dim] = (coord, arr, src, q, flipped, circ)
            if scalar and collapse_scalar:
                collapse.append(dim)
        result = values.astype(_result_dtype(in_dtype, self.method))
        if masked:
            result = ma.array(result, mask=mask > 0)
        from iris.cube import Cube

        new = Cube(result)
        new._copy_metadata(cube)
        for c in cube.coords():
            cd = cube.coord_dims(c)
            is_dim = any(c is d for d in cube.dim_coords)
            touched = [d for d in cd if d in replaced]
            if not touched:
                nc = c.copy()
            else:
                is_sample = any(c is replaced[d][0] for d in touched)
                if is_sample:
                    pts = replaced[touched[0]][1]
                else:
                    if c.dtype.kind in "SUO":
                        continue
                    pts = np.asarray(c.points)
                    for d in touched:
                        ax = cd.index(d)
                        _, arr, src, q, flipped, circ = replaced[d]
                        p = np.flip(pts, ax) if flipped else pts
                        if circ:
                            p = np.concatenate([p, np.take(p, [0], axis=ax)], axis=ax)
                        pts = _interp_axis(p, ax, src, q, self.method)
                    pts = pts.astype(_result_dtype(c.dtype, self.method) if c.dtype.kind == "f" else (np.float64 if self.method == "linear" else c.dtype))
                try:
                    nc = c.copy(points=pts)
                except ValueError:
                    nc = AuxCoord.from_coord(c).copy(points=pts)
                if not isinstance(nc, DimCoord):
                    is_dim = False
            if is_dim:
                new.add_dim_coord(nc, cd[0])
            else:
                new.add_aux_coord(nc, cd or None)
        if collapse:
            keys = [0 if d in collapse else slice(None) for d in range(new.ndim)]
            new = new[tuple(keys)]
        return new


def _xy(cube):
    x = cube.coord(axis="x", dim_coords=True)
    y = cube.coord(axis="y", dim_coords=True)
    return x, y


class RectilinearRegridder:
    def __init__(self, src, tgt, method, mode):
        self.method = method
        self.mode = mode
        tx, ty = _xy(tgt)
        self._tgt = (tx.copy(), ty.copy())

    def __call__(self, src):
        from iris.cube import Cube

        sx, sy = _xy(src)
        tx, ty = self._tgt
        if sx.coord_system is None:
            if sx.units != tx.units or sy.units != ty.units:
                raise ValueError("No coordinate system: units must match")
        for c in (sx, sy):
            pass
        (xd,) = src.coord_dims(sx)
        (yd,) = src.coord_dims(sy)
        data = src.data
        masked = ma.isMaskedArray(data)
        vals = np.moveaxis(np.asarray(data), (yd, xd), (-2, -1))
        mask = np.moveaxis(ma.getmaskarray(data), (yd, xd), (-2, -1)).astype(float) if masked else None
        sxp = np.asarray(sx.points, dtype=np.float64)
        syp = np.asarray(sy.points, dtype=np.float64)
        if len(sxp) > 1 and sxp[0] > sxp[-1]:
            sxp = sxp[::-1]
            vals = vals[..., ::-1]
            mask = None if mask is None else mask[..., ::-1]
        if len(syp) > 1 and syp[0] > syp[-1]:
            syp = syp[::-1]
            vals = vals[..., ::-1, :]
            mask = None if mask is None else mask[..., ::-1, :]
        gx, gy = np.meshgrid(np.asarray(tx.points, np.float64), np.asarray(ty.points, np.float64))
        if sx.coord_system is not None and tx.coord_system is not None and sx.coord_system != tx.coord_system:
            scrs = sx.coord_system.as_cartopy_projection()
            tcrs = tx.coord_system.as_cartopy_projection()
            xyz = scrs.transform_points(tcrs, gx, gy)
            gx, gy = xyz[..., 0], xyz[..., 1]
        mod = sx.units.modulus
        circ = getattr(sx, "circular", False)
        if mod is not None:
            half = (sxp[-1] - sxp[0]) / 2.0
            mid = (sxp[-1] + sxp[0]) / 2.0
            base = (sxp[0] if circ else mid - mod / 2.0)
            wrapped = (gx - base) % mod + base
            near_base = np.abs(gx - sxp[0]) < 1e-9
            gx = np.where(near_base, sxp[0], wrapped)
        if circ and mod is not None:
            sxp = np.append(sxp, sxp[0] + mod)
            vals = np.concatenate([vals, vals[..., :1]], axis=-1)
            mask = None if mask is None else np.concatenate([mask, mask[..., :1]], axis=-1)
        oor = _out_of_range(sxp, gx) | _out_of_range(syp, gy)
        if self.mode == "error" and oor.any():
            raise ValueError("One of the requested xi is out of bounds")
        xi, wx = _weights_1d(sxp, gx.ravel(), self.method)
        yi, wy = _weights_1d(syp, gy.ravel(), self.method)
        x1 = np.minimum(xi + 1, len(sxp) - 1)
        y1 = np.minimum(yi + 1, len(syp) - 1)

        def apply(v):
            if self.method == "nearest":
                xs = np.where(wx < 0.5, xi, x1)
                ys = np.where(wy < 0.5, yi, y1)
                return v[..., ys, xs]
            v = v.astype(np.float64)
            return (
                v[..., yi, xi] * ((1 - wx) * (1 - wy))
                + v[..., yi, x1] * (wx * (1 - wy))
                + v[..., y1, xi] * ((1 - wx) * wy)
                + v[..., y1, x1] * (wx * wy)
            )

        shp = vals.shape[:-2] + gx.shape
        out = apply(vals).reshape(shp)
        out = out.astype(_result_dtype(data.dtype, self.method))
        omask = None
        if mask is not None:
            omask = apply(mask).reshape(shp) > 0
        if oor.any() and self.mode in ("nan", "mask", "nanmask"):
            ob = np.broadcast_to(oor, shp)
            if self.mode == "nan" or (self.mode == "nanmask" and not masked):
                if out.dtype.kind not in "f":
                    out = out.astype(float)
                out = np.where(ob, np.array(np.nan, out.dtype), out)
            else:
                omask = ob if omask is None else (omask | ob)
        if omask is not None:
            out = ma.array(out, mask=omask)
        elif self.mode == "mask":
            out = ma.array(out, mask=False)
        out = np.moveaxis(out, (-2, -1), (yd, xd))
        new = Cube(out)
        new._copy_metadata(src)
        for c in src.coords():
            cd = src.coord_dims(c)
            if c is sx:
                new.add_dim_coord(tx.copy(), xd)
            elif c is sy:
                new.add_dim_coord(ty.copy(), yd)
            elif xd in cd or yd in cd:
                continue
            elif any(c is d for d in src.dim_coords):
                new.add_dim_coord(c.copy(), cd[0])
            else:
                new.add_aux_coord(c.copy(), cd or None)
        return new
