"""Stand-in for python-stratify: vertical interpolation of monotonic columns.

interpolate(z_target, z_src, fz_src, axis, interpolation="linear",
extrapolation="nan", rising=None): for each column the source levels are
walked from the first; the first interval whose levels straddle a target gives
the value.  Levels are expected to rise (rising=True) or fall (rising=False)
along the axis.
"""
import numpy as np

INTERPOLATE_LINEAR = "linear"
INTERPOLATE_NEAREST = "nearest"
EXTRAPOLATE_NAN = "nan"
EXTRAPOLATE_NEAREST = "nearest"
EXTRAPOLATE_LINEAR = "linear"


def interpolate(z_target, z_src, fz_src, axis=-1, interpolation="linear", extrapolation="nan", rising=None):
    z_src = np.asarray(z_src, dtype=np.float64)
    fdt = np.promote_types(np.asarray(fz_src).dtype, np.float32) if np.asarray(fz_src).dtype == np.float32 else np.float64
    fz = np.asarray(fz_src, dtype=np.float64)
    zt = np.asarray(z_target, dtype=np.float64)
    zs = np.moveaxis(z_src, axis, 0)
    f = np.moveaxis(fz, axis, 0)
    n = zs.shape[0]
    if rising is None:
        first = zs[:2].reshape(2, -1)[:, :1]
        rising = bool(first[0, 0] <= first[1, 0]) if n > 1 else True
    sign = 1.0 if rising else -1.0
    zs = zs * sign
    out = np.full((len(zt),) + zs.shape[1:], np.nan)
    for k, t in enumerate(zt * sign):
        done = np.zeros(zs.shape[1:], bool)
        # below the first level
        low = ~(t >= zs[0])
        low &= ~np.isnan(zs[0])
        for i in range(n - 1):
            lo, hi = zs[i], zs[i + 1]
            with np.errstate(all="ignore"):
                hit = ~done & ~low & (lo <= t) & (t <= hi)
                w = np.where(hi == lo, 0.0, (t - lo) / np.where(hi == lo, 1.0, hi - lo))
            val = f[i] + w * (f[i + 1] - f[i])
            out[k] = np.where(hit, val, out[k])
            done |= hit
        rest = ~done
        if extrapolation == EXTRAPOLATE_NEAREST:
            out[k] = np.where(rest & low, f[0], out[k])
            out[k] = np.where(rest & ~low, f[-1], out[k])
    return np.moveaxis(out, 0, axis)
