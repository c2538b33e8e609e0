"""Aggregators and interpolation schemes of the iris stand-in."""
from collections.abc import Iterable

import numpy as np
import scipy.interpolate  # noqa: F401  (as the real package does)
import numpy.ma as ma

import iris.coords

from . import maths  # noqa: F401


class _Aggregator:
    def __init__(self, cell_method, call_func, units_func=None, lazy_func=None, **kwargs):
        self.cell_method = cell_method
        self.call_func = call_func
        self.units_func = units_func
        self.lazy_func = lazy_func
        self._kwargs = kwargs

    def name(self):
        return self.cell_method

    def aggregate(self, data, axis, **kwargs):
        kw = dict(self._kwargs)
        kw.update(kwargs)
        mdtol = kw.pop("mdtol", None)
        result = self.call_func(data, axis=axis, **kw)
        if mdtol is not None and ma.is_masked(data) and result is not ma.masked:
            fraction_not_missing = data.count(axis=axis) / data.shape[axis]
            mask_update = 1 - mdtol > fraction_not_missing
            if ma.isMaskedArray(result):
                result.mask = result.mask | mask_update
            else:
                result = ma.array(result, mask=mask_update)
        return result

    def update_metadata(self, cube, coords, **kwargs):
        kw = dict(self._kwargs)
        kw.update(kwargs)
        if not isinstance(coords, (list, tuple)):
            coords = [coords]
        if self.units_func is not None:
            cube.units = self.units_func(cube.units)
        if self.cell_method is not None:
            cm = self.cell_method.format(**kw)
            cube.add_cell_method(iris.coords.CellMethod(cm, [c.name() for c in coords]))

    def post_process(self, collapsed_cube, data_result, coords, **kwargs):
        if not isinstance(data_result, np.ndarray):
            data_result = np.asanyarray(data_result)
        if isinstance(data_result, ma.core.MaskedConstant):
            data_result = ma.array(np.zeros((), collapsed_cube.dtype), mask=True)
        if collapsed_cube.shape != data_result.shape:
            raise ValueError(
                "Require data with shape %r, got %r." % (collapsed_cube.shape, data_result.shape)
            )
        collapsed_cube._data = data_result
        return collapsed_cube

    def aggregate_shape(self, **kwargs):
        return ()


class Aggregator(_Aggregator):
    pass


class WeightedAggregator(Aggregator):
    def uses_weighting(self, **kwargs):
        return kwargs.get("weights") is not None


class PercentileAggregator(_Aggregator):
    def __init__(self, units_func=None, lazy_func=None, **kwargs):
        self._name = "percentile"
        _Aggregator.__init__(self, None, _percentile, units_func=units_func, **kwargs)

    def name(self):
        return self._name

    def post_process(self, collapsed_cube, data_result, coords, **kwargs):
        from iris.cube import CubeList

        points = kwargs["percent"]
        names = [c.name() for c in coords]
        coord_name = "{}_over_{}".format(self.name(), "_".join(names))
        if not isinstance(points, Iterable):
            points = [points]
        points = list(points)
        cubes = CubeList()
        for point in points:
            cube = collapsed_cube.copy()
            cube.add_aux_coord(iris.coords.AuxCoord(point, long_name=coord_name, units="percent"))
            cubes.append(cube)
        merged = cubes.merge_cube()
        if len(points) > 1:
            data_result = np.rollaxis(np.ma.asanyarray(data_result) if ma.isMaskedArray(data_result) else data_result, -1)
        return _Aggregator.post_process(self, merged, data_result, coords, **kwargs)


def _percentile(data, axis, percent, fast_percentile_method=False, **kwargs):
    # one point of percentiles per output, last axis holds the percentiles
    data = np.rollaxis(data, axis, data.ndim) if axis not in (-1, data.ndim - 1) else data
    shape = data.shape[:-1]
    if shape:
        data = data.reshape([int(np.prod(shape)), data.shape[-1]])
    quantiles = np.array(percent) / 100.0
    if fast_percentile_method:
        if ma.is_masked(data):
            raise TypeError("Cannot use fast np.percentile method with masked array.")
        result = np.percentile(np.asarray(data), percent, axis=-1)
        result = result.T
    else:
        import scipy.stats

        result = scipy.stats.mstats.mquantiles(data, quantiles, axis=-1, **kwargs)
    if not ma.isMaskedArray(data) and not ma.is_masked(result):
        result = np.asarray(result)
    else:
        result = ma.MaskedArray(result)
    if shape:
        n = quantiles.size
        result = result.reshape(shape + ((n,) if np.ndim(percent) else ()) if np.ndim(percent) and n > 1 else shape)
    elif quantiles.size == 1:
        result = np.asanyarray(result).reshape(())
    return result


def _sum(array, **kwargs):
    kwargs = dict(kwargs)
    kwargs.pop("returned", None)
    w = kwargs.pop("weights", None)
    axis = kwargs.pop("axis")
    if w is not None:
        return np.sum(w * array, axis=axis)
    return np.sum(array, axis=axis)


def _ma(fn, **fixed):
    def call(data, axis=None, **kwargs):
        kw = dict(fixed)
        kw.update(kwargs)
        return fn(data, axis=axis, **kw)

    return call


def _mean(data, axis=None, weights=None, returned=False):
    res = ma.average(data, axis=axis, weights=weights)
    if not ma.isMaskedArray(data) and ma.isMaskedArray(res):
        res = res.data if ma.getmask(res) is ma.nomask else res
    return res


def _unmask(fn):
    def call(data, axis=None, **kw):
        res = fn(data, axis=axis, **kw)
        if not ma.isMaskedArray(data) and ma.isMaskedArray(res) and not ma.is_masked(res):
            res = res.data
        return res

    return call


def _rms(array, axis, **kwargs):
    return np.sqrt(ma.average(array ** 2, axis=axis, **kwargs))


def _proportion(array, function, axis, **kwargs):
    n = array.count(axis) if ma.isMaskedArray(array) else array.shape[axis]
    return _count(array, function=function, axis=axis) / n


def _count(array, function=None, axis=None, **kwargs):
    return ma.sum(function(array), axis=axis, **kwargs)


MEAN = WeightedAggregator("mean", _mean)
SUM = WeightedAggregator("sum", _sum)
STD_DEV = Aggregator("standard_deviation", _unmask(ma.std), ddof=1)
VARIANCE = Aggregator("variance", _unmask(ma.var), ddof=1, units_func=lambda units: units * units)
MEDIAN = Aggregator("median", _unmask(ma.median))
MIN = Aggregator("minimum", _unmask(ma.min))
MAX = Aggregator("maximum", _unmask(ma.max))
RMS = WeightedAggregator("root mean square", _rms)
COUNT = Aggregator("count", _count, units_func=lambda units: 1)
PROPORTION = Aggregator("proportion", _proportion, units_func=lambda units: 1)
PERCENTILE = PercentileAggregator(alphap=1, betap=1)

EXTRAPOLATION_MODES = ("extrapolate", "linear", "error", "mask", "nan", "nanmask")


class Linear:
    def __init__(self, extrapolation_mode="linear"):
        if extrapolation_mode not in ("extrapolate", "linear", "error", "mask", "nan", "nanmask"):
            raise ValueError("Extrapolation mode {!r} not supported.".format(extrapolation_mode))
        self.extrapolation_mode = extrapolation_mode

    def __repr__(self):
        return "Linear({!r})".format(self.extrapolation_mode)

    def interpolator(self, cube, coords):
        from ._interp import RectilinearInterpolator

        return RectilinearInterpolator(cube, coords, "linear", self.extrapolation_mode)

    def regridder(self, src, target):
        from ._interp import RectilinearRegridder

        return RectilinearRegridder(src, target, "linear", self.extrapolation_mode)


class Nearest:
    def __init__(self, extrapolation_mode="extrapolate"):
        if extrapolation_mode not in ("extrapolate", "error", "mask", "nan", "nanmask", "linear"):
            raise ValueError("Extrapolation mode {!r} not supported.".format(extrapolation_mode))
        self.extrapolation_mode = extrapolation_mode

    def __repr__(self):
        return "Nearest({!r})".format(self.extrapolation_mode)

    def interpolator(self, cube, coords):
        from ._interp import RectilinearInterpolator

        return RectilinearInterpolator(cube, coords, "nearest", self.extrapolation_mode)

    def regridder(self, src, target):
        from ._interp import RectilinearRegridder

        return RectilinearRegridder(src, target, "nearest", self.extrapolation_mode)


class AreaWeighted:
    def __init__(self, mdtol=1):
        self.mdtol = mdtol


def clear_phenomenon_identity(cube):
    cube.rename(None)
    cube.attributes.pop("STASH", None)
