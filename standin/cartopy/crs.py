"""Coordinate reference systems for the cartopy stand-in, backed by libproj."""
import ctypes
import ctypes.util
import math

import numpy as np

_WGS84_A, _WGS84_B = 6378137.0, 6356752.314245179


class Globe:
    def __init__(self, datum=None, ellipse="WGS84", semimajor_axis=None, semiminor_axis=None, flattening=None, inverse_flattening=None, towgs84=None, nadgrids=None):
        self.datum = datum
        self.ellipse = ellipse
        self.semimajor_axis = semimajor_axis
        self.semiminor_axis = semiminor_axis
        self.flattening = flattening
        self.inverse_flattening = inverse_flattening

    def ab(self):
        a = self.semimajor_axis
        b = self.semiminor_axis
        if a is None and b is None:
            return _WGS84_A, _WGS84_B
        if a is None:
            a = b
        if b is None:
            b = a * (1 - 1 / self.inverse_flattening) if self.inverse_flattening else a
        return float(a), float(b)

    def __eq__(self, other):
        return isinstance(other, Globe) and self.ab() == other.ab()

    def __ne__(self, other):
        return not self == other

    def __hash__(self):
        return hash(self.ab())


class CRS:
    def __init__(self, globe=None, params=()):
        self.globe = globe if globe is not None else Globe()
        self._params = tuple(params)

    def __eq__(self, other):
        return type(self) is type(other) and self._params == other._params and self.globe == other.globe

    def __ne__(self, other):
        return not self == other

    def __hash__(self):
        return hash((type(self), self._params, self.globe))

    def __repr__(self):
        return "<cartopy.crs.%s object>" % type(self).__name__

    # every CRS converts to and from geodetic lon/lat (degrees) on its globe
    def _to_ll(self, x, y):
        raise NotImplementedError

    def _from_ll(self, lon, lat):
        raise NotImplementedError

    def transform_points(self, src_crs, x, y, z=None, trap=False):
        x = np.asarray(x, dtype=np.float64)
        y = np.asarray(y, dtype=np.float64)
        if x.shape != y.shape:
            raise ValueError("x and y arrays must have the same length")
        if self == src_crs and not isinstance(self, (Geocentric,)):
            ox, oy, oz = x.copy(), y.copy(), np.zeros_like(x)
            if isinstance(self, (Geodetic, PlateCarree)):
                ox = _wrap(ox)
        elif isinstance(self, Geocentric):
            lon, lat = src_crs._to_ll(x, y)
            ox, oy, oz = self._cartesian(lon, lat)
        else:
            lon, lat = src_crs._to_ll(x, y)
            ox, oy = self._from_ll(lon, lat)
            oz = np.zeros_like(ox)
        return np.stack([ox, oy, oz], axis=-1)

    def transform_point(self, x, y, src_crs, trap=True):
        r = self.transform_points(src_crs, np.array([x]), np.array([y]))[0]
        return (float(r[0]), float(r[1]))

    def as_geodetic(self):
        return Geodetic(self.globe)

    def as_geocentric(self):
        return Geocentric(self.globe)


def _wrap(lon):
    lon = np.where(lon > 180.0, (lon + 180.0) % 360.0 - 180.0, lon)
    return np.where(lon < -180.0, (lon + 180.0) % 360.0 - 180.0, lon)


class Geodetic(CRS):
    def _to_ll(self, x, y):
        return x, y

    def _from_ll(self, lon, lat):
        return _wrap(lon), lat


class Geocentric(CRS):
    def _cartesian(self, lon, lat):
        a, b = self.globe.ab()
        e2 = 1 - (b * b) / (a * a)
        lo, la = np.deg2rad(lon), np.deg2rad(lat)
        n = a / np.sqrt(1 - e2 * np.sin(la) ** 2)
        return n * np.cos(la) * np.cos(lo), n * np.cos(la) * np.sin(lo), n * (1 - e2) * np.sin(la)


class Projection(CRS):
    pass


class PlateCarree(Projection):
    def __init__(self, central_longitude=0.0, globe=None):
        super().__init__(globe, (float(central_longitude),))

    def _to_ll(self, x, y):
        return x + self._params[0], y

    def _from_ll(self, lon, lat):
        return _wrap(lon - self._params[0]), lat


class LambertAzimuthalEqualArea(Projection):
    def __init__(self, central_longitude=0.0, central_latitude=0.0, false_easting=0.0, false_northing=0.0, globe=None):
        super().__init__(globe, (float(central_longitude), float(central_latitude), float(false_easting), float(false_northing)))
        a, b = self.globe.ab()
        self._e = e = math.sqrt(max(0.0, 1 - (b * b) / (a * a)))
        self._a = a
        self._qp = self._q(math.pi / 2)
        self._Rq = a * math.sqrt(self._qp / 2)
        la0 = math.radians(self._params[1])
        s = math.sin(la0)
        self._b0 = math.asin(max(-1.0, min(1.0, self._q(la0) / self._qp)))
        m0 = math.cos(la0) / math.sqrt(1 - e * e * s * s)
        cb = math.cos(self._b0)
        self._D = a * m0 / (self._Rq * cb) if cb > 1e-12 else 1.0

    def _q(self, lat):
        e = self._e
        s = np.sin(lat)
        if e < 1e-12:
            return 2 * s
        return (1 - e * e) * (s / (1 - e * e * s * s) - (1 / (2 * e)) * np.log((1 - e * s) / (1 + e * s)))

    def _from_ll(self, lon, lat):
        lo0, _, fe, fn = self._params
        dl = np.deg2rad(lon - lo0)
        beta = np.arcsin(np.clip(self._q(np.deg2rad(np.asarray(lat, float))) / self._qp, -1, 1))
        b0 = self._b0
        B = self._Rq * np.sqrt(2 / (1 + math.sin(b0) * np.sin(beta) + math.cos(b0) * np.cos(beta) * np.cos(dl)))
        x = B * self._D * np.cos(beta) * np.sin(dl)
        y = (B / self._D) * (math.cos(b0) * np.sin(beta) - math.sin(b0) * np.cos(beta) * np.cos(dl))
        return x + fe, y + fn

    def _to_ll(self, x, y):
        lo0, la0, fe, fn = self._params
        x = np.asarray(x, float) - fe
        y = np.asarray(y, float) - fn
        D, b0 = self._D, self._b0
        rho = np.sqrt((x / D) ** 2 + (D * y) ** 2)
        ce = 2 * np.arcsin(np.clip(rho / (2 * self._Rq), -1, 1))
        with np.errstate(divide="ignore", invalid="ignore"):
            q = np.where(rho == 0, self._qp * math.sin(b0), self._qp * (np.cos(ce) * math.sin(b0) + np.where(rho == 0, 0, D * y * np.sin(ce) * math.cos(b0) / np.where(rho == 0, 1, rho))))
        lon = np.arctan2(x * np.sin(ce), D * rho * math.cos(b0) * np.cos(ce) - D * D * y * math.sin(b0) * np.sin(ce))
        lat = np.arcsin(np.clip(q / 2, -1, 1))
        e = self._e
        if e > 1e-12:
            for _ in range(10):
                s = np.sin(lat)
                t = 1 - e * e * s * s
                c = np.cos(lat)
                upd = (t * t / (2 * np.where(np.abs(c) < 1e-12, 1, c))) * (
                    q / (1 - e * e) - s / t + (1 / (2 * e)) * np.log((1 - e * s) / (1 + e * s))
                )
                lat = lat + np.where(np.abs(c) < 1e-12, 0, upd)
        return _wrap(np.rad2deg(lon) + lo0), np.rad2deg(lat)


class Mercator(Projection):
    def __init__(self, central_longitude=0.0, globe=None, **kw):
        super().__init__(globe, (float(central_longitude),))

    def _e(self):
        a, b = self.globe.ab()
        return a, math.sqrt(max(0.0, 1 - (b * b) / (a * a)))

    def _from_ll(self, lon, lat):
        a, e = self._e()
        la = np.deg2rad(np.asarray(lat, float))
        s = np.sin(la)
        y = a * np.log(np.tan(np.pi / 4 + la / 2) * ((1 - e * s) / (1 + e * s)) ** (e / 2))
        return a * np.deg2rad(_wrap(lon - self._params[0])), y

    def _to_ll(self, x, y):
        a, e = self._e()
        t = np.exp(-np.asarray(y, float) / a)
        la = np.pi / 2 - 2 * np.arctan(t)
        for _ in range(15):
            s = np.sin(la)
            la = np.pi / 2 - 2 * np.arctan(t * ((1 - e * s) / (1 + e * s)) ** (e / 2))
        return _wrap(np.rad2deg(np.asarray(x, float) / a) + self._params[0]), np.rad2deg(la)


class LambertConformal(Projection):
    def __init__(self, central_longitude=-96.0, central_latitude=39.0, false_easting=0.0, false_northing=0.0, secant_latitudes=None, standard_parallels=None, globe=None, cutoff=-30):
        sp = standard_parallels or secant_latitudes or (33, 45)
        super().__init__(globe, (float(central_longitude), float(central_latitude), float(false_easting), float(false_northing), float(sp[0]), float(sp[-1])))
        a, b = self.globe.ab()
        e = self._ee = math.sqrt(max(0.0, 1 - (b * b) / (a * a)))
        self._a = a
        p1, p2, p0 = map(math.radians, (self._params[4], self._params[5], self._params[1]))
        m = lambda p: math.cos(p) / math.sqrt(1 - e * e * math.sin(p) ** 2)
        t = lambda p: math.tan(math.pi / 4 - p / 2) / ((1 - e * math.sin(p)) / (1 + e * math.sin(p))) ** (e / 2)
        self._n = (math.log(m(p1)) - math.log(m(p2))) / (math.log(t(p1)) - math.log(t(p2))) if p1 != p2 else math.sin(p1)
        self._F = m(p1) / (self._n * t(p1) ** self._n)
        self._r0 = a * self._F * t(p0) ** self._n

    def _from_ll(self, lon, lat):
        e = self._ee
        la = np.deg2rad(np.asarray(lat, float))
        s = np.sin(la)
        t = np.tan(np.pi / 4 - la / 2) / ((1 - e * s) / (1 + e * s)) ** (e / 2)
        r = self._a * self._F * t ** self._n
        th = self._n * np.deg2rad(_wrap(lon - self._params[0]))
        return r * np.sin(th) + self._params[2], self._r0 - r * np.cos(th) + self._params[3]

    def _to_ll(self, x, y):
        e, n = self._ee, self._n
        x = np.asarray(x, float) - self._params[2]
        y = self._r0 - (np.asarray(y, float) - self._params[3])
        sg = math.copysign(1, n)
        r = sg * np.sqrt(x * x + y * y)
        t = (r / (self._a * self._F)) ** (1 / n)
        th = np.arctan2(sg * x, sg * y)
        la = np.pi / 2 - 2 * np.arctan(t)
        for _ in range(15):
            s = np.sin(la)
            la = np.pi / 2 - 2 * np.arctan(t * ((1 - e * s) / (1 + e * s)) ** (e / 2))
        return _wrap(np.rad2deg(th / n) + self._params[0]), np.rad2deg(la)


class TransverseMercator(Projection):
    def __init__(self, central_longitude=0.0, central_latitude=0.0, false_easting=0.0, false_northing=0.0, scale_factor=1.0, globe=None, approx=None):
        super().__init__(globe, (float(central_longitude), float(central_latitude), float(false_easting), float(false_northing), float(scale_factor)))
        a, b = self.globe.ab()
        n = (a - b) / (a + b)
        self._n = n
        self._A = a / (1 + n) * (1 + n ** 2 / 4 + n ** 4 / 64)
        self._al = [n / 2 - 2 * n ** 2 / 3 + 5 * n ** 3 / 16, 13 * n ** 2 / 48 - 3 * n ** 3 / 5, 61 * n ** 3 / 240]
        self._be = [n / 2 - 2 * n ** 2 / 3 + 37 * n ** 3 / 96, n ** 2 / 48 + n ** 3 / 15, 17 * n ** 3 / 480]
        self._de = [2 * n - 2 * n ** 2 / 3 - 2 * n ** 3, 7 * n ** 2 / 3 - 8 * n ** 3 / 5, 56 * n ** 3 / 15]
        self._y0 = 0.0
        self._y0 = self._raw(np.array(0.0), np.array(self._params[1]))[1]

    def _raw(self, dlon, lat):
        n, k0 = self._n, self._params[4]
        s = np.sin(np.deg2rad(lat))
        c = 2 * math.sqrt(n) / (1 + n)
        t = np.sinh(np.arctanh(s) - c * np.arctanh(c * s))
        dl = np.deg2rad(dlon)
        xi = np.arctan2(t, np.cos(dl))
        eta = np.arctanh(np.sin(dl) / np.sqrt(1 + t * t))
        x = eta + sum(a * np.cos(2 * (j + 1) * xi) * np.sinh(2 * (j + 1) * eta) for j, a in enumerate(self._al))
        y = xi + sum(a * np.sin(2 * (j + 1) * xi) * np.cosh(2 * (j + 1) * eta) for j, a in enumerate(self._al))
        return k0 * self._A * x, k0 * self._A * y

    def _from_ll(self, lon, lat):
        x, y = self._raw(_wrap(np.asarray(lon, float) - self._params[0]), np.asarray(lat, float))
        return x + self._params[2], y - self._y0 + self._params[3]

    def _to_ll(self, x, y):
        k0 = self._params[4]
        eta = (np.asarray(x, float) - self._params[2]) / (k0 * self._A)
        xi = (np.asarray(y, float) - self._params[3] + self._y0) / (k0 * self._A)
        xip = xi - sum(b * np.sin(2 * (j + 1) * xi) * np.cosh(2 * (j + 1) * eta) for j, b in enumerate(self._be))
        etap = eta - sum(b * np.cos(2 * (j + 1) * xi) * np.sinh(2 * (j + 1) * eta) for j, b in enumerate(self._be))
        chi = np.arcsin(np.sin(xip) / np.cosh(etap))
        lat = chi + sum(d * np.sin(2 * (j + 1) * chi) for j, d in enumerate(self._de))
        lon = np.arctan2(np.sinh(etap), np.cos(xip))
        return _wrap(np.rad2deg(lon) + self._params[0]), np.rad2deg(lat)
