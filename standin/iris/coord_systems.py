"""Coordinate systems of the iris stand-in."""


class CoordSystem:
    grid_mapping_name = None

    def __eq__(self, other):
        return self.__class__ == other.__class__ and self.__dict__ == other.__dict__

    def __ne__(self, other):
        return not (self == other)

    def __hash__(self):
        return hash(repr(self))

    def __deepcopy__(self, memo):
        import copy

        new = copy.copy(self)
        return new


class GeogCS(CoordSystem):
    grid_mapping_name = "latitude_longitude"

    def __init__(self, semi_major_axis=None, semi_minor_axis=None, inverse_flattening=None, longitude_of_prime_meridian=0):
        if semi_major_axis is None and semi_minor_axis is None and inverse_flattening is None:
            raise ValueError("No ellipsoid specified")
        a, b, f = semi_major_axis, semi_minor_axis, inverse_flattening
        if a is not None and b is None and (f is None or f == 0):
            f = 0.0
            b = float(a)
        elif a is not None and b is not None:
            f = 0.0 if float(a) == float(b) else 1.0 / ((float(a) - float(b)) / float(a))
        elif a is not None and f:
            b = float(a) - (1.0 / float(f)) * float(a)
        self.semi_major_axis = float(a)
        self.semi_minor_axis = float(b)
        self.inverse_flattening = float(f)
        self.longitude_of_prime_meridian = float(longitude_of_prime_meridian or 0)

    def __repr__(self):
        if self.semi_major_axis == self.semi_minor_axis and self.longitude_of_prime_meridian == 0:
            return "GeogCS(%s)" % self.semi_major_axis
        r = "GeogCS(semi_major_axis=%s, semi_minor_axis=%s" % (self.semi_major_axis, self.semi_minor_axis)
        if self.longitude_of_prime_meridian:
            r += ", longitude_of_prime_meridian=%s" % self.longitude_of_prime_meridian
        return r + ")"

    __str__ = __repr__

    def as_cartopy_globe(self):
        import cartopy.crs as ccrs

        return ccrs.Globe(
            ellipse=None,
            semimajor_axis=self.semi_major_axis,
            semiminor_axis=self.semi_minor_axis,
        )

    def as_cartopy_crs(self):
        import cartopy.crs as ccrs

        return ccrs.Geodetic(self.as_cartopy_globe())

    def as_cartopy_projection(self):
        import cartopy.crs as ccrs

        return ccrs.PlateCarree(globe=self.as_cartopy_globe())


class LambertAzimuthalEqualArea(CoordSystem):
    grid_mapping_name = "lambert_azimuthal_equal_area"

    def __init__(self, latitude_of_projection_origin=0.0, longitude_of_projection_origin=0.0, false_easting=0.0, false_northing=0.0, ellipsoid=None):
        self.latitude_of_projection_origin = latitude_of_projection_origin
        self.longitude_of_projection_origin = longitude_of_projection_origin
        self.false_easting = false_easting
        self.false_northing = false_northing
        self.ellipsoid = ellipsoid

    def __repr__(self):
        return (
            "LambertAzimuthalEqualArea(latitude_of_projection_origin={!r}, longitude_of_projection_origin={!r}, "
            "false_easting={!r}, false_northing={!r}, ellipsoid={!r})"
        ).format(
            self.latitude_of_projection_origin,
            self.longitude_of_projection_origin,
            self.false_easting,
            self.false_northing,
            self.ellipsoid,
        )

    def as_cartopy_crs(self):
        import cartopy.crs as ccrs

        globe = self.ellipsoid.as_cartopy_globe() if self.ellipsoid is not None else ccrs.Globe()
        return ccrs.LambertAzimuthalEqualArea(
            central_longitude=self.longitude_of_projection_origin,
            central_latitude=self.latitude_of_projection_origin,
            false_easting=self.false_easting,
            false_northing=self.false_northing,
            globe=globe,
        )

    as_cartopy_projection = as_cartopy_crs


class TransverseMercator(CoordSystem):
    grid_mapping_name = "transverse_mercator"

    def __init__(self, latitude_of_projection_origin, longitude_of_central_meridian, false_easting=0.0, false_northing=0.0, scale_factor_at_central_meridian=1.0, ellipsoid=None):
        self.latitude_of_projection_origin = float(latitude_of_projection_origin)
        self.longitude_of_central_meridian = float(longitude_of_central_meridian)
        self.false_easting = float(false_easting)
        self.false_northing = float(false_northing)
        self.scale_factor_at_central_meridian = float(scale_factor_at_central_meridian)
        self.ellipsoid = ellipsoid

    def __repr__(self):
        return "TransverseMercator(%r)" % (sorted(self.__dict__.items(), key=lambda kv: kv[0]),)

    def as_cartopy_crs(self):
        import cartopy.crs as ccrs

        globe = self.ellipsoid.as_cartopy_globe() if self.ellipsoid is not None else ccrs.Globe()
        return ccrs.TransverseMercator(
            central_longitude=self.longitude_of_central_meridian,
            central_latitude=self.latitude_of_projection_origin,
            false_easting=self.false_easting,
            false_northing=self.false_northing,
            scale_factor=self.scale_factor_at_central_meridian,
            globe=globe,
        )

    as_cartopy_projection = as_cartopy_crs


class RotatedGeogCS(CoordSystem):
    grid_mapping_name = "rotated_latitude_longitude"

    def __init__(self, grid_north_pole_latitude, grid_north_pole_longitude, north_pole_grid_longitude=0, ellipsoid=None):
        self.grid_north_pole_latitude = float(grid_north_pole_latitude)
        self.grid_north_pole_longitude = float(grid_north_pole_longitude)
        self.north_pole_grid_longitude = float(north_pole_grid_longitude)
        self.ellipsoid = ellipsoid

    def __repr__(self):
        return "RotatedGeogCS(%s, %s)" % (self.grid_north_pole_latitude, self.grid_north_pole_longitude)


class OSGB(TransverseMercator):
    """A specific transverse Mercator projection on a specific ellipsoid."""

    def __init__(self):
        TransverseMercator.__init__(
            self, 49, -2, 400000, -100000, 0.9996012717, GeogCS(6377563.396, 6356256.909)
        )
