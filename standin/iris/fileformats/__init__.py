from . import netcdf  # noqa: F401
