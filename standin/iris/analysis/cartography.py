"""rotate_winds and grid helpers of the iris stand-in."""
import numpy as np
import numpy.ma as ma

from iris.coords import AuxCoord


def get_xy_grids(cube):
    x = cube.coord(axis="X").points
    y = cube.coord(axis="Y").points
    return np.meshgrid(x, y)


def _jacobian(x, y, src_crs, tgt_crs):
    """Unit vectors of the source axes expressed in the target grid."""
    ll = tgt_crs.transform_points(src_crs, x, y)
    xt, yt = ll[..., 0], ll[..., 1]
    # same scheme as iris: go through an auxiliary lat-lon ellipsoid
    import cartopy.crs as ccrs

    pc = ccrs.PlateCarree(globe=src_crs.globe)
    geo = pc.transform_points(src_crs, x, y)
    lon, lat = geo[..., 0], geo[..., 1]
    eps = 1e-4

    def grad(crs):
        dl = eps / np.maximum(np.cos(np.deg2rad(lat)), 1e-8)
        a = crs.transform_points(pc, lon + dl, lat)
        b = crs.transform_points(pc, lon - dl, lat)
        c = crs.transform_points(pc, lon, np.clip(lat + eps, -90, 90))
        d = crs.transform_points(pc, lon, np.clip(lat - eps, -90, 90))
        e = np.stack([(a - b)[..., 0], (a - b)[..., 1]])
        n = np.stack([(c - d)[..., 0], (c - d)[..., 1]])
        return e, n

    return grad(src_crs), grad(tgt_crs), xt, yt


def rotate_winds(u_cube, v_cube, target_cs):
    """Rotate wind vectors from the cubes' grid to the target grid axes."""
    if u_cube.shape != v_cube.shape:
        raise ValueError("Expected u and v cubes to have the same shape. u {}, v {}".format(u_cube.shape, v_cube.shape))
    xc, yc = u_cube.coord(axis="x", dim_coords=True), u_cube.coord(axis="y", dim_coords=True)
    if xc.coord_system is None:
        raise ValueError("Coordinates have no coordinate system")
    src = xc.coord_system.as_cartopy_projection()
    tgt = target_cs.as_cartopy_projection()
    x, y = np.meshgrid(np.asarray(xc.points, float), np.asarray(yc.points, float))
    (se, sn), (te, tn), xt, yt = _jacobian(x, y, src, tgt)

    def angle(v):
        return np.arctan2(v[1], v[0])

    # rotation that takes source-grid axes into the target grid axes, through
    # the direction of local north on each grid
    rot = angle(tn) - angle(sn)
    (xd,) = u_cube.coord_dims(xc)
    (yd,) = u_cube.coord_dims(yc)
    c, s = np.cos(rot), np.sin(rot)
    if xd < yd:
        c, s = c.T, s.T
        xt, yt = xt.T, yt.T
    shp = [1] * u_cube.ndim
    shp[xd], shp[yd] = u_cube.shape[xd], u_cube.shape[yd]
    c, s = c.reshape(shp), s.reshape(shp)
    u, v = u_cube.data, v_cube.data
    nu = u * c - v * s
    nv = u * s + v * c
    out_u, out_v = u_cube.copy(nu), v_cube.copy(nv)
    dims = (yd, xd) if yd < xd else (xd, yd)
    name_x, name_y = ("projection_x_coordinate", "projection_y_coordinate")
    units = "m"
    if type(target_cs).__name__ in ("GeogCS",):
        name_x, name_y, units = "longitude", "latitude", "degrees"
    for cube in (out_u, out_v):
        for name, pts in ((name_x, xt), (name_y, yt)):
            crd = AuxCoord(pts, standard_name=name, units=units, coord_system=target_cs)
            cube.add_aux_coord(crd, dims)
    out_u.rename("transformed_{}".format(u_cube.name()))
    out_v.rename("transformed_{}".format(v_cube.name()))
    return out_u, out_v


def wrap_lons(lons, base, period):
    lons = np.asarray(lons, dtype=np.float64)
    return ((lons - base + period * 2) % period) + base
