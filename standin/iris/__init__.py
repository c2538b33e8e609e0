"""A small stand-in for iris 3.0, enough of it to run IMPROVER.

iris itself cannot be installed in this sandbox.  The behaviour reproduced here
was validated against IMPROVER's own unit tests (see /verif/DESIGN.md).
"""
import glob as _glob

import numpy as _np

__version__ = "3.0.3"

import iris.exceptions  # noqa: F401,E402
import iris.std_names  # noqa: F401,E402
import iris.time  # noqa: F401,E402
import iris._common  # noqa: F401,E402
import iris.coord_systems  # noqa: F401,E402
import iris.coords  # noqa: F401,E402
import iris.util  # noqa: F401,E402
import iris._constraints  # noqa: F401,E402
import iris.cube  # noqa: F401,E402
import iris._merge  # noqa: F401,E402
import iris.analysis  # noqa: F401,E402
import iris.analysis.cartography  # noqa: F401,E402
import iris.fileformats  # noqa: F401,E402
import iris.fileformats.netcdf  # noqa: F401,E402

from iris._constraints import AttributeConstraint, Constraint, NameConstraint  # noqa: F401,E402


def _load_all(uris, constraints):
    from iris.cube import CubeList

    if isinstance(uris, str) or hasattr(uris, "__fspath__"):
        uris = [uris]
    cubes = CubeList()
    for uri in uris:
        uri = str(uri)
        names = sorted(_glob.glob(uri)) if any(c in uri for c in "*?[") else [uri]
        import os

        for n in names:
            if not os.path.exists(n):
                raise IOError("One or more of the files specified did not exist: %s" % n)
            cubes.extend(iris.fileformats.netcdf.load_cubes(n))
    return cubes


def load_raw(uris, constraints=None, callback=None):
    cubes = _load_all(uris, constraints)
    return cubes.extract(constraints) if constraints is not None else cubes


def load(uris, constraints=None, callback=None):
    return load_raw(uris, constraints).merge(unique=False)


def load_cubes(uris, constraints=None, callback=None):
    cubes = load(uris, None)
    return cubes.extract_cubes(constraints) if constraints is not None else cubes


def load_cube(uris, constraint=None, callback=None):
    cubes = load_raw(uris, constraint)
    try:
        return cubes.merge_cube()
    except iris.exceptions.MergeError as e:
        raise iris.exceptions.ConstraintMismatchError(str(e))
    except ValueError:
        raise iris.exceptions.ConstraintMismatchError("no cubes found")


def save(source, target, saver=None, **kwargs):
    iris.fileformats.netcdf.save(source, target, **kwargs)
