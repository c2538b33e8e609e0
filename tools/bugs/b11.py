ID = "patch-near-the-right-edge"
PROPERTY = "C12"
EDITS = [("improver/nbhood/nbhood.py", "            _xstop = min(data_shape[1], _xstop + half_nb_size)", "            _xstop = min(max(data_shape[0], _xstop), _xstop + half_nb_size)")]
DEMO = r'''
import numpy as np
from improver.synthetic_data.set_up_test_cubes import set_up_variable_cube
from improver.nbhood.nbhood import NeighbourhoodProcessing
d = np.zeros((7, 12), np.float32)
d[3, 9] = 1.0
c = set_up_variable_cube(d, name="precipitation_rate", units="mm h-1", spatial_grid="equalarea", x_grid_spacing=2000, y_grid_spacing=2000)
r = NeighbourhoodProcessing("square", 2000.0)(c)
want = np.zeros((7, 12))
want[2:5, 8:11] = 1 / 9
assert np.allclose(r.data, want), r.data
'''
NEEDS = "a field wider than it is tall whose only non-zero values are near its right edge"
BREAKS = "the part of the neighbourhood sum right of a limit derived from the wrong dimension is dropped"
