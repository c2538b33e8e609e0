ID = "modal-tie-within-group"
PROPERTY = "C29"
EDITS = [("improver/categorical/modal_code.py", "                default_code = sorted([code for code in data if code in codes])\n", "                default_code = sorted([code for code in data if code in codes], key=codes.index)\n")] 
DEMO = r'''
import numpy as np
from datetime import datetime, timedelta
from improver.categorical.modal_code import ModalCategory
from improver.synthetic_data.set_up_test_cubes import set_up_variable_cube
from iris.cube import CubeList
tree = {"Heavy": {"leaf": 15, "group": "rain"}, "Light": {"leaf": 12, "group": "rain"}}
for k in list(range(1, 12)) + [13, 14]:
    tree["c%d" % k] = {"leaf": k}
codes = [15, 12, 1, 2, 3, 4, 5, 6, 7, 8]
cs = CubeList()
for k, v in enumerate(codes):
    t = datetime(2017, 11, 10, k + 1)
    cs.append(set_up_variable_cube(np.full((2, 2), v, np.int32), name="weather_code", units="1", time=t, time_bounds=[t - timedelta(hours=1), t], frt=datetime(2017, 11, 10)))
r = ModalCategory(tree)(cs)
assert (r.data == 12).all(), r.data
'''
NEEDS = "no code reaching the significance limit, a group whose members are listed with the more severe code first, and both present"
BREAKS = "a grouped period is given the first listed instead of the lowest code of the group"
