ID = "recycle-last-member"
PROPERTY = "C18"
EDITS = [("improver/ensemble_copula_coupling/ensemble_copula_coupling.py", "realization_list.append(mpoints[index % len(mpoints)])", "realization_list.append(mpoints[min(index, len(mpoints) - 1)])")]
DEMO = r'''
import numpy as np
from improver.synthetic_data.set_up_test_cubes import set_up_percentile_cube, set_up_variable_cube
from improver.ensemble_copula_coupling.ensemble_copula_coupling import EnsembleReordering
raw = set_up_variable_cube(np.stack([np.full((3, 3), v, np.float32) for v in (280, 271)]))
post = set_up_percentile_cube(np.stack([np.full((3, 3), v, np.float32) for v in (270, 272, 274, 276)]), np.array([20, 40, 60, 80], np.float32))
r = EnsembleReordering()(post, raw, random_seed=1)
# members 0 and 2 take the place of the first (higher) raw member, 1 and 3 that of the second
v = r.data
assert (np.sort(v, axis=0) == post.data).all(), v
assert (np.minimum(v[0], v[2]) > np.maximum(v[1], v[3])).all(), v
'''
NEEDS = "more percentiles than raw members, by at least two"
BREAKS = "the last raw member is repeated instead of recycling the members in turn"
