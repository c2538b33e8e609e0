ID = "boxsum-leading"
PROPERTY = "C05"
IRIS = False
EDITS = [("improver/utilities/neighbourhood_tools.py", "        data = pad_boxsum(data, boxsize, **pad_options)\n    if cumsum:\n        data = data.cumsum(-2).cumsum(-1)", "        data = pad_boxsum(data, boxsize, **pad_options)\n    if cumsum:\n        data = data.cumsum(-2).cumsum(min(1, data.ndim - 1))")] or [("improver/utilities/neighbourhood_tools.py", "        - data[..., :m, j : j + n]\n", "        - data[..., :m, j : j + n]\n")]
DEMO = r'''
import numpy as np
from improver.utilities.neighbourhood_tools import boxsum
d3 = np.arange(84.0).reshape(2, 6, 7)
d = d3[1]
r = boxsum(d3, (3, 5), mode="constant")[1]
want = np.zeros((6, 7))
for y in range(6):
    for x in range(7):
        want[y, x] = d[max(0, y - 1):y + 2, max(0, x - 2):x + 3].sum()
assert r.shape == want.shape, (r.shape, want.shape)
assert np.allclose(r, want), (r, want)
'''
NEEDS = "an array with exactly one leading dimension"
BREAKS = "box sums of three-dimensional arrays accumulate rows twice"
