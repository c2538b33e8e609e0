ID = "compare-nested-group-tolerance"
PROPERTY = "C03"
IRIS = False
EDITS = [("improver/utilities/compare.py", """            actual_ds.groups[group],
            desired_ds.groups[group],
            rtol,
            atol,
""", """            actual_ds.groups[group],
            desired_ds.groups[group],
            atol,
            rtol,
""")]
DEMO = r'''
import numpy as np, netCDF4
from improver.utilities.compare import compare_netcdfs
def write(p, v):
    with netCDF4.Dataset(p, "w") as d:
        g = d.createGroup("inner")
        g.createDimension("n", 2)
        x = g.createVariable("x", "f8", ("n",))
        x[:] = v
write("a.nc", [1000.0, 2000.0]); write("b.nc", [1000.0, 2000.5])
msgs = []
compare_netcdfs("a.nc", "b.nc", rtol=0.0, atol=0.01, reporter=msgs.append)
assert msgs, "difference of 0.5 with atol 0.01 not reported"
'''
NEEDS = "a data difference inside a nested group with different absolute and relative tolerances"
BREAKS = "tolerances are swapped inside groups, so real differences go unreported"
