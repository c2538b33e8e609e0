ID = "latest-cycle-of-first-units"
PROPERTY = "C31"
EDITS = [("improver/metadata/forecast_times.py", "        if next_coord.points[0] > frt_coord.points[0]:\n            frt_coord = next_coord\n", "        if next_coord.points[0] > cubelist[0].coord(\"forecast_reference_time\").points[0]:\n            frt_coord = next_coord\n")]
DEMO = r'''
from datetime import datetime
import numpy as np
from improver.metadata.forecast_times import rebadge_forecasts_as_latest_cycle
from improver.synthetic_data.set_up_test_cubes import set_up_variable_cube
cs = [set_up_variable_cube(np.zeros((3, 3), np.float32), time=datetime(2017, 11, 10, 12), frt=datetime(2017, 11, 10, h)) for h in (3, 6, 5)]
r = rebadge_forecasts_as_latest_cycle(cs)
fp = [int(c.coord("forecast_period").points[0]) for c in r]
assert fp == [6 * 3600] * 3, fp
'''
NEEDS = "at least three cycles, where a later one in the list is neither the first nor the latest"
BREAKS = "the last cycle newer than the first one is taken for the latest"
