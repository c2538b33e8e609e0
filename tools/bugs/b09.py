ID = "dz-not-limited"
PROPERTY = "C22"
EDITS = [("improver/calibration/dz_rescaling.py", "        dz = np.clip(dz, self.dz_lower_bound, self.dz_upper_bound)\n", "        if np.isfinite(self.dz_lower_bound) and np.isfinite(self.dz_upper_bound):\n            dz = np.clip(dz, self.dz_lower_bound, self.dz_upper_bound)\n")]
DEMO = r'''
import numpy as np
from improver.calibration.dz_rescaling import EstimateDzRescaling
p = EstimateDzRescaling(6, dz_lower_bound=None, dz_upper_bound=50)
r = p._compute_scaled_dz(0.01, np.array([-200.0, 0.0, 50.0, 400.0], np.float32))
assert np.allclose(r, np.exp(-0.01 * np.array([-200.0, 0.0, 50.0, 50.0]))), r
'''
NEEDS = "only one of the two bounds of the height difference given, and a site beyond it"
BREAKS = "sites beyond a single bound are rescaled without limit"
