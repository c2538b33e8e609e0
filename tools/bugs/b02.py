ID = "truncnorm-left-tail"
PROPERTY = "C07"
IRIS = False
EDITS = [("improver/ensemble_copula_coupling/_scipy_continuous_distns.py", "            a > 0,\n            _norm_isf(q * _sb + _sa * (1.0 - q)),", "            b < 0,\n            _norm_isf(q * _sb + _sa * (1.0 - q)),")]
DEMO = r'''
import numpy as np
from improver.ensemble_copula_coupling._scipy_continuous_distns import truncnorm
q = np.array([1e-6, 1e-4, 0.5])
x = truncnorm.ppf(q, -9.0, -8.0)
back = truncnorm.cdf(x, -9.0, -8.0)
assert np.allclose(back, q, rtol=1e-3, atol=0), (x, back)
'''
NEEDS = "a small quantile of a distribution with a far lower bound and a positive upper bound"
BREAKS = "lower quantiles lose all accuracy (cancellation) when the bounds straddle zero"
