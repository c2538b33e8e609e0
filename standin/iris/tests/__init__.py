"""IrisTest base class of the iris stand-in."""
import contextlib
import os
import re
import shutil
import tempfile
import unittest
import warnings
from unittest import mock

import numpy as np
import numpy.ma as ma


class IrisTest(unittest.TestCase):
    def assertStringEqual(self, reference_str, test_str, type_comparison_name="strings"):
        if reference_str != test_str:
            self.fail("%r != %r" % (reference_str, test_str))

    def assertArrayEqual(self, a, b, err_msg=""):
        np.testing.assert_array_equal(a, b, err_msg=err_msg)

    def assertArrayAlmostEqual(self, a, b, decimal=6):
        np.testing.assert_array_almost_equal(a, b, decimal=decimal)

    def assertArrayAllClose(self, a, b, rtol=1.0e-7, atol=1.0e-8, **kwargs):
        ok = np.allclose(a, b, atol=atol, rtol=rtol, equal_nan=True)
        if not ok:
            raise AssertionError("Arrays are not close: %r vs %r" % (a, b))

    def assertMaskedArrayEqual(self, a, b, strict=False):
        np.testing.assert_array_equal(ma.getmaskarray(a), ma.getmaskarray(b))
        if strict:
            np.testing.assert_array_equal(np.asarray(a), np.asarray(b))
        else:
            m = ~ma.getmaskarray(a)
            np.testing.assert_array_equal(np.asarray(a)[m], np.asarray(b)[m])

    def assertMaskedArrayAlmostEqual(self, a, b, decimal=6, strict=False):
        np.testing.assert_array_equal(ma.getmaskarray(a), ma.getmaskarray(b))
        m = ~ma.getmaskarray(a)
        np.testing.assert_array_almost_equal(np.asarray(a)[m], np.asarray(b)[m], decimal=decimal)

    @contextlib.contextmanager
    def temp_filename(self, suffix=""):
        d = tempfile.mkdtemp()
        try:
            yield os.path.join(d, "f" + suffix)
        finally:
            shutil.rmtree(d)

    def patch(self, *args, **kwargs):
        p = mock.patch(*args, **kwargs)
        m = p.start()
        self.addCleanup(p.stop)
        return m

    @contextlib.contextmanager
    def assertWarnsRegexp(self, expected_regexp=""):
        with warnings.catch_warnings(record=True) as w:
            warnings.simplefilter("always")
            yield
        if not any(re.search(expected_regexp, str(x.message)) for x in w):
            raise AssertionError("no warning matching %r" % expected_regexp)


def main():
    unittest.main()
