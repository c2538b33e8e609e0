ID = "save-copies-over-target"
PROPERTY = "C01"
EDITS = [("improver/utilities/save.py", "    os.rename(ftmp, filename)", "    import shutil\n\n    shutil.copyfile(ftmp, filename)\n    os.remove(ftmp)")]
DEMO = r'''
import os, sys
import numpy as np
from improver.synthetic_data.set_up_test_cubes import set_up_variable_cube
from improver.utilities.save import save_netcdf
c = set_up_variable_cube(np.zeros((3, 4), np.float32))
save_netcdf(c, "t.nc")
before = os.stat("t.nc").st_ino
fd = os.open("t.nc", os.O_RDONLY)
old = os.read(fd, 1 << 20)
save_netcdf(set_up_variable_cube(np.ones((3, 4), np.float32)), "t.nc")
# a reader that had the file open still sees the complete old file: the target was replaced, not rewritten
os.lseek(fd, 0, os.SEEK_SET)
assert os.read(fd, 1 << 20) == old, "the target was rewritten in place"
assert os.stat("t.nc").st_ino != before
'''
NEEDS = "an interruption (or reader) between the truncation of the target and the end of the copy"
BREAKS = "saving is no longer atomic: the target is truncated and refilled"
