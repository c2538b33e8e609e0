ID = "title-stops-at-non-cube"
PROPERTY = "C09"
EDITS = [("improver/__init__.py", """            for item in result:
                if isinstance(item, Cube):
                    self.post_processed_title(item)
""", """            for item in result:
                if not isinstance(item, Cube):
                    break
                self.post_processed_title(item)
""")]
DEMO = r'''
import numpy as np
from iris.cube import Cube
from improver import PostProcessingPlugin
class P(PostProcessingPlugin):
    def process(self):
        c = Cube(np.zeros(2, np.float32), long_name="x", units="1"); c.attributes["title"] = "UKV"
        return [None, c]
r = P()()
assert r[1].attributes["title"] == "Post-Processed UKV", r[1].attributes
'''
NEEDS = "a plugin returning a collection in which something that is no cube precedes a cube"
BREAKS = "cubes after a non-cube keep their unprocessed title"
