ID = "memprofile-peak-order"
PROPERTY = "C08"
IRIS = False
EDITS = [("improver/memprofile.py", """        if queue.empty():
            time.sleep(wait_time)
            max_rss""", """        if queue.empty():
            time.sleep(wait_time)
            if not queue.empty():
                queue.get()
                break
            max_rss"""), ("improver/memprofile.py", """            tracemalloc.stop()
            return
""", """            tracemalloc.stop()
            return
    fout.close()
""")]
DEMO = r'''
import sys, types, os, threading
snaps = []
class S:
    def dump(self, f): open(f, "w").write("s")
m = types.ModuleType("tracemalloc")
m.state = 0
def start(n=1): m.state = 1
def stop(): m.state = 0
m.start, m.stop, m.take_snapshot = start, stop, S
sys.modules["tracemalloc"] = m
import improver.memprofile as mp
import time
done = threading.Event()
def f():
    time.sleep(0.15)
    return 5
assert mp.memory_profile_decorator(f, "./prof")() == 5
assert os.path.exists("prof_SNAPSHOT"), "no snapshot written"
assert m.state == 0, "tracing left on"
'''
NEEDS = "the profiled function ends while the monitor sleeps"
BREAKS = "no snapshot is written and memory tracing stays on"
