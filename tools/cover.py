"""cover.py Cxx OUT: runs the quick check with line tracing of improver in its workers; writes the lines executed (pickle) to OUT/Cxx-k."""
import os
import pickle
import runpy
import sys

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
pid, out = sys.argv[1], sys.argv[2]
os.makedirs(out, exist_ok=True)
sys.path.insert(0, os.path.join(V, "checks"))
import mc

root = os.environ.get("VERIF_REPO", "/repo") + "/improver/"
orig = mc._worker
hits, left = {}, {}


def lines(code):
    import dis

    return set(n for _, n in dis.findlinestarts(code))


def local(frame, event, arg):
    if event == "line":
        c = frame.f_code
        l = left[c]
        if frame.f_lineno in l:
            l.discard(frame.f_lineno)
            hits.setdefault(c.co_filename[len(root):], set()).add(frame.f_lineno)
    return local


def trace(frame, event, arg):
    c = frame.f_code
    l = left.get(c)
    if l is None:
        l = left[c] = lines(c) if c.co_filename.startswith(root) else set()
    return local if l else None


def worker(k, *a):
    sys.settrace(trace)
    try:
        orig(k, *a)
    finally:
        sys.settrace(None)
        with open(os.path.join(out, "%s-%d" % (pid, k)), "wb") as f:
            pickle.dump(hits, f)


mc._worker = worker
sys.argv = [os.path.join(V, "checks", pid + ".py"), "quick"]
runpy.run_path(sys.argv[0], run_name="__main__")
