"""C08: memory profiling, time profiling and output capture leave the observed program as it was."""
import gc
import io
import itertools
import os
import sys
import types

from mc import Section, Violation, expect, main, raises
import sched

PROPERTY = "C08"
ASSUMPTIONS = [
    "threads interleave at queue, thread, sleep, event, rusage and tracemalloc calls (the only communication of the code)",
    "tracemalloc is replaced by a stand-in that records start, stop and snapshots (PyPy has none)",
]
STATE = {"tracing": 0, "snaps": 0, "rss": None, "dumps": []}


class Snapshot:
    def __init__(self, n):
        self.n = n

    def dump(self, filename):
        sched.CUR[0].point("dump")
        STATE["dumps"].append((str(filename), self.n))
        with open(filename, "w") as f:
            f.write("snapshot %s" % self.n)


def stub_tracemalloc():
    m = types.ModuleType("tracemalloc")

    def start(n=1):
        STATE["tracing"] += 1

    def stop():
        STATE["tracing"] = 0

    def take_snapshot():
        sched.CUR[0].point("snapshot")
        if not STATE["tracing"]:
            raise RuntimeError("the tracemalloc module must be tracing memory allocations to take a snapshot")
        STATE["snaps"] += 1
        return Snapshot(STATE["last_rss"])

    m.start, m.stop, m.take_snapshot = start, stop, take_snapshot
    m.is_tracing = lambda: bool(STATE["tracing"])
    m.Snapshot = Snapshot
    m.get_traced_memory = lambda: (1, 2)
    m.clear_traces = lambda: None
    return m


RSS = [2048, 1024, 4096]  # answers the kernel may give (KB), chosen by the explorer


def setup():
    import queue, threading, time, resource

    sys.modules["tracemalloc"] = stub_tracemalloc()
    queue.Queue = sched.Queue
    queue.SimpleQueue = sched.Queue
    threading.Thread = sched.Thread
    threading.Event = sched.Event
    real_sleep, real_ru = time.sleep, resource.getrusage

    def sleep(t):
        if sched.CUR[0] is None:
            return real_sleep(t)
        sched.CUR[0].point("sleep")

    def getrusage(who):
        if sched.CUR[0] is None:
            return real_ru(who)
        r = sched.CUR[0]
        r.point("rusage")
        left = STATE["rss"]
        v = RSS[r.choose(len(RSS))] if left > 0 else RSS[0]
        STATE["rss"] -= 1
        STATE["last_rss"] = v
        STATE["seen"].append(v)
        return types.SimpleNamespace(ru_maxrss=v)

    time.sleep, resource.getrusage = sleep, getrusage
    sys.modules.pop("improver.memprofile", None)
    import improver.memprofile  # noqa


class Boom(Exception):
    pass


def check_memprofile(case, cov):
    import improver.memprofile as mp

    steps, end, answers, uses, fair = case
    base = os.path.join(os.environ.get("VERIF_SCRATCH", "/tmp"), "prof")
    n = [0]

    def execute(run):
        STATE.update(tracing=0, snaps=0, rss=answers, dumps=[], last_rss=None, seen=[])
        for s in ("_SNAPSHOT", "_MAX_TRACKER"):
            if os.path.exists(base + s):
                os.unlink(base + s)
        marks = []

        def func(x, y=0, z=7, *rest, **others):
            expect((x, z, rest, others) == (2, None, (), {"w": None, "q": False}), "arguments of the profiled function", None, (x, y, z, rest, others))
            for k in range(steps):
                marks.append(("work", bool(STATE["tracing"])))
                run.point("work")
            if end == "raise":
                raise Boom("boom")
            if end == "exit":
                raise SystemExit(3)
            return {"value": x + y} if end == "return" else None

        def program():
            out = []
            wrapped = mp.memory_profile_decorator(func, base)
            for u in range(uses):
                STATE["seen"], STATE["last_rss"] = [], None
                STATE["dumps"] = []
                try:
                    out.append(wrapped(2, y=u, z=None, w=None, q=False))
                except (Boom, SystemExit) as exc:
                    out.append(exc)
                # what the program can see immediately after the call
                alive = [t.name for t in run.tasks[1:] if not t.done]
                tracker = None
                if os.path.exists(base + "_MAX_TRACKER"):
                    with open(base + "_MAX_TRACKER") as f:
                        tracker = f.read()
                out.append((alive, STATE["tracing"], os.path.exists(base + "_SNAPSHOT"), tracker, list(STATE["seen"]), list(STATE["dumps"])))
            return out

        try:
            m = run.run(program)
        except sched.Deadlock as exc:
            raise Violation("profiling never ends: %s; schedule %s" % (exc, run.taken))
        for t in run.tasks[1:]:
            if t.error:
                raise Violation("the monitoring thread failed: %r; schedule %s" % (t.error, run.taken))
        if m.error:
            raise Violation("the profiled call failed: %r; schedule %s" % (m.error, run.taken))
        out = m.result
        for u in range(uses):
            r, (alive, tracing, snap, tracker, seen, dumps) = out[2 * u], out[2 * u + 1]
            want = {"return": {"value": 2 + u}, "none": None, "raise": Boom, "exit": SystemExit}[end]
            if isinstance(want, type):
                expect(isinstance(r, want) and r.args == (("boom",) if want is Boom else (3,)), "the failure does not propagate", want, r)
            else:
                expect(r == want, "result of the profiled function", want, r)
            expect(not alive, "monitoring thread still running after the call: %s" % run.taken, [], alive)
            expect(not tracing, "memory tracing left on after the call", 0, tracing)
            expect(snap, "no snapshot file", True, snap)
            expect(tracker is not None, "no max tracker file")
            maxima = []
            for v in seen:
                if not maxima or v > maxima[-1]:
                    maxima.append(v)
            got = [float(line.split("max RSS")[1].split()[0]) for line in tracker.splitlines()]
            expect(got == [v / 1024 for v in maxima], "maxima recorded; schedule %s" % run.taken, [v / 1024 for v in maxima], got)
            expect(len(dumps) == 1, "snapshots written", 1, dumps)
            expect(dumps[0][1] == (maxima[-1] if maxima else None), "the snapshot is the one of the maximum", maxima[-1:], dumps)
        n[0] += 1
        if n[0] % 200 == 0:
            gc.collect()
        cov.step(run.steps)
        cov.trace()
        cov.state(case, tuple(run.log), tuple(run.taken))

    cnt = sched.explore(execute, fair=fair)
    return "%d schedules" % cnt


def cases_memprofile(tier):
    for end in ("return", "none", "raise", "exit"):
        for steps in (0, 1, 2):
            for answers in (0, 2, 3):
                yield [steps, end, answers, 1, 5 if answers else 6]
        yield [1, end, 1, 2, 3]
        yield [0, end, 2, 2, 3]
    if tier == "thorough":
        for end in ("return", "raise"):
            yield [3, end, 3, 1, 8]
            yield [2, end, 4, 1, 9]
            yield [1, end, 2, 2, 5]


# ---------------------------------------------------------------- stdout capture
PROGS = None


def progs(depth, width=2):
    """Programs: print, fail, swallow a failure, nested capture."""
    if depth == 0:
        return [("p",), ("fail",)]
    sub = progs(depth - 1)
    out = [("p",), ("fail",), ("kill",)]
    for a in sub:
        out.append(("cap", (a,)))
        out.append(("try", (a,)))
        for b in sub:
            out.append(("cap", (a, b)))
            out.append(("try", (a, b)))
            out.append(("capnone", (a, b)))
    return out


class Kill(BaseException):
    pass


def check_redirect(case, cov):
    """Each print reaches the innermost open capture; sys.stdout is restored however the block ends."""
    from improver.utilities.redirect_stdout import redirect_stdout

    k, n = case
    allp = progs(2)
    real = sys.stdout
    for i, p in enumerate(allp):
        if i % n != k:
            continue
        for q in (("p",), ("fail",)):
            prog = (p, q)
            base = io.StringIO()
            cnt = [0]
            sinks = {}

            def run(stmts, model, tgt):
                for s in stmts:
                    if s[0] == "p":
                        cnt[0] += 1
                        expect(sys.stdout is tgt, "output goes to the wrong place in %s" % (prog,), tgt, sys.stdout)
                        if tgt is not None:
                            print("x%d" % cnt[0])
                            sinks.setdefault(id(tgt), (tgt, []))[1].append("x%d\n" % cnt[0])
                    elif s[0] == "fail":
                        raise Boom("b")
                    elif s[0] == "kill":
                        raise Kill()
                    elif s[0] in ("cap", "capnone"):
                        t = io.StringIO() if s[0] == "cap" else None
                        ctx = redirect_stdout(t) if t is not None else redirect_stdout()
                        with ctx:
                            run(s[1], None, t)
                    elif s[0] == "try":
                        try:
                            run(s[1], None, tgt)
                        except Boom:
                            pass
                        expect(sys.stdout is tgt, "stdout not restored after a failure in %s" % (prog,), tgt, sys.stdout)

            sys.stdout = base
            try:
                try:
                    run(prog, None, base)
                except (Boom, Kill):
                    pass
                expect(sys.stdout is base, "stdout not restored by %s" % (prog,), "original", sys.stdout)
            finally:
                sys.stdout = real
            for t, text in sinks.values():
                expect(t.getvalue() == "".join(text), "captured text in %s" % (prog,), text, t.getvalue())
            cov.step()
            cov.trace()
            cov.state(prog)


# ---------------------------------------------------------------- time profiling
def check_profile(case, cov):
    """profile_stop dumps to the file or prints up to the asked lines on stderr; the exit hook runs it once."""
    import atexit
    import pstats
    import improver.profile as pr

    how, field, lines, ends = case[:4]
    hooks = []
    real_reg, real_err = atexit.register, sys.stderr
    name = case[4] if len(case) > 4 else "prof.out"
    path = os.path.join(os.environ.get("VERIF_SCRATCH", "/tmp"), name)
    if os.path.exists(path):
        os.unlink(path)
    err = io.StringIO()

    def work_marker(n):
        return sum(i for i in range(n))

    try:
        sys.stderr = err
        if how.startswith("hook"):
            atexit.register = lambda f, *a, **k: hooks.append((f, a, k)) or f
            try:
                pr.profile_hook_enable(path) if how == "hook_file" else pr.profile_hook_enable()
            finally:
                atexit.register = real_reg
            work_marker(50)
            expect(len(hooks) == 1, "one exit hook", 1, len(hooks))
            expect(not os.path.exists(path) and not err.getvalue(), "nothing is reported before exit")
            f, a, k = hooks[0]
            f(*a, **k)
        else:
            p = pr.profile_start()
            try:
                work_marker(50)
                if ends == "raise":
                    raise Boom()
            except Boom:
                pass
            kw = {"sort_field": field, "dump_line_count": lines}
            if how == "file":
                kw["dump_filename"] = path
            pr.profile_stop(p, **kw)
    finally:
        sys.stderr = real_err
    sys.setprofile(None)
    text = err.getvalue()
    if how.endswith("file"):
        expect(os.path.exists(path) and not text, "profile written to the file only", path, text[:100])
        s = io.StringIO()
        pstats.Stats(path, stream=s).print_stats()
        expect("work_marker" in s.getvalue(), "the profiled call is in the file")
    else:
        expect(not os.path.exists(path), "no file written")
        expect("function calls" in text, "statistics printed to stderr", "statistics", text[:200])
        shown = [ln for ln in text.split("ordered by" if False else "filename:lineno(function)")[-1].splitlines() if ln.strip()] if "filename:lineno" in text else []
        limit = lines if how == "stderr" else 100
        expect(len(shown) <= limit, "lines printed", limit, len(shown))
        if limit >= 20:
            expect("work_marker" in text, "the profiled call is listed", "work_marker", text[-300:])
    cov.step()
    return how


def cases_profile(tier):
    for how in ("file", "stderr"):
        for field in ("cumulative", "time", "name"):
            for lines in (0, 1, 3, 100):
                for ends in ("return", "raise"):
                    yield [how, field, lines, ends]
                    if how == "file" and lines in (0, 100):
                        for name in ("-", "run-", "stderr", "a b.prof", ".hidden", "none", "0"):
                            yield [how, field, lines, ends, name]
    for name in ("prof.out", "-", "run-", "stderr", "0"):
        yield ["hook_file", "", 0, "", name]
    yield ["hook_stderr", "", 0, ""]


def sections():
    import improver.profile, improver.utilities.redirect_stdout  # noqa

    return [
        Section("time_profile", cases_profile, check_profile, "both sinks x 3 sort fields x 4 line limits x return/raise, exit hook"),
        Section("stdout_capture", lambda t: [[k, 16] for k in range(16)], check_redirect, "all programs of nested captures, prints, failures to depth 2"),
        Section("memory_profile", cases_memprofile, check_memprofile, "all interleavings of program and monitor (a thread yields after at most 5-6 consecutive steps while the other could run), all peak-memory answers from 3 values for up to 3 samples, functions of up to 2 steps that return, return None, raise or exit, one or two uses", setup=setup),
    ]


if __name__ == "__main__":
    main(globals())
