"""Bounded exhaustive exploration harness.

A check module (checks/Cxx.py) defines

    PROPERTY = "Cxx"
    SECTIONS = [Section(name, cases, check), ...]

``cases(tier)`` yields JSON-able cases in a fixed order and *enumerates* a finite space;
``check(case, cov)`` drives the real code for that case, compares every step with a reference model and
raises Violation on disagreement.  Every case of the space is executed, sharded over worker processes.
Any exception escaping ``check`` is reported as a violation: the model expected a normal return.
"""
import os
import sys
import json
import time
import zlib
import pickle
import signal
import hashlib
import traceback
import warnings

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
STOP = os.environ.get("VERIF_STOP")  # tools/mutate.py: the file that tells all workers to stop at the first violation
WORKERS = int(os.environ.get("VERIF_WORKERS", "8"))
MAX_VIOL = 25
CASE_LIMIT = 300  # seconds; a case normally takes far less than one


def _hang(signum, frame):
    raise Violation("the call did not terminate within %d s" % CASE_LIMIT)



class Violation(Exception):
    def __init__(self, msg, key=None, expected=None, got=None):
        super().__init__(msg)
        self.msg = msg
        self.key = key
        self.expected = expected
        self.got = got


def short(obj, n=600):
    try:
        s = repr(obj)
    except Exception as exc:  # pragma: no cover
        s = "<unprintable %s>" % exc
    return s if len(s) <= n else s[:n] + "..."


def expect(cond, msg, expected=None, got=None, key=None):
    if not cond:
        raise Violation(msg, key=key, expected=expected, got=got)


def same(a, b):
    """Exact equality of nested structures and arrays (nan == nan, masks equal)."""
    import numpy as np

    if isinstance(a, np.ma.MaskedArray) or isinstance(b, np.ma.MaskedArray):
        if np.shape(a) != np.shape(b):
            return False
        ma, mb = np.ma.getmaskarray(a), np.ma.getmaskarray(b)
        if not np.array_equal(ma, mb):
            return False
        return same(np.ma.getdata(a)[~ma], np.ma.getdata(b)[~mb])
    if isinstance(a, np.ndarray) or isinstance(b, np.ndarray):
        a, b = np.asarray(a), np.asarray(b)
        if a.shape != b.shape:
            return False
        if a.dtype.kind in "fc" and b.dtype.kind in "fc":
            return bool(np.all((a == b) | ((a != a) & (b != b))))
        return bool(np.array_equal(a, b))
    if isinstance(a, float) and isinstance(b, float) and a != a and b != b:
        return True
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    if isinstance(a, dict) and isinstance(b, dict):
        return a.keys() == b.keys() and all(same(a[k], b[k]) for k in a)
    return a == b


def close(a, b, rtol=1e-5, atol=1e-6):
    """Closeness of arrays with equal masks and nan positions."""
    import numpy as np

    if np.shape(a) != np.shape(b):
        return False
    ma, mb = np.ma.getmaskarray(a), np.ma.getmaskarray(b)
    if not np.array_equal(ma, mb):
        return False
    a = np.asarray(np.ma.getdata(a), dtype=np.float64)
    b = np.asarray(np.ma.getdata(b), dtype=np.float64)
    a, b = np.where(ma, 0, a), np.where(mb, 0, b)
    return bool(np.allclose(a, b, rtol=rtol, atol=atol, equal_nan=True))


def expect_close(got, want, msg, rtol=1e-5, atol=1e-6, key=None):
    if not close(got, want, rtol, atol):
        raise Violation(msg, key=key, expected=short(want, 1500), got=short(got, 1500))


def expect_same(got, want, msg, key=None):
    if not same(got, want):
        raise Violation(msg, key=key, expected=short(want, 1500), got=short(got, 1500))


def raises(func, *args, **kwargs):
    """Returns the exception func raises, or None."""
    try:
        func(*args, **kwargs)
    except Exception as exc:
        return exc
    return None


def digest(obj):
    """Stable 8-byte digest of a (nested) value, arrays by content."""
    h = hashlib.blake2b(digest_size=8)

    def feed(o):
        np = sys.modules.get("numpy")
        if np is not None and isinstance(o, np.ma.MaskedArray):
            feed(np.ma.getmaskarray(o))
            feed(np.asarray(np.ma.filled(o, 0)))
        elif np is not None and isinstance(o, np.ndarray):
            h.update(str((o.dtype.str, o.shape)).encode())
            if o.dtype.kind == "O":
                h.update(repr(o.tolist()).encode())
            else:
                h.update(np.ascontiguousarray(o).tobytes())
        elif isinstance(o, (list, tuple)):
            h.update(b"(")
            for x in o:
                feed(x)
            h.update(b")")
        elif isinstance(o, dict):
            for k in sorted(o, key=repr):
                feed(k)
                feed(o[k])
        else:
            h.update(repr(o).encode())
        h.update(b"|")

    feed(obj)
    return h.digest()


class Cov:
    """Coverage of one worker: distinct states seen, real-code calls, traces compared with the model."""

    def __init__(self):
        self.states = {}
        self.transitions = 0
        self.traces = 0
        self.outcomes = {}
        self.skipped = {}

    def state(self, *obj):
        self.states[digest(obj)] = 1

    def step(self, n=1):
        """n calls into the implementation."""
        self.transitions += n

    def trace(self, n=1):
        """n complete executions whose observations agreed with the reference model."""
        self.traces += n

    def outcome(self, label, n=1):
        self.outcomes[label] = self.outcomes.get(label, 0) + n


class Section:
    def __init__(self, name, cases, check, note="", setup=None):
        self.name, self.cases, self.check, self.note, self.setup = name, cases, check, note, setup


def known_findings(prop):
    path = os.path.join(VERIF, "known_findings.json")
    if not os.path.exists(path):
        return {}
    with open(path) as f:
        data = json.load(f)
    return {e["key"]: e for e in data.get("findings", []) if e["property"] == prop}


def _worker(k, n, sections, tier, deadline, out):
    warnings.simplefilter("ignore")
    signal.signal(signal.SIGALRM, _hang)
    res = {"viol": [], "cases": {}, "samples": {}, "truncated": [], "wall": {}}
    cov = Cov()
    known = res["known_seen"] = {}
    kf = known_findings(res_prop[0])
    for sec in sections:
        t0 = time.time()
        cnt = nviol = 0
        if sec.setup:
            sec.setup()
        for i, case in enumerate(sec.cases(tier)):
            if i % n != k:
                continue
            if STOP and os.path.exists(STOP):
                break
            if time.time() > deadline:
                res["truncated"].append(sec.name)
                break
            try:
                before = (cov.transitions, cov.traces)
                signal.alarm(CASE_LIMIT)
                try:
                    r = sec.check(case, cov)
                finally:
                    signal.alarm(0)
                if cov.transitions == before[0]:
                    cov.transitions += 1
                if cov.traces == before[1]:
                    cov.traces += 1
                if r is not None:
                    cov.outcome(sec.name + ":" + str(r))
                    cov.state(sec.name, case, str(r))
            except Exception as exc:
                key = getattr(exc, "key", None) or sec.name + ":" + json.dumps(case, sort_keys=True, default=str)
                if key in kf:
                    known[key] = known.get(key, 0) + 1
                else:
                    nviol += 1
                    if STOP:
                        open(STOP, "w").close()
                    if nviol <= MAX_VIOL:
                        res["viol"].append(
                            {
                                "section": sec.name, "case": case, "key": key,
                                "message": getattr(exc, "msg", None) or "%s: %s" % (type(exc).__name__, exc),
                                "expected": short(getattr(exc, "expected", None), 3000),
                                "got": short(getattr(exc, "got", None), 3000),
                                "traceback": traceback.format_exc()[-3000:],
                            }
                        )
                    if nviol > 200:
                        break
            cnt += 1
            if cnt == 1 or (k == 1 and cnt == 2):
                res["samples"].setdefault(sec.name, []).append(case)
        res["cases"][sec.name] = cnt
        res["wall"][sec.name] = round(time.time() - t0, 2)
    res["cov"] = (list(cov.states), cov.transitions, cov.traces, cov.outcomes)
    with open(out, "wb") as f:
        pickle.dump(res, f)


res_prop = [None]


def main(mod):
    tier = os.environ.get("VERIF_TIER", "quick")
    only = None
    argv = sys.argv[1:]
    replay = None
    workers = WORKERS
    for a in list(argv):
        if a in ("quick", "thorough"):
            tier = a
        elif a.startswith("--section="):
            only = a.split("=", 1)[1].split(",")
        elif a.startswith("--replay="):
            replay = a.split("=", 1)[1]
        elif a.startswith("--workers="):
            workers = int(a.split("=", 1)[1])
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    prop = mod["PROPERTY"]
    res_prop[0] = prop
    warnings.simplefilter("ignore")
    t0 = time.time()
    try:
        sections = mod["sections"]() if "sections" in mod else mod["SECTIONS"]
    except Exception:
        # importing the code under test failed
        sections = None
        boot = traceback.format_exc()
    if replay:
        with open(replay) as f:
            r = json.load(f)
        for sec in sections or []:
            if sec.name == r["section"]:
                if sec.setup:
                    sec.setup()
                try:
                    sec.check(r["case"], Cov())
                except Exception as exc:
                    print("REPRODUCED:", exc)
                    print(" expected:", short(getattr(exc, "expected", None), 3000))
                    print(" got:     ", short(getattr(exc, "got", None), 3000))
                    sys.exit(1)
                print("not reproduced: the property holds for this case")
                sys.exit(0)
        print("section not found")
        sys.exit(2)
    evdir = os.path.join(VERIF, "evidence")
    rpdir = os.path.join(evdir, "replay")
    os.makedirs(rpdir, exist_ok=True)
    for f in os.listdir(rpdir):
        if f.startswith(prop + "-"):
            os.unlink(os.path.join(rpdir, f))
    viol, known_seen = [], {}
    cases, samples, trunc, outcomes, wall = {}, [], [], {}, {}
    states = set()
    transitions = traces = 0
    if sections is None:
        viol.append({"section": "import", "case": None, "key": "import", "message": "code under test does not import",
                     "traceback": boot, "expected": "importable", "got": boot[-500:]})
        sections = []
    if only:
        sections = [s for s in sections if s.name in only]
    if sections:
        budget = float(os.environ.get("VERIF_BUDGET", "780" if tier == "quick" else "36000"))
        deadline = t0 + budget
        import tempfile, shutil

        tmp = tempfile.mkdtemp(prefix="mc_%s_" % prop)
        pids = []
        sys.stdout.flush()
        sys.stderr.flush()
        for k in range(workers):
            pid = os.fork()
            if pid == 0:
                code = 0
                try:
                    scratch = os.path.join(tmp, "w%d" % k)
                    os.mkdir(scratch)
                    os.environ["VERIF_SCRATCH"] = scratch
                    os.chdir(scratch)
                    if os.environ.get("VERIF_DEBUG") != "1":
                        dn = os.open(os.devnull, os.O_WRONLY)
                        os.dup2(dn, 1)
                        ef = os.open(os.path.join(tmp, "e%d" % k), os.O_WRONLY | os.O_CREAT)
                        os.dup2(ef, 2)
                    _worker(k, workers, sections, tier, deadline, os.path.join(tmp, "r%d" % k))
                except BaseException:
                    traceback.print_exc()
                    code = 3
                os._exit(code)
            pids.append(pid)
        for k, pid in enumerate(pids):
            _, st = os.waitpid(pid, 0)
            path = os.path.join(tmp, "r%d" % k)
            if st != 0 or not os.path.exists(path):
                err = ""
                ep = os.path.join(tmp, "e%d" % k)
                if os.path.exists(ep):
                    err = open(ep, errors="replace").read()[-3000:]
                viol.append({"section": "worker", "case": k, "key": "worker", "message":
                             "worker process ended abnormally (status %d)" % st, "traceback": err,
                             "expected": "normal end", "got": err[-500:]})
                continue
            with open(path, "rb") as f:
                r = pickle.load(f)
            viol.extend(r["viol"])
            for key, c in r["known_seen"].items():
                known_seen[key] = known_seen.get(key, 0) + c
            for s, c in r["cases"].items():
                cases[s] = cases.get(s, 0) + c
            for s, w in r["wall"].items():
                wall[s] = max(wall.get(s, 0), w)
            for s, c in r["samples"].items():
                if sum(1 for x in samples if x["section"] == s) < 2:
                    samples.append({"section": s, "case": c[0]})
            trunc.extend(r["truncated"])
            st_, tr_, tv_, oc_ = r["cov"]
            states.update(st_)
            transitions += tr_
            traces += tv_
            for o, c in oc_.items():
                outcomes[o] = outcomes.get(o, 0) + c
        shutil.rmtree(tmp, ignore_errors=True)
    ncases = sum(cases.values())
    vacuous = [s.name for s in sections if not cases.get(s.name) and s.name not in trunc]
    if vacuous and not viol:
        viol.append({"section": vacuous[0], "case": None, "key": "vacuous", "message":
                     "section enumerated no case: %s" % vacuous, "traceback": "", "expected": ">0", "got": "0"})
    paths = []
    for i, v in enumerate(viol[:MAX_VIOL]):
        p = os.path.join(rpdir, "%s-%d.json" % (prop, i))
        v["property"] = prop
        v["rerun"] = "bash /verif/run.sh %s --replay=%s" % (prop, p)
        with open(p, "w") as f:
            json.dump(v, f, indent=1, default=str)
        paths.append((p, v))
    bounds = {s.name: s.note for s in sections}
    top = dict(sorted(outcomes.items(), key=lambda kv: -kv[1])[:60])
    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": mod.get("LEVEL", "model_checking"),
        "coverage": {
            "states": len(states), "transitions": transitions, "traces_validated_against_impl": traces,
            "evaluations": ncases,
            "rule": "every case of each section's finite space is run (no sampling); a state is a distinct "
                    "(section, input, observed outcome) triple; a trace counts when its observations were "
                    "compared with the reference model and agreed",
            "samples": samples[:40], "exhaustive": not trunc,
            "cases_per_section": cases, "section_bounds": bounds, "distinct_outcomes": len(outcomes),
            "outcomes": top, "section_wall_s": wall, "truncated_sections": sorted(set(trunc)),
        },
        "assumptions": mod.get("ASSUMPTIONS", []),
        "wall_s": round(time.time() - t0, 2), "violations": len(viol),
    }
    ev["coverage"]["known_findings_observed"] = sum(known_seen.values())
    with open(os.path.join(evdir, prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1, default=str)
    kf = known_findings(prop)
    for key in sorted(known_seen):
        print("KNOWN-FINDING: property=%s %s" % (prop, kf[key]["what"]))
    print("%s %s: %d cases, %d states, %d transitions, %d traces agreed, %d outcomes, %.1fs%s" % (
        prop, tier, ncases, len(states), transitions, traces, len(outcomes), time.time() - t0,
        " TRUNCATED" if trunc else ""))
    if os.environ.get("VERIF_VERBOSE"):
        for s in cases:
            print("   %-28s %7d cases %7.1fs" % (s, cases[s], wall[s]))
    if viol:
        for p, v in paths[:10]:
            print("  [%s] %s" % (v["section"], str(v["message"])[:300]))
            print("VIOLATION property=%s replay=%s" % (prop, p))
        sys.exit(1)
    sys.exit(0)
