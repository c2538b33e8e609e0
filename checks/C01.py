"""C01: saving is atomic at every crash point, torn write and file-system error."""
import os
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SHIM = os.path.join(HERE, "build", "shim.so")
if SHIM not in os.environ.get("LD_PRELOAD", ""):
    import subprocess

    if not os.path.exists(SHIM) or os.path.getmtime(SHIM) < os.path.getmtime(os.path.join(HERE, "native", "shim.c")):
        subprocess.check_call(["bash", os.path.join(HERE, "setup.sh")])
    os.environ["LD_PRELOAD"] = SHIM
    os.execv(sys.executable, [sys.executable] + sys.argv)

import ctypes
import errno
import itertools
import shutil
import signal
from mc import Section, Violation, expect, main

PROPERTY = "C01"
LEVEL = "fault_enumeration"
ASSUMPTIONS = [
    "crash model: process death between or inside file-system calls; data written before the crash survives "
    "(no loss of un-synced pages)",
    "the netCDF writer is the stand-in's, on the real netCDF4/HDF5 libraries",
]
CRASH, TORN, FAIL_ONCE, FAIL_FROM, SHORT = 2, 3, 4, 5, 6

# histories: what is in the directory before, what is being saved, how the name is given
SCEN = []
for prior in ("none", "old", "old+stale", "stale"):
    for new in ("one", "list", "prob", "sameshape"):
        for name in ("abs", "rel", "path"):
            for comp in (0, 1, 9):
                SCEN.append((prior, new, name, comp))


def _lib():
    lib = ctypes.CDLL(None)
    lib.shim_log.restype = ctypes.c_char_p
    lib.shim_count.restype = ctypes.c_long
    lib.shim_arm.argtypes = [ctypes.c_char_p, ctypes.c_int, ctypes.c_long, ctypes.c_int]
    return lib


def _cubes(kind):
    import numpy as np
    from iris.cube import CubeList
    from improver.synthetic_data.set_up_test_cubes import set_up_probability_cube, set_up_variable_cube

    base = np.arange(9, dtype=np.float32).reshape(3, 3) + 273
    if kind == "one":
        return set_up_variable_cube(base + 5, attributes={"title": "new", "mosg__model": "uk"})
    if kind == "old":
        return set_up_variable_cube(base, attributes={"title": "old"})
    if kind == "sameshape":
        return set_up_variable_cube(base + 1, attributes={"title": "old"})
    if kind == "list":
        a = set_up_variable_cube(base + 7)
        b = set_up_variable_cube(base + 8, name="wind_speed", units="m s-1")
        return CubeList([a, b])
    if kind == "prob":
        return set_up_probability_cube(np.full((2, 3, 3), 0.25, np.float32), np.array([1, 2], np.float32))
    raise KeyError(kind)


def _content(path):
    """Semantic content of a netCDF file, None if it is not a complete readable file."""
    import netCDF4

    try:
        ds = netCDF4.Dataset(path)
    except Exception:
        return None
    try:
        ds.set_auto_maskandscale(False)
        out = {"attrs": {k: repr(ds.getncattr(k)) for k in ds.ncattrs()}, "dims": {k: len(v) for k, v in ds.dimensions.items()}}
        for n, v in ds.variables.items():
            out[n] = (str(v.dtype), v.dimensions, v[...].tobytes() if v.dtype is not str else repr(v[...]),
                      {k: repr(v.getncattr(k)) for k in v.ncattrs()})
        return out
    except Exception:
        return None
    finally:
        ds.close()


_REF = {}


def _reference(kind, comp):
    from improver.utilities.save import save_netcdf

    key = (kind, comp)
    if key not in _REF:
        d = os.path.join(os.environ["VERIF_SCRATCH"], "ref")
        os.makedirs(d, exist_ok=True)
        p = os.path.join(d, "ref.nc")
        if os.path.exists(p):
            os.unlink(p)
        save_netcdf(_cubes(kind), p, comp)
        expect(os.path.exists(p), "saving did not create the file")
        c = _content(p)
        expect(c is not None, "an undisturbed save does not leave a readable file")
        with open(p, "rb") as f:
            _REF[key] = (c, f.read())
        os.unlink(p)
    return _REF[key]


def _other():
    """A scratch directory on another file system than that of the temporary files, if there is one."""
    if not os.access("/dev/shm", os.W_OK) or os.stat("/dev/shm").st_dev == os.stat(os.environ["VERIF_SCRATCH"]).st_dev:
        return None
    return os.path.join("/dev/shm", "%s.%d" % (os.path.basename(os.environ["VERIF_SCRATCH"]), os.getpid()))


def _prepare(prior, name=None):
    d = os.path.join(os.environ["VERIF_SCRATCH"], "d")
    if name == "other" and _other():
        d = _other()
    shutil.rmtree(d, ignore_errors=True)
    os.mkdir(d)
    with open(os.path.join(d, "bystander.nc"), "wb") as f:
        f.write(b"bystander")
    with open(os.path.join(d, "bystander.nc.tmp"), "wb") as f:
        f.write(b"bystander tmp")
    if "old" in prior:
        with open(os.path.join(d, "t.nc"), "wb") as f:
            f.write(_reference("old", 1)[1])
    if "stale" in prior:
        with open(os.path.join(d, "t.nc.tmp"), "wb") as f:
            f.write(_reference("old", 1)[1][:700])
    return d


def _save_in_child(d, new, name, comp, mode, k, err):
    """Forks a child that saves with the fault armed. Returns (status, log); status: 0 returned, 3 raised,
    97 crashed by the shim."""
    from improver.utilities.save import save_netcdf

    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            signal.alarm(0)
            lib = _lib()
            cubes = _cubes(new)
            os.chdir(d)
            if name in ("abs", "other"):
                target = os.path.join(d, "t.nc")
            elif name == "rel":
                target = "t.nc"
            else:
                import pathlib

                target = pathlib.Path(d) / "t.nc"
            code = 3
            lib.shim_arm(d.encode() + b"/", mode, k, err)
            try:
                save_netcdf(cubes, target, comp)
                code = 0
            except Exception:
                code = 3
            lib.shim_disarm()
            log = lib.shim_log()
            while log:
                n = os.write(w, log[:60000])
                log = log[n:]
            os._exit(code)
        finally:
            os._exit(96)
    os.close(w)
    chunks = []
    while True:
        b = os.read(r, 65536)
        if not b:
            break
        chunks.append(b)
    os.close(r)
    _, st = os.waitpid(pid, 0)
    status = os.WEXITSTATUS(st) if os.WIFEXITED(st) else -os.WTERMSIG(st)
    return status, b"".join(chunks).decode()


def _target_state(d, prior, new, comp):
    p = os.path.join(d, "t.nc")
    if not os.path.exists(p):
        return "absent"
    with open(p, "rb") as f:
        raw = f.read()
    if "old" in prior and raw == _reference("old", 1)[1]:
        return "old"
    ref, rawref = _reference(new, comp)
    if raw == rawref or _content(p) == ref:
        return "new"
    return "corrupt(%d bytes)" % len(raw)


def check_point(case, cov):
    try:
        return _check_point(case, cov)
    finally:
        if case[2] == "other" and _other():
            shutil.rmtree(_other(), ignore_errors=True)


def _check_point(case, cov):
    prior, new, name, comp, mode, err = case
    d = _prepare(prior, name)
    # fault-free run: counts the points
    st, log = _save_in_child(d, new, name, comp, 1, -1, 0)
    cov.step()
    expect(st == 0, "fault-free save failed", "returns", st)
    expect(_target_state(d, prior, new, comp) == "new", "fault-free save did not produce the new content")
    expect(sorted(os.listdir(d)) == ["bystander.nc", "bystander.nc.tmp", "t.nc"],
           "a successful save leaves other files behind", ["t.nc"], sorted(os.listdir(d)))
    ops = [l.split(" ")[0] for l in log.split("\n") if l]
    allowed = {"old"} if "old" in prior else {"absent"}
    for k in range(len(ops)):
        if mode in (TORN, SHORT) and ops[k] not in ("write", "pwrite", "pwrite64", "sendfile", "copy_file_range"):
            continue
        d = _prepare(prior, name)
        st, _ = _save_in_child(d, new, name, comp, mode, k, err)
        cov.step()
        state = _target_state(d, prior, new, comp)
        where = "%s at file operation %d/%d (%s)" % (
            {CRASH: "crash", TORN: "torn write and crash", FAIL_ONCE: "error " + errno.errorcode.get(err, ""),
             FAIL_FROM: "persistent " + errno.errorcode.get(err, ""), SHORT: "short write"}[mode], k, len(ops), ops[k])
        if st == 0:
            expect(state == "new", "save returned normally after %s but the target is %s" % (where, state), "new", state)
        elif mode in (CRASH, TORN):
            expect(st == 97, "unexpected end of the saving process: %s (%s)" % (st, where))
        expect(state in allowed | {"new"},
               "after %s the target is neither its previous content nor the complete new content" % where,
               sorted(allowed | {"new"}), state)
        with open(os.path.join(d, "bystander.nc"), "rb") as f:
            expect(f.read() == b"bystander", "an unrelated file was changed (%s)" % where)
        with open(os.path.join(d, "bystander.nc.tmp"), "rb") as f:
            expect(f.read() == b"bystander tmp", "an unrelated file was changed (%s)" % where)
        cov.state("fs", prior, new, name, comp, mode, err, k, state, st)
        cov.outcome("target=%s status=%s" % (state, st))
        # recovery: saving again succeeds and gives the complete content whatever the crash left behind
        if mode in (CRASH, TORN):
            st2, _ = _save_in_child(d, new, name, comp, 1, -1, 0)
            cov.step()
            expect(st2 == 0 and _target_state(d, prior, new, comp) == "new",
                   "saving again after %s fails" % where, "new", (st2, _target_state(d, prior, new, comp)))
            expect(sorted(os.listdir(d)) == ["bystander.nc", "bystander.nc.tmp", "t.nc"],
                   "files left behind after recovery from %s" % where, ["t.nc"], sorted(os.listdir(d)))
        cov.trace()


def cases_point(tier):
    if tier == "quick":
        scen = [("none", "one", "abs", 1), ("old", "one", "abs", 1), ("old", "list", "rel", 1), ("old+stale", "prob", "path", 0),
                ("stale", "sameshape", "abs", 9), ("old", "sameshape", "rel", 0), ("old", "prob", "abs", 1),
                ("none", "list", "path", 0), ("old", "one", "other", 1)]
    else:
        scen = SCEN + [("none", "list", "other", 1), ("old", "one", "other", 1), ("old+stale", "prob", "other", 1)]
    for i, s in enumerate(scen):
        for mode, err in ((CRASH, 0), (TORN, 0), (FAIL_ONCE, errno.ENOSPC), (FAIL_FROM, errno.ENOSPC), (FAIL_ONCE, errno.EIO),
                          (SHORT, 0)):
            if tier == "quick" and i >= 4 and mode not in (CRASH, FAIL_ONCE):
                continue
            yield list(s) + [mode, err]


def check_reject(case, cov):
    """A refused or failing save (invalid cube, at any position of the list; bad option) leaves the target as it was."""
    import numpy as np
    from iris.cube import CubeList
    from improver.utilities.save import save_netcdf

    prior, bad, pos, n = case
    d = _prepare(prior)
    cubes = CubeList([_cubes("one") for _ in range(n)])
    kw = {}
    b = cubes[pos]
    if bad == "units":
        b.units = "unknown"
    elif bad == "float64":
        b.data = b.data.astype(np.float64)
    elif bad == "time_units":
        b.coord("time").units = "hours since 1970-01-01 00:00:00"
    elif bad == "time_dtype":
        b.coord("time").points = b.coord("time").points.astype(np.int32)
    elif bad == "period_dtype":
        b.coord("forecast_period").points = b.coord("forecast_period").points.astype(np.int64)
    elif bad == "bounds64":
        c = b.coord(axis="y")
        c.bounds = np.stack([c.points - 1, c.points + 1], axis=1).astype(np.float64)
    elif bad == "reftime_units":
        b.coord("forecast_reference_time").units = "minutes since 1970-01-01 00:00:00"
    elif bad == "coord64":
        c = b.coord(axis="x")
        c.points = c.points.astype(np.float64)
    elif bad == "complevel":
        kw = {"compression_level": [10, -1, 100][pos % 3]}
    elif bad == "nodir":
        pass
    target = os.path.join(d, "t.nc") if bad != "nodir" else os.path.join(d, "missing", "t.nc")
    before = sorted(os.listdir(d))
    raised = None
    try:
        save_netcdf(cubes, target, **kw)
    except Exception as exc:
        raised = exc
    expect(raised is not None, "an invalid cube or option was saved without an error: %s" % bad)
    expect(sorted(os.listdir(d)) == before, "a refused save changed the directory", before, sorted(os.listdir(d)))
    st = _target_state(d, prior, "one", 1)
    want = "old" if "old" in prior else "absent"
    expect(st == want, "a refused save changed the target", want, st)
    return type(raised).__name__


def cases_reject(tier):
    for prior in ("none", "old"):
        for n in (1, 2, 3):
            for pos in range(n):
                for bad in ("units", "float64", "time_units", "time_dtype", "period_dtype", "bounds64", "reftime_units", "coord64", "complevel", "nodir"):
                    yield [prior, bad, pos, n]


def check_history(case, cov):
    """Sequences of saves over two names; after each, every file holds exactly what was last saved there; a cube
    loaded lazily from a file can be saved back to that file."""
    from improver.utilities.load import load_cubelist
    from improver.utilities.save import save_netcdf

    d = _prepare("none")
    model = {}
    lazy = None
    for op in case:
        kind, name = op
        p = os.path.join(d, name)
        if kind == "resave":
            if name not in model or model[name][0] == "list":
                continue
            cl = load_cubelist(p)
            save_netcdf(cl, p, model[name][1])
            cov.step(2)
        else:
            comp = 1 if kind != "prob" else 0
            save_netcdf(_cubes(kind), p, comp)
            model[name] = (kind, comp)
            cov.step()
        files = sorted(os.listdir(d))
        want = sorted(["bystander.nc", "bystander.nc.tmp"] + list(model))
        expect(files == want, "directory content after %s" % (op,), want, files)
        for n, (k, comp) in model.items():
            got, ref = _content(os.path.join(d, n)), _reference(k, comp)[0]
            if kind == "resave" or "r" in n:
                g = {x: y[2] for x, y in got.items() if x not in ("attrs", "dims")}
                r = {x: y[2] for x, y in ref.items() if x not in ("attrs", "dims")}
                expect(g == r, "content of %s after %s" % (n, case), short_keys(r), short_keys(g))
            elif not any(o[0] == "resave" for o in case):
                expect(got == ref, "content of %s after %s" % (n, case), ref, got)
    return str(sorted(model.items()))


def short_keys(d):
    return {k: v[:40] for k, v in d.items()}


def cases_history(tier):
    ops = [(k, n) for k in ("one", "sameshape", "prob", "resave") for n in ("a.nc", "b.nc")]
    for depth in (1, 2, 3) if tier == "quick" else (1, 2, 3, 4):
        for h in itertools.product(ops, repeat=depth):
            yield [list(o) for o in h]


def sections():
    import improver.utilities.save  # noqa
    import improver.utilities.load  # noqa
    import improver.synthetic_data.set_up_test_cubes  # noqa

    return [
        Section("crash_points", cases_point, check_point,
                "every file-system operation of a save x {crash, torn write, one error, persistent error, short write}, "
                "for each prior directory state x cube kind x file-name form x compression"),
        Section("refusals", cases_reject, check_reject, "lists of 1-3 cubes with one invalid cube at each position, bad options"),
        Section("histories", cases_history, check_history, "all sequences of up to 3 (thorough 4) save/resave operations on 2 names"),
    ]


if __name__ == "__main__":
    main(globals())
