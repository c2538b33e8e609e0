"""C03: comparing two netCDF files reports every difference and nothing else."""
import copy
import gc
import itertools
import os

from mc import Section, Violation, expect, main

PROPERTY = "C03"
ASSUMPTIONS = ["attribute arrays are compared by value and length (their numeric dtype is outside the alphabet)"]


def base():
    import numpy as np

    f = np.float32
    return {
        "attrs": {"title": "forecast", "count": np.int32(3), "scale": np.float32(0.5), "levels": np.array([1.0, 2.0], f), "history": "h0"},
        "dims": {"t": 2, "x": 3, "y": 3, "spare": 4},
        "vars": {
            "t": {"dims": ("t",), "data": np.array([1510286400, 1510290000], np.int64), "attrs": {"units": "seconds since 1970-01-01"}},
            "x": {"dims": ("x",), "data": np.array([0.0, 2000.0, 4000.0], f), "attrs": {"units": "m"}},
            "field": {"dims": ("t", "y", "x"), "data": (np.arange(18, dtype=f).reshape(2, 3, 3) - 4) * 10, "attrs": {"units": "K", "_FillValue": f(-999)}},
            "flag": {"dims": ("y",), "data": np.array([0, 1, 0], np.int8), "attrs": {"missing": f("nan"), "_FillValue": np.int8(-127)}},
            "scalar": {"dims": (), "data": np.array(7.0, f), "attrs": {}},
            "wmo": {"dims": ("spare",), "data": np.array(["00001", "00002", "3", ""], object), "attrs": {"_": "s"}},
            "nanfield": {"dims": ("x",), "data": np.array([np.nan, 1.0, np.inf], np.float64), "attrs": {"_FillValue": np.float64("nan")}},
        },
        "groups": {
            "g": {
                "attrs": {"note": "inner"}, "dims": {"z": 2},
                "vars": {"v": {"dims": ("z",), "data": np.array([1.0, 2.0], f), "attrs": {"units": "1"}},
                         "w": {"dims": ("z",), "data": np.array([5, -5], np.int32), "attrs": {}}},
                "groups": {"h": {"attrs": {"k": np.int32(1)}, "dims": {"q": 2}, "groups": {},
                                 "vars": {"u": {"dims": ("q", ), "data": np.array([1.5, 2.5], f), "attrs": {"n": "a"}}}}},
            }
        },
    }


def write(spec, path):
    import netCDF4

    def fill(ds, s):
        for k, v in s["attrs"].items():
            ds.setncattr(k, v)
        for k, n in s["dims"].items():
            ds.createDimension(k, n)
        for k, v in s["vars"].items():
            d = v["data"]
            fv = v["attrs"].get("_FillValue")
            var = ds.createVariable(k, str if d.dtype == object else d.dtype, v["dims"], fill_value=fv)
            var.set_auto_maskandscale(False)
            for a, x in v["attrs"].items():
                if a != "_FillValue":
                    var.setncattr(a, x)
            if d.ndim:
                var[:] = d
            else:
                var[...] = d
        for k, g in s["groups"].items():
            fill(ds.createGroup(k), g)

    ds = netCDF4.Dataset(path, "w")
    try:
        fill(ds, spec)
    finally:
        ds.close()


def group_of(spec, gpath):
    for g in gpath:
        spec = spec["groups"][g]
    return spec


# ---- mutations: [kind, group path, args...]; apply to a spec -------------------------------------------------
def mutations():
    import numpy as np

    b = base()
    out = [["none"]]
    for gp in ([], ["g"], ["g", "h"]):
        g = group_of(b, gp)
        out.append(["gattr_add", gp, "extra"])
        out.append(["group_add", gp, "newgroup"])
        for a in g["attrs"]:
            out.append(["gattr_del", gp, a])
            out.append(["gattr_val", gp, a])
            out.append(["gattr_type", gp, a])
        out.append(["dim_add", gp, "newdim"])
        for d in g["dims"]:
            out.append(["dim_size", gp, d])
            out.append(["dim_rename", gp, d])
        out.append(["var_add", gp, "newvar"])
        for v, spec in g["vars"].items():
            out.append(["var_del", gp, v])
            out.append(["var_rename", gp, v])
            out.append(["var_dtype", gp, v])
            out.append(["vattr_add", gp, v, "extra"])
            for a in spec["attrs"]:
                if a != "_FillValue":
                    out.append(["vattr_del", gp, v, a])
                    out.append(["vattr_type", gp, v, a])
                out.append(["vattr_val", gp, v, a])
            for i in range(max(1, spec["data"].size)):
                for how in ("big", "inside", "outside", "nan", "-"):
                    out.append(["val", gp, v, i, how])
    out.append(["transpose", [], "field", None])
    out.append(["redim", [], "flag", "x"])
    out.append(["redim", [], "nanfield", "y"])
    out.append(["undim", [], "flag", None])
    for gp in ([], ["g"]):
        for g in group_of(b, gp)["groups"]:
            out.append(["group_del", gp, g])
    return out


def attr_other(val):
    import numpy as np

    if isinstance(val, str):
        return val + "x"
    if isinstance(val, np.ndarray):
        r = val.copy()
        r[-1] += 1
        return r
    if val != val:
        return type(val)(5)
    return type(val)(val + 1)


def apply(m, spec, rtol, atol):
    """Mutates spec; returns (name of the differing element, kind) or None when the mutation is not a difference."""
    import numpy as np

    kind = m[0]
    if kind == "none":
        return None
    g = group_of(spec, m[1])
    name = m[2]
    if kind == "gattr_add":
        g["attrs"][name] = "added"
    elif kind == "gattr_del":
        del g["attrs"][name]
    elif kind == "gattr_val":
        g["attrs"][name] = attr_other(g["attrs"][name])
    elif kind == "gattr_type":
        v = g["attrs"][name]
        g["attrs"][name] = np.float64(v) if not isinstance(v, (str, np.ndarray)) else ("text" if isinstance(v, np.ndarray) else np.int32(1))
    elif kind == "group_add":
        g["groups"][name] = {"attrs": {}, "dims": {}, "vars": {}, "groups": {}}
    elif kind == "group_del":
        del g["groups"][name]
    elif kind == "dim_add":
        g["dims"][name] = 2
    elif kind == "dim_rename":
        g["dims"] = {(k if k != name else k + "_r"): v for k, v in g["dims"].items()}
        for v in g["vars"].values():
            v["dims"] = tuple(d if d != name else d + "_r" for d in v["dims"])
    elif kind == "dim_size":
        g["dims"][name] += 1
        for v in g["vars"].values():
            for ax, d in enumerate(v["dims"]):
                if d == name:
                    v["data"] = np.concatenate([v["data"], v["data"].take([0], axis=ax)], axis=ax)
    elif kind == "var_add":
        d = list(g["dims"])[0]
        g["vars"][name] = {"dims": (d,), "data": np.zeros(g["dims"][d], np.float32), "attrs": {}}
    elif kind == "var_del":
        del g["vars"][name]
    elif kind == "var_rename":
        g["vars"] = {(k if k != name else k + "_r"): v for k, v in g["vars"].items()}
    elif kind == "var_dtype":
        v = g["vars"][name]
        d = v["data"]
        if d.dtype == object:
            v["data"] = np.arange(d.size, dtype=np.int32)
        else:
            new = {"f4": np.float64, "f8": np.float32, "i8": np.float64, "i4": np.int64, "i1": np.int16}[d.dtype.str[1:]]
            v["data"] = d.astype(new)
            if "_FillValue" in v["attrs"]:
                v["attrs"]["_FillValue"] = new(v["attrs"]["_FillValue"])
    elif kind == "vattr_add":
        g["vars"][name]["attrs"][m[3]] = "added"
    elif kind == "vattr_del":
        del g["vars"][name]["attrs"][m[3]]
    elif kind == "vattr_val":
        g["vars"][name]["attrs"][m[3]] = attr_other(g["vars"][name]["attrs"][m[3]])
    elif kind == "vattr_type":
        v = g["vars"][name]["attrs"][m[3]]
        g["vars"][name]["attrs"][m[3]] = np.int32(1) if isinstance(v, str) else "text"
    elif kind == "transpose":
        v = g["vars"][name]
        v["dims"] = ("t", "x", "y")
    elif kind == "redim":
        g["vars"][name]["dims"] = (m[3],)
    elif kind == "undim":
        v = g["vars"][name]
        v["dims"] = ()
        v["data"] = np.array(0, np.int8)
    elif kind == "val":
        v = g["vars"][name]
        d = v["data"]
        i, how = m[3], m[4]
        flat = d.reshape(-1)
        old = flat[i] if d.ndim else d[()]
        if d.dtype == object:
            new = {"big": old + "9", "nan": old.upper(), "-": "x" + old, "inside": old, "outside": old + " "}[how]
        elif d.dtype.kind == "i":
            new = {"big": 100 if d.dtype.itemsize == 1 else old + 100000, "nan": old, "-": -old, "inside": old, "outside": old + 1}[how]
        else:
            coord = name in g["dims"]
            tol = atol + rtol * abs(float(old))
            if not np.isfinite(float(old)):
                new = {"big": 1e6, "nan": np.nan, "-": -old, "inside": old, "outside": 0.0}[how]
            else:
                new = {"big": float(old) + 1e4 + 100 * tol, "nan": np.nan, "-": -float(old) - 1, "inside": float(old) + 0.5 * tol,
                       "outside": float(old) + 2 * tol}[how]
            new = d.dtype.type(new)
            diff = abs(float(new) - float(old))
            if new == old or (new != new and old != old):
                isdiff = False
            elif how == "inside":
                # rounding of the perturbed value to the dtype must not leave the tolerance undecided
                if not coord and diff > 0.9 * tol:
                    return "undecided"
                isdiff = coord
            else:
                if np.isfinite(float(old)) and not coord and 0.8 * tol < diff < 1.2 * tol:
                    return "undecided"
                isdiff = coord or not np.isfinite(float(old)) or not diff <= tol
        if d.dtype == object or d.dtype.kind == "i":
            isdiff = new != old
            if isdiff and d.dtype.kind == "i" and name not in g["dims"]:
                gap = abs(int(new) - int(old))
                tol = atol + rtol * abs(int(old))
                if 0.9 * tol < gap < 1.1 * tol:
                    return "undecided"
                isdiff = gap > tol
        d = d.copy()
        if d.ndim:
            d.reshape(-1)[i] = new
        else:
            d[()] = new
        v["data"] = d
        if not isdiff:
            return None
    else:
        raise KeyError(kind)
    if kind == "val" or kind.startswith("vattr"):
        return name
    return name


def run_compare(a, b, rtol, atol, exclude, ignored, both=True):
    """Compares with a collecting reporter and with the default one. Returns the messages."""
    from improver.utilities.compare import compare_netcdfs

    msgs = []
    if next(COMPARED) % 40 == 0:
        gc.collect()  # the compared files stay open until they are collected
    compare_netcdfs(a, b, rtol, atol, exclude_vars=exclude, ignored_attributes=ignored, reporter=msgs.append)
    if not both:
        return msgs
    raised = None
    try:
        compare_netcdfs(a, b, rtol=rtol, atol=atol, exclude_vars=exclude, ignored_attributes=ignored)
    except ValueError as exc:
        raised = exc
    expect((raised is not None) == bool(msgs), "default reporter and given reporter disagree", bool(msgs), str(raised))
    return msgs


def excluded(m, exclude, ignored):
    """Is the difference made by mutation m to be ignored under these options?"""
    kind = m[0]
    name = m[2] if len(m) > 2 else None
    if kind in ("gattr_add", "gattr_del", "gattr_val", "gattr_type"):
        return name in ignored
    if kind.startswith("vattr"):
        return name in exclude or m[3] in ignored
    if kind in ("val", "var_del", "var_add", "var_dtype", "transpose", "redim", "undim"):
        return name in exclude
    return None  # dims and renames touch several elements: only asserted without options


CACHE = {}
COUNT = itertools.count()
COMPARED = itertools.count(1)


def file_for(muts, tol):
    key = (repr(muts), tol)
    if key not in CACHE:
        if len(CACHE) > 400:
            for k in [k for k in CACHE if k[0] != repr([["none"]])]:
                os.unlink(CACHE.pop(k)[0])
        spec = copy.deepcopy(base())
        res = [apply(m, spec, *tol) for m in muts]
        p = os.path.join(os.environ["VERIF_SCRATCH"], "f%d.nc" % next(COUNT))
        write(spec, p)
        CACHE[key] = (p, res)
    return CACHE[key]


def check_single(case, cov):
    m, tol, exclude, ignored = case
    tol = tuple(tol)
    b, _ = file_for([["none"]], tol)
    a, res = file_for([m], tol)
    if res[0] == "undecided":
        return "undecided"
    diff = res[0] is not None
    ex, ig = exclude or [], ignored or []
    if diff and (ex or ig):
        e = excluded(m, ex, ig)
        if e is None:
            return "not asserted"
        diff = not e
    for x, y, order in ((a, b, "actual changed"), (b, a, "desired changed")):
        msgs = run_compare(x, y, tol[0], tol[1], exclude, ignored, both=order == "actual changed")
        cov.step(2)
        expect(bool(msgs) == diff, "difference %s: %s, exclude %s, ignore %s" % ("not reported" if diff else "reported where there is none", m, ex, ig),
               diff, msgs)
        if diff:
            expect(any(str(res[0]) in s for s in msgs), "no message names %s (%s)" % (res[0], order), res[0], msgs)
    cov.state("single", m, tol, ex, ig, diff)
    return m[0] + (":diff" if diff else ":same")


def cases_single(tier):
    ms = mutations()
    tols = [(1e-5, 1e-5), (0.0, 0.01), (0.01, 0.0), (0.0, 0.0), (1e-4, 2.0)]
    if tier == "quick":
        tols = [(1e-5, 1e-5), (0.0, 0.01), (0.01, 0.0)]
    for m in ms:
        for tol in tols:
            yield [m, tol, None, None]
        if tier == "quick" and m[0] == "val" and (m[3] > 1 or m[4] not in ("big", "inside")):
            continue
        for ex in (["field"], ["x", "scalar"], ["u", "v"]):
            yield [m, (1e-5, 1e-5), ex, None]
        for ig in (["history"], ["units", "title"], ["k", "note", "missing"]):
            yield [m, (1e-5, 1e-5), None, ig]
        yield [m, (1e-5, 1e-5), ["flag", "wmo"], ["units", "history"]]


def check_pair(case, cov):
    """Two differences in different elements are both reported."""
    m1, m2 = case
    tol = (1e-5, 1e-5)
    b, _ = file_for([["none"]], tol)
    try:
        a, res = file_for([m1, m2], tol)
    except (KeyError, IndexError, ValueError, RuntimeError):
        return "incompatible"
    if "undecided" in res:
        return "undecided"
    want = [r for r in res if r is not None]
    msgs = run_compare(a, b, tol[0], tol[1], None, None, both=False)
    cov.step(2)
    for w in want:
        expect(any(w in s for s in msgs), "no message names %s for %s" % (w, case), want, msgs)
    expect(bool(msgs) == bool(want), "reported difference without one: %s" % (case,), want, msgs)
    cov.state("pair", m1, m2)
    return "%d" % len(want)


def cases_pair(tier):
    ms = mutations()
    if tier == "quick":
        seen, sel = set(), []
        for m in ms:
            k = (m[0], tuple(m[1]) if len(m) > 1 and m[0][:3] in ("val", "var", "gat") else "")
            if k not in seen:
                seen.add(k)
                sel.append(m)
        ms = sel
    for i, m1 in enumerate(ms):
        for m2 in ms[i + 1:]:
            if len(m1) > 2 and len(m2) > 2 and m1[2] == m2[2]:
                continue
            dels = [m for m in (m1, m2) if m[0] == "group_del"]
            if any(m[1][:len(d[1]) + 1] == d[1] + [d[2]] for d in dels for m in (m1, m2) if len(m) > 1):
                continue  # an edit inside a deleted group
            yield [m1, m2]


def check_cli(case, cov):
    """The command prints a message exactly when the files differ and accepts missing files."""
    import contextlib
    import io
    import pathlib
    from improver.cli import compare as cli

    m, missing = case
    tol = (1e-5, 1e-5)
    b, _ = file_for([["none"]], tol)
    a, res = file_for([m], tol)
    if res[0] == "undecided":
        return "undecided"
    if missing == 1:
        a = a + ".absent"
    if missing == 2:
        b = b + ".absent"
    out = io.StringIO()
    with contextlib.redirect_stdout(out):
        cli.process(pathlib.Path(a), pathlib.Path(b), rtol=1e-5, atol=1e-5)
    text = out.getvalue().strip()
    want = bool(missing) or res[0] is not None
    expect(bool(text) == want, "compare command output for %s" % (case,), want, text)
    return "%s" % want


def cases_cli(tier):
    for m in mutations():
        if m[0] != "val" or m[3] < 2:
            yield [m, 0]
    for miss in (1, 2):
        yield [["none"], miss]


# ---- elements that need a file of their own: [label, make desired, make actual, tolerances, is it a difference?] ----------
def special_base():
    import numpy as np

    f = np.float32
    return {
        "attrs": {"bounds": np.array([0.1, 1000.0], np.float64), "ints": np.array([1, 2], np.int32), "x": np.float64(0.3)},
        "dims": {"lev": 3, "y": 2, "lone": 4, "txt": 3, "n": 2},
        "vars": {
            "lev": {"dims": ("lev",), "data": np.array([10.0, 500.0, 1000.0], f), "attrs": {}},
            "y": {"dims": ("y",), "data": np.array([1.0, 2.0], f), "attrs": {}},
            "lone": {"dims": (), "data": np.array(3.0, f), "attrs": {}},
            "prof": {"dims": ("lev", "y", "n"), "data": np.arange(12, dtype=f).reshape(3, 2, 2), "attrs": {"w": np.array([1e-9, 5.0], np.float64)}},
            "code": {"dims": ("txt",), "data": np.array([b"a", b"b", b"c"], "S1"), "attrs": {}},
            "code2": {"dims": ("n", "txt"), "data": np.array([[b"a", b"b", b"c"], [b"d", b"", b"e"]], "S1"), "attrs": {}},
            "num": {"dims": ("n",), "data": np.array([10.0, 5.1], np.float64), "attrs": {}},
            "big": {"dims": ("n",), "data": np.array([2 ** 53 + 1, -5], np.int64), "attrs": {}},
            "half": {"dims": ("n",), "data": np.array([16777217, 33554435], np.int32), "attrs": {}},
            "u": {"dims": ("n",), "data": np.array([0, 255], np.uint8), "attrs": {}},
        },
        "groups": {},
    }


def special_edits():
    """name -> (function changing the specification, the element that differs)."""
    import numpy as np

    def setv(name, i, value):
        def edit(s):
            d = s["vars"][name]["data"].copy()
            d.reshape(-1)[i] = value
            s["vars"][name]["data"] = d
        return edit, name

    def seta(name, value, var=None):
        def edit(s):
            (s["vars"][var] if var else s)["attrs"][name] = value
        return edit, name

    def dim(name, size):
        def edit(s):
            s["dims"][name] = size
        return edit, name

    out = {"lone dimension": dim("lone", 5), "lone dimension shorter": dim("lone", 3)}
    for i in range(3):
        out["level %d" % i] = setv("lev", i, special_base()["vars"]["lev"]["data"][i] * np.float32(1.000001))
        out["code %d" % i] = setv("code", i, b"z")
    out["y"] = setv("y", 0, np.float32(1.000001))
    for i in (0, 3, 4, 5):
        out["code2 %d" % i] = setv("code2", i, b"z")
    out["array attribute, tiny"] = seta("bounds", np.array([0.1, 1000.0 * (1 + 1e-12)]))
    out["array attribute, tiny 2"] = seta("bounds", np.array([0.1 + 1e-12, 1000.0]))
    out["array attribute, near zero"] = seta("w", np.array([2e-9, 5.0]), "prof")
    out["array attribute, shorter"] = seta("bounds", np.array([0.1, 1000.0, 3.0]))
    out["array attribute, order"] = seta("ints", np.array([2, 1], np.int32))
    out["number attribute, tiny"] = seta("x", np.float64(0.1 + 0.2))
    out["big"] = setv("big", 0, 2 ** 53)
    out["half"] = setv("half", 0, 16777216)
    out["half 1"] = setv("half", 1, 33554436)
    out["u 0"] = setv("u", 0, 255)
    out["u 1"] = setv("u", 1, 0)
    return out


def special_file(spec):
    p = os.path.join(os.environ["VERIF_SCRATCH"], "s%d.nc" % next(COUNT))
    write(spec, p)
    return p


def check_special(case, cov):
    names, swap = case
    edits = special_edits()
    a, b = special_base(), special_base()
    for n in names:
        edits[n][0](a)
    pa, pb = special_file(a), special_file(b)
    try:
        # tolerances loose for the data's size but coordinates, attributes, texts and dimensions have none
        tol = (0.0, 0.0) if any(n.split()[0] in ("big", "half") for n in names) else (1e-5, 1e-5)
        msgs = run_compare(pb, pa, tol[0], tol[1], None, None) if swap else run_compare(pa, pb, tol[0], tol[1], None, None)
    finally:
        os.unlink(pa)
        os.unlink(pb)
    cov.step(2)
    cov.state("special", names, swap)
    for n in names:
        expect(any(edits[n][1] in s for s in msgs), "no message names %s (%s)" % (edits[n][1], names), names, msgs)
    expect(bool(msgs) == bool(names), "differences reported for %s" % (names,), names, msgs)
    return "%d" % len(names)


def cases_special(tier):
    names = list(special_edits())
    for k in (0, 1, 2):
        for sel in itertools.combinations(names, k):
            e = special_edits()
            if len({e[n][1] for n in sel}) == len(sel):
                for swap in (0, 1):
                    yield [list(sel), swap]


def check_relative(case, cov):
    """|actual - desired| <= atol + rtol * |desired|, for every pair of values on a grid, as a file of one value each."""
    import numpy as np

    dtype, rtol, atol = case
    if dtype[0] == "f":
        values = [0.0, 1.0, -1.0, 1.9, 3.9, 4.0, -4.0, 8.1, 10.0, 100.0]
    else:
        values = [0, 1, -1, 2, 3, 4, -4, 7, 9, 100]
        if dtype != "i2":
            values = values[:5] + [16777216, 16777217, 16777219, 16777222]
    for i, d in enumerate(values):
        spec = {"attrs": {}, "dims": {"n": 2}, "groups": {}, "vars": {"num": {"dims": ("n",), "data": np.array([5, d], dtype), "attrs": {}}}}
        pd = special_file(spec)
        for a in values:
            spec["vars"]["num"]["data"] = np.array([5, a], dtype)
            pa = special_file(spec)
            gap, tol = abs(float(np.dtype(dtype).type(a)) - float(np.dtype(dtype).type(d))), atol + rtol * abs(d)
            try:
                if a != d and abs(gap - tol) < 1e-4 * (1 + 1e-6 * abs(d)):
                    continue
                msgs = run_compare(pa, pd, rtol, atol, None, None)
            finally:
                os.unlink(pa)
            cov.step()
            cov.state("relative", dtype, rtol, atol, a, d)
            expect(bool(msgs) == (gap > tol), "actual %r, reference %r, rtol %s, atol %s" % (a, d, rtol, atol), gap > tol, msgs)
        os.unlink(pd)
    return dtype


def cases_relative(tier):
    for dtype in ("f4", "f8", "i4", "i2"):
        for rtol, atol in ((0.5, 0.0), (0.0, 1.2), (0.0, 0.5), (1e-8, 2.2), (0.5, 1.2), (0.1, 0.0), (1.5, 0.3)):
            yield [dtype, rtol, atol]


def sections():
    import improver.utilities.compare  # noqa

    return [
        Section("single_difference", cases_single, check_single,
                "every single edit (attributes, dimensions, variables, groups, every data element x 5 perturbations) x 5 tolerances and 7 option sets, both orders"),
        Section("pairs", cases_pair, check_pair, "all pairs of edits (quick: one per edit kind and group) of different elements"),
        Section("special", cases_special, check_special,
                "all single edits and pairs of edits of further elements (texts as characters, coordinates used as leading dimension only, array attributes differing in the last digits, dimensions without data, integers beyond the precision of floats), both orders"),
        Section("relative", cases_relative, check_relative, "every pair of 10 values x 7 tolerances x 4 number types: the tolerance is relative to the reference"),
        Section("command", cases_cli, check_cli, "the compare command on every edit"),
    ]


if __name__ == "__main__":
    main(globals())
