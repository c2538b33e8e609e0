"""C06: angle conversion; also holds the sections of C10 and C11 (small helpers)."""
import itertools
import json
import math
import os

from mc import Section, Violation, expect, expect_close, expect_same, main, raises, same

PROPERTY = "C06"


# ------------------------------------------------------------------ directions
def check_angle(case, cov):
    """degrees -> complex -> degrees is the identity modulo 360, in [0, 360); the modulus is the radius."""
    import numpy as np
    from improver.utilities.complex_conversion import complex_to_deg, deg_to_complex

    start, radius, dtype = case
    degs = np.arange(start, start + 90, 0.25).astype(dtype)
    z = deg_to_complex(degs, radius)
    expect(np.iscomplexobj(z) and z.shape == degs.shape, "complex result")
    expect_close(np.abs(z), np.full(degs.shape, radius), "modulus", rtol=1e-5)
    want = np.array([[radius * math.cos(math.radians(float(d))), radius * math.sin(math.radians(float(d)))] for d in degs])
    expect_close(np.stack([z.real, z.imag], axis=-1), want, "components", rtol=1e-4, atol=2e-6 * radius * max(1, abs(start) / 360))
    back = complex_to_deg(z)
    expect(back.dtype == np.float32 and back.shape == degs.shape, "dtype and shape of angles", "float32", back.dtype)
    expect(np.all(back >= 0) and np.all(back < 360), "angles outside [0, 360)", "[0,360)", back[(back < 0) | (back >= 360)])
    delta = np.abs((back.astype(float) - degs.astype(float) + 180) % 360 - 180)
    expect(np.all(delta < 1e-3), "round trip of angles", degs[delta >= 1e-3], back[delta >= 1e-3])
    for d in degs[::40]:
        s = deg_to_complex(float(d))
        expect(abs(abs(s) - 1) < 1e-6, "scalar angle")
    cov.step(2 + len(degs[::40]))
    for d, b in zip(degs, back):
        cov.state(float(d), radius, float(b))
    return "ok"


def cases_angle(tier):
    for start in range(-720, 1081, 90):
        for radius in (1, 0.5, 3.0, 100):
            for dtype in ("float32", "float64"):
                yield [start, radius, dtype]


def check_complex(case, cov):
    """complex_to_deg on a lattice of complex numbers around zero and the positive real axis, any array shape."""
    import numpy as np
    from improver.utilities.complex_conversion import complex_to_deg

    vals = [0.0, -0.0, 1e-30, -1e-30, 1e-9, -1e-9, 1e-6, -1e-6, 1.0, -1.0, 2.5, -2.5]
    z = np.array([complex(a, b) for a in vals for b in vals])
    for shape in ((144,), (12, 12), (2, 6, 12), (144, 1)):
        for dt in (np.complex64, np.complex128):
            zz = z.astype(dt).reshape(shape)
            keep = zz.copy()
            got = complex_to_deg(zz)
            expect(got.shape == shape and got.dtype == np.float32, "shape and dtype", shape, got.shape)
            expect(np.all((got >= 0) & (got < 360)), "outside [0, 360)", None, got)
            want = np.array([math.degrees(math.atan2(c.imag, c.real)) for c in zz.ravel()]).reshape(shape)
            d = np.abs((got.astype(float) - want + 180) % 360 - 180)
            expect(np.all(d < 1e-4), "angle", want[d >= 1e-4], got[d >= 1e-4])
            expect_same(zz, keep, "input modified")
            cov.step()
    for bad in (1 + 1j, [1 + 1j], 3.0, None):
        expect(isinstance(raises(complex_to_deg, bad), TypeError), "a non-array is accepted: %r" % (bad,))
    return "ok"


# ------------------------------------------------------------------ rounding
def check_round(case, cov):
    """Values within 1e-7 of an integer become that integer, anything clearly off is refused."""
    import numpy as np
    from improver.utilities.round import round_close

    n, off, form, dtype = case
    v = n + off
    dt = getattr(np, dtype) if dtype else None
    arr = {"float": v, "f64": np.float64(v), "array": np.array([n, v, n], np.float64), "2d": np.array([[v], [n]]), "list": [v, n], "int": n}[form]
    kw = {} if dt is None else {"dtype": dt}
    if form == "int":
        off = 0
    whole = n if abs(off) <= 0.5 else n + (1 if off > 0 else -1)  # the nearest integer
    miss = abs(n + off - whole)
    near = miss <= 1e-7
    # the tolerance is relative as well (1e-5): only clear cases are asserted
    if not near and miss < 1.5 * (1e-7 + 1e-5 * (abs(n) + 1)):
        return "undecided"
    if dt is np.int8 and not -128 <= n <= 127:
        near = False
    exc = None
    try:
        got = round_close(arr, **kw)
    except ValueError as e:
        exc = e
    if near:
        expect(exc is None, "an integer-equivalent value is refused: %r" % (arr,), n, exc)
        expect(np.asarray(got).dtype == (dt or np.int64), "dtype", dt, np.asarray(got).dtype)
        expect(np.shape(got) == np.shape(arr) and np.all(np.asarray(got) == n), "rounded value", n, got)
    else:
        expect(exc is not None, "a value that is no integer is accepted: %r" % (arr,), ValueError, None)
    cov.state(case, near)
    return "near" if near else "off"


def check_round_large(case, cov):
    """Whole numbers near the limits of their type stay exactly what they are, alone and in arrays."""
    import numpy as np
    from improver.utilities.round import round_close

    n, form = case
    data = {
        "int": lambda: n, "float": lambda: float(n), "int array": lambda: np.array([n, 0, 3], np.int64), "float array": lambda: np.array([n, 0, 3], np.float64),
        "2d": lambda: np.array([[n], [-1]], np.int64), "f32": lambda: np.float32(n), "negative": lambda: np.array([-n, n], np.int64), "list": lambda: [n, 1],
        "0d": lambda: np.array(n, np.int64), "objects": lambda: np.array([float(n), float(-n)]),
    }[form]()
    whole = np.vectorize(int, otypes=[object])(np.array(data, dtype=object))
    try:
        got = round_close(data)
    except ValueError as exc:
        got = exc
    expect(not isinstance(got, Exception) and np.asarray(got).dtype == np.int64 and np.shape(got) == np.shape(data), "%s as %s" % (n, form), whole, got)
    expect([int(x) for x in np.ravel(got)] == [int(x) for x in whole.ravel()], "%s as %s" % (n, form), whole, got)
    cov.state(case)
    return form


def cases_round_large(tier):
    for n in (2 ** 24 + 1, 2 ** 31 - 1, 2 ** 31, 2 ** 31 + 5, 2 ** 32 + 1, 2 ** 40 + 3, 2 ** 52 - 1, 2 ** 52 + 1, 2 ** 53 - 1, 2 ** 53, 2 ** 53 + 1, 2 ** 62 + 1):
        for form in ("int", "float", "int array", "float array", "2d", "f32", "negative", "list", "0d", "objects"):
            yield [n, form]


def cases_round(tier):
    for n in (-1000001, -130, -3, -1, 0, 1, 2, 7, 100, 128, 360000, 1510286400):
        for off in (0, 1e-8, -1e-8, 5e-8, 0.5, -0.5, 0.25, 0.49, 0.999, 0.01, -0.01, 3e-5):
            for form in ("float", "f64", "array", "2d", "list", "int"):
                for dtype in ("", "int32", "int64", "int8"):
                    yield [n, off, form, dtype]


# ------------------------------------------------------------------ flatten
def nests(depth, width):
    leaves = ["a", "ab", b"by", 1, None]
    if depth == 0:
        return leaves
    sub = nests(depth - 1, width)
    small = sub[:3] + sub[len(leaves):]
    out = list(leaves)
    for w in range(width + 1):
        for kids in itertools.product(small, repeat=w):
            out.append(list(kids))
    return out


def check_flatten(case, cov):
    """All leaves in order, at any depth and of any iterable type; text and bytes are leaves."""
    from improver.utilities.flatten import flatten

    k, m = case

    def model(x):
        if isinstance(x, (list, tuple)):
            return [z for y in x for z in model(y)]
        return [x]

    def tup(x):
        return tuple(tup(y) for y in x) if isinstance(x, list) else x

    def gen(x):
        return (gen(y) for y in x) if isinstance(x, list) else x

    allv = nests(2, 3)
    for i, v in enumerate(allv):
        if i % m != k:
            continue
        want = model(v)
        for form in (v, tup(v), gen(v)):
            got = list(flatten(form))
            expect(got == want and [type(x) for x in got] == [type(x) for x in want], "flattened %r" % (v,), want, got)
            cov.step()
        cov.state(v)
        cov.trace()
    expect(list(flatten({"x": 1, "y": 2})) == ["x", "y"], "dictionaries give their keys")
    expect(list(flatten(range(3))) == [0, 1, 2], "ranges")
    expect(list(flatten("abc")) == ["abc"] and list(flatten(5)) == [5], "a single leaf")
    return "ok"


# ------------------------------------------------------------------ choose
def check_choose(case, cov):
    """result[i, ...] = values[index[i, ...], ...] for every index array."""
    import numpy as np
    from improver.utilities.indexing_operations import choose

    shape, first = case
    n = shape[0]
    size = int(np.prod(shape))
    vals = (np.arange(size) * 3 + 10).reshape(shape)
    for rest in itertools.product(range(n), repeat=size - 1):
        idx = np.array((first,) + rest).reshape(shape)
        want = np.empty(shape, vals.dtype)
        for p in itertools.product(*[range(s) for s in shape]):
            want[p] = vals[(idx[p],) + p[1:]]
        got = choose(idx, vals)
        if not same(got, want):
            raise Violation("reordering by %s" % idx.tolist(), expected=want.tolist(), got=got.tolist())
        cov.step()
        cov.trace()
        cov.state(shape, rest, first)
    if first == 0:
        bad = np.full(shape, n)
        expect(isinstance(raises(choose, bad, vals), IndexError), "an index past the end is accepted")
        expect(isinstance(raises(choose, np.zeros(tuple(shape) + (1,), int), vals), ValueError), "shapes that differ are accepted")
        expect(isinstance(raises(choose, np.zeros(shape, int)[:1], vals), ValueError) or n == 1, "shapes that differ are accepted")
    return str(shape)


def cases_choose(tier):
    shapes = [[1], [3], [4], [2, 1], [2, 2], [2, 3], [3, 2], [2, 1, 2], [2, 2, 2], [1, 2, 2]]
    if tier == "thorough":
        shapes += [[3, 3], [2, 5], [2, 2, 3], [4, 2]]
    for s in shapes:
        for f in range(s[0]):
            yield [s, f]


# ------------------------------------------------------------------ option helpers
def check_radii(case, cov):
    """Radii and lead times are paired one to one or refused."""
    from improver.nbhood import radius_by_lead_time

    radii, leads = case
    bad = [x for x in radii if x == "wide"] + [x for x in leads or [] if x in ("6.5", "six")]
    if bad:
        exc = None
        try:
            got = radius_by_lead_time(list(radii), None if leads is None else list(leads))
        except ValueError as e:
            exc = e
        expect(exc is not None, "something that is no radius or whole lead time is accepted: %s" % (case,), ValueError, exc)
        return "refused"
    r0, l0 = list(radii), None if leads is None else list(leads)
    exc, got = None, None
    try:
        got = radius_by_lead_time(radii, leads)
    except ValueError as e:
        exc = e
    if leads is None:
        if len(radii) == 1:
            expect(exc is None and got == (float(radii[0]), None) and isinstance(got[0], float), "single radius", (float(radii[0]), None), got or exc)
        else:
            expect(exc is not None, "%d radii without lead times accepted" % len(radii))
    elif len(radii) == len(leads):
        want = ([float(r) for r in radii], [int(x) for x in leads])
        expect(exc is None and tuple(got) == want and all(type(x) is int for x in got[1]) and all(type(x) is float for x in got[0]), "paired lists", want, got or exc)
    else:
        expect(exc is not None, "lists of different lengths accepted", ValueError, got)
    expect(radii == r0 and leads == l0, "arguments modified")
    cov.state(case)
    return "ok" if exc is None else "refused"


def cases_radii(tier):
    rs = ["0", "2000", "1.5", "10000.0"]
    ls = [0, 3, 36] if True else []
    for n in range(0, 4):
        for radii in itertools.product(rs, repeat=n):
            yield [list(radii), None]
            for k in range(0, 4):
                for leads in itertools.product(["0", "3", "36"], repeat=k):
                    yield [list(radii), list(leads)]
    for n in (1, 2, 3):
        for radii in itertools.product(["2000", "wide"], repeat=n):
            if n == 1 or "wide" in radii:
                yield [list(radii), None] if "wide" in radii else [list(radii), ["3"]]
            for leads in itertools.product(["3", "6.5", "six"], repeat=n):
                yield [list(radii), list(leads)]


def check_names(case, cov):
    from improver.spotdata.utilities import get_neighbour_finding_method_name as f

    seen = set()
    for land, dz in itertools.product((False, True), repeat=2):
        name = f(land, dz)
        want = "nearest" + ("_land" if land else "") + ("_minimum_dz" if dz else "")
        expect(name == want, "method name", want, name)
        seen.add(name)
        cov.step()
    expect(len(seen) == 4, "names must be distinct")
    return "ok"


def check_synth(case, cov):
    """Leading dimension and level options: exactly one leading dimension, heights before pressures."""
    from improver.synthetic_data.utilities import get_height_levels, get_leading_dimension

    keys = case
    vals = {"realizations": [0, 1], "percentiles": [10, 50], "thresholds": [280.0], "heights": [5, 6], "pressures": [900, 800], "other": [9]}
    d = {k: vals[k] for k in keys}
    keep = json.dumps(d, sort_keys=True)
    lead = [k for k in ("realizations", "percentiles", "thresholds") if k in keys]
    exc, got = None, None
    try:
        got = get_leading_dimension(d)
    except ValueError as e:
        exc = e
    if len(lead) > 1:
        expect(exc is not None, "several leading dimensions accepted: %s" % lead, ValueError, got)
    else:
        want = (vals[lead[0]] if lead else None, {"percentiles": "percentile", "thresholds": "probability"}.get(lead[0] if lead else "", "variable"))
        expect(exc is None and tuple(got) == want, "leading dimension of %s" % keys, want, got or exc)
    got = get_height_levels(d)
    want = (vals["heights"], False) if "heights" in keys else (vals["pressures"], True) if "pressures" in keys else (None, False)
    expect(tuple(got) == want, "levels of %s" % keys, want, got)
    expect(json.dumps(d, sort_keys=True) == keep, "input modified")
    # options given with an empty value or zero are given all the same
    for empty in itertools.product((0, 1), repeat=len(keys)):
        e = {k: [] if z else vals[k] for k, z in zip(keys, empty)}
        exc, got = None, None
        try:
            got = get_leading_dimension(e)
        except ValueError as err:
            exc = err
        if len(lead) > 1:
            expect(exc is not None, "several leading dimensions accepted: %s" % e, ValueError, got)
        else:
            want = (e[lead[0]] if lead else None, {"percentiles": "percentile", "thresholds": "probability"}.get(lead[0] if lead else "", "variable"))
            expect(exc is None and tuple(got) == want, "leading dimension of %s" % e, want, got or exc)
        got = get_height_levels(e)
        want = (e["heights"], False) if "heights" in keys else (e["pressures"], True) if "pressures" in keys else (None, False)
        expect(tuple(got) == want, "levels of %s" % e, want, got)
        cov.step(2)
    cov.step(2)
    return "ok"


def cases_synth(tier):
    ks = ["realizations", "percentiles", "thresholds", "heights", "pressures", "other"]
    for n in range(len(ks) + 1):
        for sub in itertools.permutations(ks, n) if n <= 3 else itertools.combinations(ks, n):
            yield list(sub)


def check_json(case, cov):
    from improver.utilities.cli_utilities import load_json_or_none

    for empty in (None, ""):
        expect(load_json_or_none(empty) is None, "no file", None)
    p = os.path.join(os.environ["VERIF_SCRATCH"], "c.json")
    for doc in ({}, {"a": 1}, {"a": {"b": [1, 2.5, None, True, "\u00e9"]}}, [], [1], 0, "s", None, False):
        with open(p, "w") as f:
            json.dump(doc, f)
        got = load_json_or_none(p)
        expect(got == doc and type(got) is type(doc), "json document", doc, got)
        cov.step()
    expect(raises(load_json_or_none, p + ".absent") is not None, "a missing file is ignored")
    for text in ("{broken", "", " ", "\n", "{} {}", "{'a': 1}", "[1,]", "nul"):
        with open(p, "w") as f:
            f.write(text)
        expect(raises(load_json_or_none, p) is not None, "a broken file is ignored: %r" % text)
        cov.step()
    return "ok"


def sections():
    import improver.utilities.complex_conversion  # noqa

    one = lambda t: [["all"]]  # noqa
    return [
        Section("angles", cases_angle, check_angle, "-720..1170 degrees in steps of 0.25 x 4 radii x 2 dtypes"),
        Section("complex_lattice", one, check_complex, "12x12 lattice incl. signed zeros and tiny values x 4 shapes x 2 dtypes"),
    ]


if __name__ == "__main__":
    main(globals())
