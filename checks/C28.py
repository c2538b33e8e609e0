"""C28: categorical decision trees."""
import itertools

from mc import Section, Violation, expect, expect_close, expect_same, main, raises

PROPERTY = "C28"
H = 3600
# diagnostic: probability cube name, threshold name, condition, thresholds in the cube (units), the one used, the same in other units
DIAG = {
    "a": ("probability_of_lwe_precipitation_rate_above_threshold", "lwe_precipitation_rate", "greater_than", [0.1 / 3.6e6, 1.0 / 3.6e6], "m s-1", 1, [1.0, "mm hr-1"]),
    "b": ("probability_of_cloud_area_fraction_above_threshold", "cloud_area_fraction", "greater_than_or_equal_to", [0.0, 0.5], "1", 0, [0.0, "1"]),
    "c": ("probability_of_visibility_in_air_below_threshold", "visibility_in_air", "less_than", [1000.0, 5000.0], "m", 1, [5.0, "km"]),
}
OPS = [">=", ">", "<", "<="]
LEVELS = [0.25, 0.5, 0.75]


def states():
    """8x8 points: every combination of low, equal, high and masked for the three diagnostics."""
    import numpy as np

    out = {}
    for i, k in enumerate("abc"):
        s = np.array([(p // 4 ** i) % 4 for p in range(64)]).reshape(8, 8)
        out[k] = s
    return out


def field(k, levels=LEVELS):
    import numpy as np

    s = states()[k]
    v = np.array(levels + [0.6], np.float32)[s]
    return np.ma.masked_array(v, s == 3)


def inputs(which="abc", mask=True, frts=(0, 0, 0), det=False, attributes=None, bounds=(), spatial="equalarea", time=None, **kw):
    import cubes
    import numpy as np
    from iris.cube import CubeList

    out = []
    for i, k in enumerate(which):
        name, th, spp, ths, units, used, _ = DIAG[k]
        v = field(k)
        if not mask:
            v = np.ma.getdata(v)
        att = dict(attributes[i] if attributes else {"title": "T", "source": "S", "institution": "I"})
        t = cubes.T0 + 12 * H if time is None else time
        ckw = dict(time=t, frt=cubes.T0 + frts[i] * H, attributes=att, spatial=spatial, time_bounds=(t - bounds[i] * H, t) if bounds and bounds[i] else None)
        ckw.update(kw)
        if det:
            c = cubes.grid(v, name=th, units=units, **ckw)
        else:
            both = np.ma.stack([1 - v, 1 - v])
            both[used] = v
            c = cubes.prob(both if mask else np.ma.getdata(both), ths, diag=th, tunits=units, spp=spp, **ckw)
        out.append(c)
    return CubeList(out)


def node(ks, t, f, op, comb="", det=False, missing=None, levels=None):
    """A decision node testing diagnostics ks (letters, or a list expression)."""
    n = {"if_true": t, "if_false": f, "threshold_condition": op, "condition_combination": comb}
    lv = levels or [0.5] * len(ks)
    if missing:
        n["if_diagnostic_missing"] = missing
    if det:
        n.update({"deterministic": True, "thresholds": lv, "diagnostic_fields": [DIAG[k][1] for k in ks]})
        return n
    n["probability_thresholds"] = lv
    nm, th, co = [], [], []
    for k in ks:
        if isinstance(k, (list, tuple)):
            nm.append([DIAG[q][0] if q in DIAG else q for q in k])
            th.append([list(DIAG[q][6]) for q in k if q in DIAG])
            co.append(["above" if "above" in DIAG[q][0] else "below" for q in k if q in DIAG])
        else:
            nm.append(DIAG[k][0])
            th.append(list(DIAG[k][6]))
            co.append("above" if "above" in DIAG[k][0] else "below")
    n.update({"diagnostic_fields": nm, "diagnostic_thresholds": th, "diagnostic_conditions": co})
    return n


def leaves(codes, night=None):
    d = {"L%d" % c: {"leaf": c} for c in codes}
    for a, b in (night or {}).items():
        d["L%d" % a]["if_night"] = "L%d" % b
    return d


def cmp(x, op, y):
    return {">=": x >= y, ">": x > y, "<": x < y, "<=": x <= y}[op]


def walk(tree, start, fields, absent=()):
    """The code for each point, None where a diagnostic needed is masked."""
    import numpy as np

    ny, nx = next(iter(fields.values())).shape
    m = {k: np.ma.getmaskarray(v) for k, v in fields.items()}
    out = {}
    for y, x in itertools.product(range(ny), range(nx)):
        at = start
        while "leaf" not in tree[at]:
            n = tree[at]
            ks = n["_ks"]
            need = [q for k in ks for q in (k if isinstance(k, (list, tuple)) else [k]) if q in DIAG]
            if any(q in absent for q in need):
                at = n[n["if_diagnostic_missing"]]
                continue
            if any(m[q][y, x] for q in need):
                at = None
                break
            res = []
            for k, lv in zip(ks, n.get("probability_thresholds", n.get("thresholds"))):
                if isinstance(k, (list, tuple)):
                    v = eval(" ".join("%r" % float(fields[q][y, x]) if q in DIAG else str(q) for q in k))
                else:
                    v = float(fields[k][y, x])
                res.append(cmp(v, n["threshold_condition"], lv))
            ok = all(res) if n["condition_combination"] in ("AND", "") else any(res)
            at = n["if_true"] if ok else n["if_false"]
        out[y, x] = None if at is None else tree[at]["leaf"]
    return out


def run(tree_, cubes_, **kw):
    import copy

    from improver.categorical.decision_tree import ApplyDecisionTree as A

    tree = {k: {a: b for a, b in v.items() if a != "_ks"} for k, v in copy.deepcopy(tree_).items()}
    return A(tree, **kw), tree


def compare(r, want, msg="category"):
    import numpy as np

    g = r.data
    gm = np.ma.getmaskarray(g)
    for (y, x), w in want.items():
        if w is None:
            if not gm[y, x]:
                raise Violation("%s at %s should be masked" % (msg, (y, x)), got=g[y, x])
        elif gm[y, x] or int(g[y, x]) != w:
            raise Violation("%s at %s" % (msg, (y, x)), expected=w, got=g[y, x])
    expect(g.dtype == np.int32, "type", got=g.dtype)


# ------------------------------------------------------------ trees
def c_trees(tier):
    L = ["L1", "L5", "L9"]
    k = 0
    for t0 in itertools.product(["n1", "n2"] + L, repeat=2):
        for t1 in itertools.product(["n2"] + L, repeat=2):
            for t2 in itertools.product(L, repeat=2):
                if "n1" not in t0 and (t1 != ("L1", "L5")):
                    continue
                if "n2" not in t0 and not ("n1" in t0 and "n2" in t1) and t2 != ("L1", "L5"):
                    continue
                k += 1
                yield ([list(t0), list(t1), list(t2)], k % 4, k // 4 % 3)


def trees(case, cov):
    import cubes

    t, o, start = case
    used = ["n0"]
    names = {"n0": t[0], "n1": t[1], "n2": t[2]}
    for n in ("n0", "n1", "n2"):
        if n in used:
            used += [q for q in names[n] if q in names and q not in used]
    tree = {"meta": {"name": "weather_code"}}
    for i, n in enumerate(("n0", "n1", "n2")):
        if n in used:
            tree[n] = dict(node("abc"[(i + start) % 3], names[n][0], names[n][1], OPS[(o + i) % 4]), _ks=["abc"[(i + start) % 3]])
    tree.update(leaves([1, 5, 9]))
    if start == 1:  # the meta node may be anywhere
        m = tree.pop("meta")
        tree["meta"] = m
    cl = inputs()
    p, given = run(tree, cl)
    with cubes.Unchanged(*cl):
        r = p.process(cl)
    cov.step()
    compare(r, walk(tree, "n0", {k: field(k) for k in "abc"}))
    return "%d nodes" % len(used)


# ------------------------------------------------------------ conditions
def c_cond(tier):
    for op in OPS:
        for comb in ("AND", "OR"):
            for ks in itertools.permutations("abc", 2):
                for lv in itertools.product((0.25, 0.5), repeat=2):
                    for det in (False, True):
                        yield ("comb", op, comb, list(ks), list(lv), det)
        ops = "+-*/" if tier == "thorough" else "+-*/"
        for o1, o2 in itertools.product(ops, repeat=2):
            yield ("expr", op, "", ["a", o1, "b", o2, "c"], [0.5], False)
            yield ("expr", op, "", ["a", o1, 2, o2, "c"], [0.75], False)
            yield ("expr", op, "", ["b", o1, "a"], [0.5], False)
            yield ("exprcomb", op, "AND", ["a", o1, "b", o2, "c"], [0.4, 0.5], False)
    for o in itertools.product("+-*/", repeat=3):
        yield ("expr", "<", "", ["a", o[0], "b", o[1], "c", o[2], 3], [0.6], False)


def cond(case, cov):
    import cubes

    kind, op, comb, ks, lv, det = case
    nk = [ks] if kind == "expr" else ([ks, "c"] if kind == "exprcomb" else ks)
    tree = {"meta": {"name": "cat"}, "n0": dict(node(nk, "L3", "L4", op, comb, det=det, levels=lv), _ks=nk)}
    tree.update(leaves([3, 4]))
    cl = inputs(det=det)
    p, given = run(tree, cl)
    with cubes.Unchanged(*cl):
        r = p.process(*cl)
    cov.step()
    # equality with the level is only claimed where the arithmetic is exact
    f = {k: field(k) for k in "abc"}
    want = walk(tree, "n0", f)
    if kind != "comb":
        import numpy as np

        for (y, x) in list(want):
            try:
                v = eval(" ".join("%r" % float(f[q][y, x]) if q in DIAG else str(q) for q in (nk[0]))) if want[y, x] is not None else 0
            except ZeroDivisionError:
                v = None
            if v is None or (want[y, x] is not None and abs(v - lv[0]) < 1e-5):
                del want[y, x]
    compare(r, want)
    if det is False:
        r2 = p.process(*cl)
        cubes.expect_cube(r2, cubes.describe(r), "the plugin gives the same again")
    return kind


# ------------------------------------------------------------ optional diagnostics, histories
def c_opt(tier):
    k = 0
    T = [("n1", "n2"), ("n2", "n1"), ("n1", "L1"), ("L1", "n1"), ("n1", "n1")]
    for t0 in T:
        for t1 in (("n2", "L5"), ("L5", "n2"), ("L1", "L9"), ("L9", "L5")):
            for miss in itertools.product((None, "if_true", "if_false"), repeat=3):
                for absent in ("", "a", "b", "c", "ab", "bc", "ac"):
                    for det in (False, True):
                        if det and (t1[0] != "n2" or len(absent) == 2):
                            continue
                        k += 1
                        if tier == "quick" and k % 3 and (len(absent) < 2 or det):
                            continue
                        yield (list(t0), list(t1), list(miss), absent, det)


def opt(case, cov):
    """Missing optional diagnostics; then the same plugin with everything; a required one is refused."""
    import cubes

    t0, t1, miss, absent, det = case
    tree = {"meta": {"name": "cat"}}
    for n, k, t, m in (("n0", "a", t0, miss[0]), ("n1", "b", t1, miss[1]), ("n2", "c", ["L1", "L9"], miss[2])):
        tree[n] = dict(node(k, t[0], t[1], ">=", det=det, missing=m), _ks=[k])
    tree.update(leaves([1, 5, 9]))
    full = inputs(det=det)
    some = [c for c, k in zip(full, "abc") if k not in absent]
    p, given = run(tree, full)
    need = [k for k, m in zip("abc", miss) if k in absent and m is None]
    with cubes.Unchanged(*full):
        if need:
            e = raises(p.process, *some)
            cov.step()
            expect(isinstance(e, (IOError, OSError)) and all(DIAG[k][1] in str(e) for k in need), "a missing diagnostic must be refused by name", got=e)
            return "refused"
        r = p.process(*some)
    cov.step()
    f = {k: field(k) for k in "abc"}
    # a node is in use if reachable; diagnostics of nodes not in use may still be missing
    compare(r, walk(tree, "n0", f, absent=absent))
    if absent:
        r2 = p.process(*full)
        cov.step()
        compare(r2, walk(tree, "n0", f), "with all diagnostics, after a call without some, category")
    return "missing" if absent else "all"


# ------------------------------------------------------------ day and night
def c_night(tier):
    for spatial in ("latlon", "equalarea"):
        for hour in (0, 5, 8, 12, 17, 20):
            for bounds in (0, 3, 6):
                for lead in (False, True):
                    if lead and bounds:
                        continue
                    yield (spatial, hour, bounds, lead)


def night(case, cov):
    import cubes
    import numpy as np
    from improver.utilities.solar import DayNightMask

    spatial, hour, bounds, lead = case
    kw = dict(origin=(-80.0, -170.0), spacing=(20.0, 45.0)) if spatial == "latlon" else dict(spacing=8e5, origin=(-3e6, -3e6))
    cl = inputs(bounds=[bounds] * 3, spatial=spatial, time=cubes.T0 + hour * H, **kw)
    tree = {"meta": {"name": "weather_code"}, "n0": dict(node("a", "n1", "L3", ">="), _ks=["a"]), "n1": dict(node("b", "L5", "L7", ">="), _ks=["b"])}
    tree.update(leaves([2, 3, 4, 5, 7], {3: 2, 5: 4}))
    p, given = run(tree, cl)
    with cubes.Unchanged(*cl):
        r = p.process(*cl)
    cov.step()
    d = DayNightMask()(cl[0][0])
    want = walk(tree, "n0", {k: field(k) for k in "abc"})
    sw = {3: 2, 5: 4}
    day = d.data
    expect(day.shape == (8, 8), "day and night mask", got=day.shape)
    want = {q: (w if w is None or day[q] == 1 else sw.get(w, w)) for q, w in want.items()}
    compare(r, want)
    return "%d day points" % (int(day.sum()) // 16)


# ------------------------------------------------------------ thresholds with periods, metadata
def c_meta(tier):
    for target in (None, 3600, 10800):
        for period in (None, 3600, 1800, 7200, 5400, 4320, 21600, 14400):
            yield ("period", target, period, 0, 0, 0)
    for frts in itertools.product((0, -3, 2), repeat=3):
        for mid in (0, 1):
            for rec in (0, 1, 2):
                for title in (None, "my title"):
                    for b in (0, 1):
                        if (rec and not mid) or (b and frts[0] and title):
                            continue
                        yield ("meta", list(frts), mid, rec, title, b)


def meta(case, cov):
    import cubes
    import numpy as np
    from iris.coords import AuxCoord

    kind, a1, a2, a3, a4, a5 = case
    if kind == "period":
        target, period = a1, a2
        scale = (target / period) if (target and period) else 1
        ths = [0.5, 0.75, 1.0, 1.5, 2.0, 2.5, 3.0, 6.0, 7.0]
        # only the threshold looked for has a probability on its side of the limit
        v = np.stack([np.full((2, 2), 0.1 if (t == scale) == bool(target) else 0.9, np.float32) for t in ths])
        c = cubes.prob(v, ths, diag="thickness_of_rainfall_amount", tunits="mm", time_bounds=(cubes.T0 + H, cubes.T0 + 4 * H))
        lv = 0.1 if target else 0.9
        n = node("a", "L1", "L2", ">=", levels=[0.25])
        n.update({"diagnostic_fields": ["probability_of_thickness_of_rainfall_amount_above_threshold"], "diagnostic_thresholds": [[1.0, "mm"] + ([period] if period else [])], "diagnostic_conditions": ["above"]})
        tree = {"meta": {"name": "cat"}, "n0": n, "L1": {"leaf": 1}, "L2": {"leaf": 2}}

        def go():
            p, given = run(tree, [c], target_period=target)
            return p.process(c)

        with cubes.Unchanged(c):
            bad = (period and not target) or (target == 3600)
            if bad:
                e = raises(go)
                cov.step()
                expect(isinstance(e, ValueError), "must be refused", got=e)
                return "refused"
            r = go()
        cov.step()
        expect_same(r.data, np.ma.masked_array(np.full((2, 2), 1 if lv >= 0.25 else 2, np.int32), np.zeros((2, 2), bool)), "category")
        return "period"
    frts, mid, rec, title, b = a1, a2, a3, a4, a5
    att = [{"title": "T", "source": "S", "institution": "I", "mid": m} for m in ("uk_ens", "nc_det uk_ens", "gl_ens")]
    if rec == 2:
        att[0]["rr"] = "uk_ens:20171110T0000Z:0.600\nuk_det:20171109T2300Z:0.400"
    cl = inputs(frts=frts, attributes=att, bounds=(0, 3 if b else 0, 0))
    tree = {"meta": {"name": "weather_code"}, "n0": dict(node("ab", "L3", "L1", ">=", "AND"), _ks=list("ab")), "n1": dict(node("c", "L3", "L1", ">="), _ks=["c"])}
    tree["n0"]["if_false"] = "n1"
    tree.update(leaves([3, 1, 7]))
    kw = {}
    if mid:
        kw["model_id_attr"] = "mid"
    if rec:
        kw["record_run_attr"] = "rr"
    if title:
        kw["title"] = title
    p, given = run(tree, cl, **kw)
    with cubes.Unchanged(*cl):
        r = p.process(cl)
    cov.step()
    compare(r, walk(tree, "n0", {k: field(k) for k in "abc"}))
    expect(r.name() == "weather_code" and str(r.units) == "1", "name", got=(r.name(), r.units))
    want = {"title": title or "T", "source": "S", "institution": "I", "weather_code_meaning": "L1 L3 L7"}
    if mid:
        want["mid"] = "gl_ens nc_det uk_ens"
    if rec:
        lines = {"%s:%s:" % (m["mid"], stamp(f)) for m, f in zip(att, frts)}
        if rec == 2:
            lines = {"%s:%s:" % (m["mid"], stamp(f)) for m, f in zip(att[1:], frts[1:])} | {"uk_ens:20171110T0000Z:", "uk_det:20171109T2300Z:"}
        want["rr"] = "\n".join(sorted(lines))
    got = dict(r.attributes)
    codes = got.pop("weather_code", None)
    expect(codes is not None and list(codes) == [1, 3, 7], "codes", got=codes)
    expect(got == want, "attributes", expected=want, got=got)
    top = cubes.T0 + max(frts) * H
    expect(list(r.coord("forecast_reference_time").points) == [top] and list(r.coord("time").points) == [cubes.T0 + 12 * H] and list(r.coord("forecast_period").points) == [(12 - max(frts)) * H], "times",
           got=(r.coord("forecast_reference_time").points - cubes.T0, r.coord("forecast_period").points))
    expect((r.coord("time").bounds is not None) == bool(b) and (r.coord("forecast_period").bounds is not None) == bool(b), "bounds", got=r.coord("time").bounds)
    if b:
        expect([list(q) for q in r.coord("forecast_period").bounds] == [[(9 - max(frts)) * H, (12 - max(frts)) * H]], "forecast period bounds", got=r.coord("forecast_period").bounds)
    names = {c.name() for c in r.coords()}
    expect(names == {"time", "forecast_period", "forecast_reference_time", "projection_y_coordinate", "projection_x_coordinate"}, "coordinates", got=names)
    return "meta"


def stamp(h):
    import cubes
    from datetime import datetime

    return datetime.utcfromtimestamp(cubes.T0 + h * H).strftime("%Y%m%dT%H%MZ")


# ------------------------------------------------------------ checking trees, refused
def base():
    tree = {"meta": {"name": "cat"}, "n0": node("a", "n1", "L1", ">=", missing="if_false"), "n1": node("bc", "L2", "L3", "<", "OR"), "n2": None}
    tree["n2"] = node([["a", "+", "b"]], "L4", "L5", ">")
    tree["n0"]["if_false"] = "n2"
    tree.update({"L1": {"leaf": 1}, "L2": {"leaf": 2, "if_night": "L1"}, "L3": {"leaf": 3, "group": "g"}, "L4": {"leaf": 4, "group": "g"}, "L5": {"leaf": 5}, "L6": {"leaf": 6, "is_unreachable": True}})
    return tree


MUT = [
    ("pop", "meta"), ("set", "meta", "colour", 1), ("pop", "meta", "name"), ("set", "L1", "leaf", 2), ("set", "L1", "what", 1), ("set", "L6", "is_unreachable", False), ("set", "L5", "is_unreachable", True),
    ("set", "L5", "leaf", 5.5), ("set", "L2", "if_night", "nowhere"), ("set", "L2", "if_night", "n1"), ("set", "L1", "if_night", "L3"), ("set", "L3", "group", "h"), ("set", "n0", "colour", 1),
    ("set", "n0", "if_true", "L1"), ("set", "n0", "if_diagnostic_missing", "if_maybe"), ("set", "n1", "condition_combination", ""), ("set", "n1", "condition_combination", "XOR"),
    ("set", "n0", "condition_combination", "AND"), ("set", "n0", "threshold_condition", "=="), ("set", "n1", "if_true", "nowhere"), ("set", "n1", "if_true", 5), ("set", "n0", "diagnostic_conditions", ["over"]),
    ("set", "n2", "diagnostic_conditions", ["above", "above"]), ("set", "n0", "probability_thresholds", ["0.5"]), ("set", "n1", "probability_thresholds", [0.5]), ("set", "n0", "probability_thresholds", [0.5, 0.5]),
]


SAME = []
# changes that leave a valid tree, and pairs of changes each of which does
VALID = [
    [("set", "L3", "if_night", "L1")], [("set", "L5", "if_night", "L3")], [("set", "L1", "group", "h"), ("set", "L5", "group", "h")], [("set", "n0", "if_diagnostic_missing", "if_true")], [("set", "n1", "condition_combination", "AND")],
    [("set", "L5", "group", "g")], [("set", "n0", "if_true", "n2"), ("set", "n0", "if_false", "n1")], [("set", "n2", "threshold_condition", "<=")], [("set", "L6", "if_night", "L4")], [("set", "L4", "if_night", "L6"), ("pop", "L6", "is_unreachable")],
    [("set", "n2", "diagnostic_conditions", [["below", "above"]])], [("set", "meta", "name", "other")],
]
TWO = [(0, 1), (1, [("set", "L3", "if_night", "L5")]), (0, [("set", "L6", "if_night", "L3")]), (1, [("set", "L1", "if_night", "L5")]), (2, [("set", "L5", "group", "k")]), (8, [("set", "L4", "if_night", "L6"), ("pop", "L6", "is_unreachable")]), (9, [("set", "L6", "is_unreachable", True)]), (6, [("set", "n0", "if_true", "n1")]), (6, [("set", "n0", "if_false", "n0")])]


def alter(t, changes):
    for m in changes:
        if m[0] == "pop":
            d = t
            for q in m[1:-1]:
                d = d[q]
            d.pop(m[-1], None)
        else:
            t[m[1]][m[2]] = m[3]


def c_check(tier):
    yield ("ok", 0)
    for i in range(len(MUT)):
        yield ("bad", i)
    for i in range(len(VALID)):
        yield ("valid", i)
        for j in range(len(MUT)):
            yield ("both", [i, j])
    for i in range(len(TWO)):
        yield ("two", i)
    for k in range(8):
        yield ("refuse", k)


def check(case, cov):
    import copy
    import cubes
    from improver.categorical.utilities import check_tree

    kind, i = case
    if kind == "refuse":
        return refuse(i, cov)
    t = base()
    if kind == "ok":
        keep = copy.deepcopy(t)
        r = check_tree(t)
        cov.step()
        expect(r.startswith("Decision tree OK"), "a valid tree", got=r)
        expect(t == keep, "the tree given is not changed", expected=keep, got=t)
        for k in "abc":
            expect(DIAG[k][0] in r, "the inputs needed are listed", got=r)
        return "ok"
    if kind in ("valid", "two"):
        if kind == "valid":
            alter(t, VALID[i])
        else:
            a, b = TWO[i]
            alter(t, VALID[a])
            alter(t, VALID[b] if isinstance(b, int) else b)
        r = check_tree(t)
        cov.step()
        expect(r.startswith("Decision tree OK") == (kind == "valid"), "a valid tree is accepted, a fault made of two changes reported", got=r)
        return kind
    if kind == "both":
        alter(t, VALID[i[0]])
        m = MUT[i[1]]
        alter(t, [m])
        over = [v for v in VALID[i[0]] if v[:3] == m[:3] or v[1:3] == m[1:3]] or (i[0], i[1]) in SAME
        r = check_tree(t)
        cov.step()
        expect(over or not r.startswith("Decision tree OK"), "the fault %s must be reported whatever else is changed" % (m,), got=r)
        return "both"
    m = MUT[i]
    alter(t, [m])
    r = check_tree(t)
    cov.step()
    expect(not r.startswith("Decision tree OK"), "the fault %s must be reported" % (m,), got=r)
    if m[1] != "meta":
        expect(m[1] in r or (m[2] == "if_true") or m[2] in ("leaf", "group"), "the faulty node is named", got=r)
    return "bad"


def refuse(k, cov):
    import cubes
    from improver.categorical.decision_tree import ApplyDecisionTree as A
    from improver.categorical.utilities import check_tree

    tree = {"meta": {"name": "cat"}, "n0": node("ab", "L1", "L2", ">=", "AND")}
    tree.update(leaves([1, 2]))
    cl = inputs("ab")
    cl[1].coord("time").points = cl[1].coord("time").points + (H if k == 0 else 0)
    if k == 1:
        cl = inputs("ab", bounds=(1, 3))
    if k == 2:
        cl = inputs("a")
    if k == 3:
        tree["n0"]["diagnostic_conditions"] = ["below", "above"]
    if k == 4:
        tree["n0"]["diagnostic_thresholds"] = [[2.0, "mm hr-1"], [0.0, "1"]]
    if k == 5:
        tree["n0"]["threshold_condition"] = "!="
    if k == 6:
        cl = inputs("ab", bounds=(3, 3))
        e = raises(lambda: A(tree, target_period=3600).process(*cl))
        cov.step()
        expect(isinstance(e, ValueError), "the period must match", got=e)
        return "refused"
    if k == 7:
        e = raises(check_tree, [])
        cov.step()
        expect(isinstance(e, ValueError), "must be refused", got=e)
        return "refused"
    e = raises(lambda: A(tree).process(*cl))
    cov.step()
    expect(isinstance(e, (ValueError, IOError, KeyError)), "must be refused", got=e)
    return "refused"


SECTIONS = [
    Section("trees", c_trees, trees), Section("conditions", c_cond, cond), Section("optional", c_opt, opt), Section("night", c_night, night), Section("metadata", c_meta, meta), Section("checking", c_check, check),
]

if __name__ == "__main__":
    main(globals())
