"""C30: combining cubes by arithmetic, and maxima over a time window."""
import itertools

from mc import Section, Violation, expect, expect_close, expect_same, main, raises

PROPERTY = "C30"
H = 3600
VALS = [0.0, 1.5, -2.0, 3.0]
OPS = ["+", "add", "-", "subtract", "*", "multiply", "max", "min", "mean", "masked_add"]
ATT = {"title": "T", "source": "S", "institution": "I"}


def fold(op, vals):
    """vals: floats, None where masked. The result, None if masked."""
    have = [v for v in vals if v is not None]
    if op == "masked_add":
        return sum(have) if have else None
    if len(have) < len(vals):
        return None
    r = vals[0]
    for v in vals[1:]:
        if op in ("+", "add", "mean"):
            r = r + v
        elif op in ("-", "subtract"):
            r = r - v
        elif op in ("*", "multiply"):
            r = r * v
        elif op == "max":
            r = max(r, v)
        else:
            r = min(r, v)
    return r / len(vals) if op == "mean" else r


def reference(op, arrays):
    import numpy as np

    sh = np.broadcast(*[np.empty(a.shape) for a in arrays]).shape
    d = [np.broadcast_to(np.ma.getdata(a), sh) for a in arrays]
    m = [np.broadcast_to(np.ma.getmaskarray(a), sh) for a in arrays]
    out = np.zeros(sh)
    om = np.zeros(sh, bool)
    for p in np.ndindex(*sh):
        r = fold(op, [None if k[p] else float(v[p]) for v, k in zip(d, m)])
        if r is None:
            om[p] = True
        else:
            out[p] = r
    return np.ma.masked_array(out, om)


def agree(got, want, msg):
    import numpy as np

    expect(got.shape == want.shape, msg + " shape", expected=want.shape, got=got.shape)
    gm, wm = np.ma.getmaskarray(got), np.ma.getmaskarray(want)
    if not (gm == wm).all():
        raise Violation(msg + ": mask", expected=wm, got=gm)
    g = np.where(gm, 0, np.ma.getdata(got))
    w = np.where(wm, 0, np.ma.getdata(want))
    expect_close(g, w, msg, rtol=1e-6, atol=1e-6)
    expect(got.dtype == np.float32, msg + " type", got=got.dtype)


def pattern(n, masked, shape):
    """n arrays holding every combination of values (and masked) at their points, tiled to the shape."""
    import numpy as np

    vs = VALS[: 4 if n < 3 else 3] + ([None] if masked else [])
    comb = list(itertools.product(vs, repeat=n))
    size = int(np.prod(shape))
    out = []
    for i in range(n):
        v = [comb[k % len(comb)][i] for k in range(size)]
        a = np.array([-9 if q is None else q for q in v], np.float32).reshape(shape)
        out.append(np.ma.masked_array(a, np.array([q is None for q in v]).reshape(shape)) if masked == 1 or (masked == 2 and i % 2 == 1) else a)
    return out


# ------------------------------------------------------------ arithmetic
LAYOUT = {
    "yx": ("y", "x"), "ryx": ("r", "y", "x"), "yrx": ("y", "r", "x"), "tyx": ("t", "y", "x"), "rtyx": ("r", "t", "y", "x"), "tryx": ("t", "r", "y", "x"), "yxr": ("y", "x", "r"),
}
FULL = {"r": "realization", "t": "time", "y": "projection_y_coordinate", "x": "projection_x_coordinate", "h": "threshold"}


def make(a, dims, real=(0, 1, 2), **kw):
    """A cube of array a given in layout order."""
    import cubes
    import numpy as np

    base = [d for d in dims if d not in "yx"] + ["y", "x"]
    b = np.moveaxis(a, [dims.index(d) for d in base], range(len(base)))
    lead = []
    for d in base[:-2]:
        n = a.shape[dims.index(d)]
        lead.append({"r": ("realization", list(real)[:n], "1"), "t": ("time", [cubes.T0 + (3 + i) * H for i in range(n)], cubes.EPOCH), "h": ("threshold", [float(i) for i in range(n)], "m s-1")}[d])
    kw.setdefault("attributes", ATT)
    c = cubes.grid(b, leading=lead, **kw)
    return cubes.transposed(c, [FULL[d] for d in dims])


def c_arith(tier):
    for op in OPS:
        for lay in LAYOUT:
            for n in (2, 3):
                for masked in (0, 1, 2):
                    for real in ((0, 1, 2), (7, 3, 1), (0,)):
                        if "r" not in lay and real != (0, 1, 2):
                            continue
                        yield (op, lay, n, masked, list(real))


def arith(case, cov):
    import cubes
    import numpy as np
    from improver.cube_combiner import CubeCombiner
    from iris.cube import CubeList

    op, lay, n, masked, real = case
    dims = LAYOUT[lay]
    # every combination of values at some point: 5**3 = 125 at most
    size = {"y": 8, "x": 16 if len(dims) == 2 else 8, "r": len(real), "t": 2}
    shape = tuple(size[d] for d in dims)
    arrs = pattern(n, masked, shape)
    cl = CubeList([make(a, dims, real, name="air_temperature", units="K") for a in arrs])
    p = CubeCombiner(op)
    with cubes.Unchanged(*cl):
        r = p.process(cl, "new_name")
        r2 = p.process(cl, "other")
    cov.step(2)
    expect(r.name() == "new_name" and r2.name() == "other", "name", got=(r.name(), r2.name()))
    want = reference(op, arrs)
    # compare as labelled by the realization coordinate
    for q in (r, r2):
        names = [c.name() for c in q.coords(dim_coords=True)]
        expect(names == [FULL[d] for d in dims if not (d == "r" and len(real) == 1 and "realization" not in names)], "dimensions", got=names)
        got = q.data
        if "r" in dims and "realization" in names:
            pts = list(q.coord("realization").points)
            expect(sorted(pts) == sorted(real), "realizations", got=pts)
            k = dims.index("r")
            got = np.ma.take(got, [pts.index(v) for v in real], axis=k) if np.ma.isMaskedArray(got) else np.take(got, [pts.index(v) for v in real], axis=k)
        agree(got.reshape(want.shape), want, op)
    expect(r.attributes == ATT and str(r.units) == "K", "attributes", got=(r.attributes, r.units))
    return op


# ------------------------------------------------------------ broadcasting
def c_broad(tier):
    for op in OPS:
        for dim in ("realization", "threshold", "named"):
            for how in ("second lacks", "third lacks", "one point", "both full", "aux", "lacks in first"):
                for order in (0, 1):
                    for other in (0, 1):
                        for masked in (0, 2):
                            yield (op, dim, how, order, other, masked)


def broad(case, cov):
    import cubes
    import numpy as np
    from improver.cube_combiner import CubeCombiner
    from iris.cube import CubeList

    op, dim, how, order, other, masked = case
    # arrays [d, (e,) y, x]
    nd, ne = 3, 2
    e = [ne] if other else []
    full = pattern(2, masked, (nd, *e, 4, 5))
    small = pattern(2, masked, (1, *e, 4, 5))

    def cube(a, has=True, aux=False, thname="lwe_precipitation_rate"):
        lead = []
        k = a.shape[0]
        if dim == "realization":
            d = ("realization", [2, 4, 5][:k], "1")
            o = ("threshold", [1.0, 2.0], "m s-1", np.float32, {"spp__relative_to_threshold": "greater_than"}, True)
        else:
            d = ((thname if dim == "named" else "threshold"), [0.5, 1.0, 2.0][:k], "m s-1", np.float32, {"spp__relative_to_threshold": "greater_than"}, True)
            o = ("realization", [0, 3], "1")
        lead = [d] + ([o] if other else [])
        c = cubes.grid(a, name="probability_of_lwe_precipitation_rate_above_threshold" if dim != "realization" or other else "air_temperature", leading=lead, attributes=ATT)
        if order and other:
            n = [q.name() for q in c.coords(dim_coords=True)]
            c.transpose([1, 0, 2, 3])
        if not has:
            c = c[(slice(None),) * (1 if order and other else 0) + (0,)]
            if not aux:
                c.remove_coord(d[0])
        return c

    aux_err = how == "aux"
    first = cube(full[0], has=how != "lacks in first")
    if how == "one point":
        second, b = cube(small[1]), small[1]
    elif how == "both full":
        second, b = cube(full[1]), full[1]
    else:
        second, b = cube(small[1], has=False, aux=aux_err), small[1]
    arrs = [full[0], b]
    cl = [first, second]
    if how == "third lacks":
        cl = [first, cube(full[1]), second]
        arrs = [full[0], full[1], b]
    cl = CubeList(cl)
    bname = "realization" if dim == "realization" else "threshold"
    p = CubeCombiner(op, broadcast=bname)
    with cubes.Unchanged(*cl):
        if how in ("aux", "lacks in first"):
            x = raises(p.process, cl, "new")
            cov.step()
            from iris.exceptions import CoordinateNotFoundError

            expect(isinstance(x, TypeError if aux_err else (CoordinateNotFoundError, ValueError)), "must be refused", got=x)
            return "refused"
        nm = "lwe_precipitation_rate"
        r = p.process(cl, nm)
    cov.step()
    names = [c.name() for c in r.coords(dim_coords=True)]
    d = {"realization": "realization", "threshold": "threshold", "named": "lwe_precipitation_rate"}[dim]
    if op in ("*", "multiply") and dim == "threshold":
        d = names[1 if order and other else 0]
    o = [("lwe_precipitation_rate" if op in ("*", "multiply") else "threshold") if dim == "realization" else "realization"] if other else []
    want_names = (o + [d] if order else [d] + o) + ["projection_y_coordinate", "projection_x_coordinate"]
    expect(names == want_names, "dimensions", expected=want_names, got=names)
    want = reference(op, arrs)
    got = cubes.arr(r, d, *o, "projection_y_coordinate", "projection_x_coordinate")
    agree(got, want, "broadcast " + op)
    expect_close(r.coord(d).points, [2, 4, 5] if dim == "realization" else [0.5, 1.0, 2.0], "points")
    if dim == "named":  # the plugin is used again, with another threshold coordinate
        cl2 = CubeList([cube(full[0], thname="rainfall_rate"), cube(full[1], thname="rainfall_rate")])
        for c in cl2:
            c.rename("probability_of_rainfall_rate_above_threshold")
        r = p.process(cl2, "rainfall_rate")
        cov.step()
        agree(cubes.arr(r, "rainfall_rate", *o, "projection_y_coordinate", "projection_x_coordinate"), reference(op, full), "used again")
    return how


# ------------------------------------------------------------ times and descriptions
def c_meta(tier):
    for op in ("+", "-", "*", "max", "min", "mean", "masked_add"):
        for times in itertools.product((3, 4, 6), repeat=2):
            for frts in ((0, 0), (0, 1), (1, 0)):
                for bounds in ("none", "both", "first"):
                    for expand in (True, False):
                        for real in (0, 1):
                            yield ("times", op, list(times), list(frts), bounds, expand, real)
    for op in OPS:
        for cm in (None, "time", "realization"):
            yield ("cell", op, cm, 0, 0, 0, 0)
    for cms in range(5):
        for vic in (0, 1):
            yield ("prob", "*", cms, vic, 0, 0, 0)
    for k in range(9):
        yield ("refuse", k, 0, 0, 0, 0, 0)
    for o in OPS:
        for swap in (0, 1):
            for br in (None, "realization"):
                yield ("ndim", o, swap, br, 0, 0, 0)


def meta(case, cov):
    import cubes
    import numpy as np
    from improver.cube_combiner import CubeCombiner
    from iris.coords import CellMethod
    from iris.cube import CubeList

    kind, op = case[:2]
    a = np.array([[1.0, 2.0]], np.float32)
    if kind == "ndim":
        # a cube with fewer dimensions than the other, of which it has the first ones
        d = np.arange(27, dtype=np.float32).reshape(3, 3, 3)
        one = cubes.grid(d, leading=[("realization", [0, 1, 2], "1")], attributes=ATT)
        two = one[:, :, 0] if case[3] is None else one[:, 0, 0]
        cl = CubeList([two, one] if case[2] else [one, two])
        e = raises(CubeCombiner(op, broadcast=case[3]).process, cl, "new")
        cov.step()
        expect(isinstance(e, ValueError), "cubes with different dimensions must be refused", got=e)
        return "refused"
    if kind == "times":
        _, _, times, frts, bounds, expand, real = case
        cl = CubeList()
        data = np.stack([a, a + 1]) if real else a
        for i, (t, f) in enumerate(zip(times, frts)):
            b = None if bounds == "none" or (bounds == "first" and i) else (cubes.T0 + (t - 2) * H, cubes.T0 + t * H)
            cl.append(cubes.grid(data, leading=[("realization", [0, 1], "1")] if real else (), time=cubes.T0 + t * H, frt=cubes.T0 + f * H, time_bounds=b, attributes=dict(ATT, title="T%d" % i)))
        p = CubeCombiner(op, expand_bound=expand)
        differ = {"time": times[0] != times[1] or bounds == "first", "forecast_reference_time": frts[0] != frts[1], "forecast_period": times[0] - frts[0] != times[1] - frts[1] or bounds == "first"}
        with cubes.Unchanged(*cl):
            if bounds == "first" and expand and op != "*":
                e = raises(p.process, cl, "new")
                cov.step()
                expect(isinstance(e, ValueError), "bounds of only some must be refused", got=e)
                return "refused"
            r = p.process(cl, "new")
        cov.step()
        expect(r.attributes == dict(ATT, title="T0"), "attributes", got=r.attributes)
        for n in differ:
            got, was = r.coord(n), cl[0].coord(n)
            if op == "*" or not expand or not differ[n]:
                expect(list(got.points) == list(was.points) and (got.bounds is None) == (was.bounds is None) and (got.bounds is None or (got.bounds == was.bounds).all()), n + " of the first", got=(got.points, got.bounds))
            else:
                pts = [v for c in cl for v in (c.coord(n).points if c.coord(n).bounds is None else c.coord(n).bounds.ravel())]
                expect(list(got.points) == [max(pts)] and [list(q) for q in got.bounds] == [[min(pts), max(pts)]], n + " spans the inputs", expected=(min(pts), max(pts)), got=(got.points, got.bounds))
            expect(got.points.dtype == was.points.dtype and (got.bounds is None or got.bounds.dtype == was.points.dtype), n + " type", got=got.points.dtype)
        return "times"
    if kind == "cell":
        cm = case[2]
        cl = CubeList([cubes.grid(a, attributes=ATT), cubes.grid(a, attributes=ATT)])
        for c in cl:
            c.add_cell_method(CellMethod("sum", coords="time"))
        word = {"max": "maximum", "min": "minimum", "mean": "mean"}
        p = CubeCombiner(op, cell_method_coordinate=cm)
        with cubes.Unchanged(*cl):
            if cm and op not in word and op not in ("*", "multiply"):
                e = raises(p.process, cl, "new")
                cov.step()
                expect(isinstance(e, ValueError), "must be refused", got=e)
                return "refused"
            r = p.process(cl, "new")
        cov.step()
        want = [CellMethod("sum", coords="time")] + ([CellMethod(word[op], coords=cm)] if cm and op in word else [])
        expect(list(r.cell_methods) == want, "cell methods", expected=want, got=r.cell_methods)
        return "cell"
    if kind == "prob":
        cms, vic = case[2:4]
        d = "precipitation_rate" + ("_in_vicinity" if vic else "")
        c1 = cubes.prob(np.stack([a, a]), [0.1, 1.0], attributes=ATT)
        c1.rename("probability_of_%s_above_threshold" % d)
        c2 = cubes.prob(np.stack([a, a + 1]), [0.1, 1.0], attributes=ATT)
        c2.rename("probability_of_%s_above_threshold" % d)
        m = [None, CellMethod("mean", "time", comments="of precipitation_rate"), CellMethod("mean", "time"), CellMethod("max", "time", intervals="1 hour", comments="of precipitation_rate over 1 hour"), CellMethod("mean", "time", comments="of something_else")][cms]
        if m:
            c1.add_cell_method(m)
        with cubes.Unchanged(c1, c2):
            r = CubeCombiner("*").process(CubeList([c1, c2]), "rainfall_rate" + ("_in_vicinity" if vic else ""))
        cov.step()
        expect(r.name() == "probability_of_rainfall_rate%s_above_threshold" % ("_in_vicinity" if vic else ""), "name", got=r.name())
        q = r.coord("rainfall_rate")
        expect(q.var_name == "threshold" and q.attributes == {"spp__relative_to_threshold": "greater_than"}, "threshold coordinate", got=q)
        want = [m] if m else []
        if cms in (1, 3):
            want = [CellMethod(m.method, coords=m.coord_names, intervals=m.intervals, comments="of rainfall_rate")]
        expect(list(r.cell_methods) == want, "cell methods", expected=want, got=r.cell_methods)
        expect_close(r.data, np.stack([a * a, a * (a + 1)]), "product")
        return "probability"
    k = case[1]
    from improver.cube_combiner import Combine

    c = cubes.grid(a, attributes=ATT)
    three = np.zeros((3, 1, 2), np.float32)
    f = [
        lambda: CubeCombiner("times"), lambda: CubeCombiner("+").process(CubeList([c]), "n"), lambda: CubeCombiner("+").process(CubeList([c, cubes.grid(a, origin=(500.0, 0.0))]), "n"),
        lambda: CubeCombiner("+").process(CubeList([c, cubes.grid(np.zeros((1, 3), np.float32))]), "n"),
        lambda: CubeCombiner("+").process(CubeList([cubes.grid(three, leading=[("realization", [0, 1, 2], "1")]), cubes.grid(three, leading=[("realization", [0, 1, 3], "1")])]), "n"),
        lambda: CubeCombiner("+", broadcast="threshold").process(CubeList([c, c.copy()]), "n"), lambda: Combine("max", minimum_realizations=0).process(CubeList([c, c.copy()])), lambda: Combine("max", minimum_realizations="two"),
        lambda: CubeCombiner("+").process(CubeList([cubes.grid(three, leading=[("realization", [0, 1, 2], "1")]), c]), "n"),
    ][k]
    e = raises(f)
    cov.step()
    expect(isinstance(e, (ValueError, KeyError)), "must be refused", got=e)
    return "refused"


# ------------------------------------------------------------ Combine with a minimum of realizations, time windows
def c_window(tier):
    sets = [[], [0], [1], [0, 1], [0, 2], [1, 2], [0, 1, 2]]
    for combo in itertools.product(sets[1:], repeat=3):
        for least in (1, 2, 3):
            yield ("least", [list(s) for s in combo], least, 0)
    for combo in itertools.product(sets[1:], repeat=2):
        for least in (1, 2, 3):
            yield ("least", [list(s) for s in combo], least, 1)
    for periods in itertools.product((0, 1, 3), repeat=2):
        for n in (2, 3):
            for cms in range(6):
                for kind in ("value", "prob", "probnamed"):
                    yield ("window", list(periods), n, [cms, kind])
    for k in range(4):
        yield ("again", k, 0, 0)


def window(case, cov):
    import cubes
    import numpy as np
    from improver.cube_combiner import Combine, MaxInTimeWindow
    from iris.coords import CellMethod
    from iris.cube import CubeList

    kind, a1, a2, a3 = case
    if kind == "least":
        cl = CubeList()
        vals = {}
        for i, rs in enumerate(a1):
            d = np.array([[[(7 * i + 3 * r) % 5, r * (i - 1)]] for r in rs], np.float32)
            for r, v in zip(rs, d):
                vals[i, r] = v
            t = cubes.T0 + (4 + i) * H
            cl.append(cubes.grid(d, leading=[("realization", rs, "1")], time=t, time_bounds=(t - H, t), attributes=ATT))
        both = sorted(set.intersection(*[set(s) for s in a1]))
        ops = ("max", "mean", "+") if a3 == 0 else ("min", "max")
        for op in ops:
            if a3:
                p = MaxInTimeWindow(minimum_realizations=a2) if op == "max" else Combine(op, minimum_realizations=str(a2))
            else:
                p = Combine(op, minimum_realizations=a2)
            with cubes.Unchanged(*cl):
                if len(both) < a2:
                    e = raises(p.process, cl)
                    cov.step()
                    expect(e is not None, "too few realizations must be refused", got=e)
                    continue
                r = p.process(cl)
            cov.step()
            rs = r.coord("realization").points
            expect(sorted(rs) == both, "the realizations at all times", expected=both, got=rs)
            got = r.data if r.coord_dims("realization") else r.data[None]
            for k, q in enumerate(rs):
                s = [vals[i, q] for i in range(len(a1))]
                want = {"max": np.max, "min": np.min, "mean": np.mean, "+": np.sum}[op](s, axis=0)
                expect_close(got[k], want, op + " of realization %d" % q, rtol=1e-6)
            t = r.coord("time")
            lo, hi = cubes.T0 + 3 * H, cubes.T0 + (3 + len(a1)) * H
            expect(list(t.points) == [hi] and [list(b) for b in t.bounds] == [[lo, hi]], "time", got=(t.points, t.bounds))
        return "least"
    if kind == "window":
        periods, n, (cms, what) = a1, a2, a3
        cl = CubeList()
        data = []
        for i in range(n):
            t = cubes.T0 + (6 + i) * H
            pd = periods[i % 2]
            b = (t - pd * H, t) if pd else None
            d = np.array([[[i, 2, -i], [1, (i - 1) ** 2, 5]]] * 2, np.float32) / 8
            data.append(d)
            if what == "value":
                c = cubes.grid(d, name="lwe_thickness_of_precipitation_amount", units="m", leading=[("realization", [0, 1], "1")], time=t, time_bounds=b, attributes=ATT)
            else:
                c = cubes.prob(d, [0.1, 0.2], diag="threshold" if what == "prob" else "lwe_thickness_of_precipitation_amount", tunits="m", time=t, time_bounds=b, attributes=ATT)
                c.rename("probability_of_lwe_thickness_of_precipitation_amount_above_threshold")
            for m in [(), ("sum",), ("sum", "maximum"), ("mean",), ("sumreal",), ("maximum", "mean")][cms]:
                c.add_cell_method(CellMethod("sum", coords="realization") if m == "sumreal" else CellMethod(m, coords="time"))
            cl.append(c)
        p = MaxInTimeWindow()
        ok = periods[0] and periods[0] == periods[1]
        with cubes.Unchanged(*cl):
            if not ok:
                e = raises(p.process, cl)
                cov.step()
                expect(isinstance(e, ValueError), "periods must be given and agree", got=e)
                return "refused"
            r = p.process(cl)
            r2 = p.process(CubeList(cl[::-1]))
        cov.step(2)
        expect_close(r.data, np.max(data, axis=0), "maximum")
        expect_close(r2.data, np.max(data, axis=0), "maximum in the other order")
        lo, hi = cubes.T0 + (6 - periods[0]) * H, cubes.T0 + (5 + n) * H
        for q in (r, r2):
            t = q.coord("time")
            expect(list(t.points) == [hi] and [list(b) for b in t.bounds] == [[lo, hi]], "time", got=(t.points, t.bounds))
        diag = "threshold" if what == "prob" else "lwe_thickness_of_precipitation_amount"
        keep = {3: [CellMethod("mean", coords="time")], 4: [CellMethod("sum", coords="realization")], 5: [CellMethod("mean", coords="time")]}.get(cms, [])
        want = keep + [CellMethod("sum", coords=["time"], comments="of %s over %d hour%s within time window" % (diag, periods[0], "" if periods[0] == 1 else "s")), CellMethod("maximum", coords=["time"], comments="of %s" % diag)]
        expect(list(r.cell_methods) == want, "cell methods", expected=want, got=r.cell_methods)
        expect(r.name() == cl[0].name() and r.units == cl[0].units, "name", got=r.name())
        return "window"
    # a plugin used for one diagnostic after another
    a = np.ones((2, 2), np.float32)
    p = Combine(["max", "+", "-", "mean"][a1], new_name=None)
    one = CubeList([cubes.grid(a, name="air_temperature"), cubes.grid(a, name="air_temperature")])
    two = CubeList([cubes.grid(a, name="dew_point"), cubes.grid(a, name="dew_point")])
    r, s = p.process(one), p.process(*two)
    cov.step(2)
    expect(r.name() == "air_temperature" and s.name() == "dew_point", "each result is named for its inputs", got=(r.name(), s.name()))
    return "again"


SECTIONS = [Section("arithmetic", c_arith, arith), Section("broadcast", c_broad, broad), Section("metadata", c_meta, meta), Section("window", c_window, window)]

if __name__ == "__main__":
    main(globals())
