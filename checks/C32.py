"""C32: forecasts made consistent with a reference, or normalised to it."""
import itertools

from mc import Section, Violation, expect, expect_close, expect_same, main, raises

PROPERTY = "C32"
ATT = {"title": "T", "source": "S", "institution": "I"}
F = [-2.0, 0.0, 1.0, 2.5, 4.0, None]
R = [-1.0, 0.0, 1.0, 2.0, None]


def pair(shape=(6, 5), mask=(1, 1), k=0):
    """Every forecast value with every reference value."""
    import numpy as np

    f = np.array([[-9 if a is None else a for b in R] for a in F], np.float32)
    r = np.array([[-9 if b is None else b for b in R] for a in F], np.float32)
    fm = np.array([[a is None for b in R] for a in F])
    rm = np.array([[b is None for b in R] for a in F])
    if not mask[0]:
        f[fm], fm[:] = 3.0, False
    if not mask[1]:
        r[rm], rm[:] = 0.5, False
    return (np.ma.masked_array(f, fm) if mask[0] else f), (np.ma.masked_array(r, rm) if mask[1] else r)


def c_enforce(tier):
    for add in (0.0, 0.5, -1.0):
        for mul in (1.0, 0.5, 2.0, -1.0):
            for op in (">=", "<="):
                for mask in ((0, 0), (1, 0)):
                    for units in (("K", "K"), ("mm", "m"), ("m", "mm")):
                        for lay in ("yx", "ryx", "xy"):
                            yield ("one", add, mul, op, list(mask), list(units), lay)
    # dimensions in one order in the forecast and another in the reference
    for lay in ("yx", "ryx", "hyx", "bryx"):
        for order in itertools.permutations(range(3 if lay in ("ryx", "hyx") else 2)):
            for order2 in itertools.permutations(range(2 if lay in ("yx", "bryx") else 3)):
                for mask in ((0, 0), (1, 0)):
                    for op in (">=", "<=", "two"):
                        yield ("mixed", list(order), list(order2), op, list(mask), 0, lay)
    for a1, a2 in itertools.product((0.0, -1.0, 1.0, 2.5), repeat=2):
        for m1, m2 in itertools.product((1.0, 0.5, 2.0), repeat=2):
            for ops in ([">=", "<="], ["<=", ">="]):
                yield ("two", [a1, a2], [m1, m2], ops, [0, 0], ["K", "K"], "yx")
    for op in (">=", "<="):
        for lay in ("hyx", "yx"):
            yield ("prob", 0, 1, op, [0, 0], ["1", "1"], lay)
    for k in range(26):
        yield ("refuse", k, 0, 0, [0, 0], ["K", "K"], "yx")
    for warn in (None, 0.5, 3.0, 4.0):
        for op in (">=", "<="):
            yield ("warn", warn, 0, op, [0, 0], ["K", "K"], "yx")


def build(f, r, units, lay, prob=False):
    import cubes
    import numpy as np

    out = []
    for a, u, k in ((f, units[0], 0), (r, units[1], 1)):
        if lay == "ryx":
            c = cubes.grid(np.ma.stack([a, a[::-1]]) if np.ma.isMaskedArray(a) else np.stack([a, a[::-1]]), name="nm%d" % k, units=u, leading=[("realization", [0, 1], "1")], attributes=ATT)
        elif lay == "hyx":
            c = cubes.prob(np.stack([a, a[::-1]]), [1.0, 2.0], diag="d%d" % k, attributes=dict(ATT, title="T%d" % k))
        else:
            c = cubes.grid(a, name="nm%d" % k, units=u, attributes=dict(ATT, title="T%d" % k))
            if lay == "xy":
                c.transpose()
        out.append(c)
    return out


def enforce(case, cov):
    import cubes
    import numpy as np
    import warnings
    from improver.utilities.forecast_reference_enforcement import EnforceConsistentForecasts as E

    kind, add, mul, op, mask, units, lay = case
    if kind == "mixed":
        return mixed(case, cov)
    f, r = pair(mask=tuple(mask))
    if kind == "prob":
        f, r = np.clip(f / 4, 0, 1), np.clip(r / 2, 0, 1)
    fc, rc = build(f, r, units, lay)
    if kind == "refuse":
        return refuse(add, fc, rc, cov)
    if kind == "warn":
        with cubes.Unchanged(fc, rc), warnings.catch_warnings(record=True) as w:
            warnings.simplefilter("always")
            E(comparison_operator=op, diff_for_warning=add).process(fc, rc)
        cov.step()
        most = np.max(np.abs((np.maximum if op == ">=" else np.minimum)(f, r) - f))
        got = [x for x in w if "Inconsistency" in str(x.message)]
        expect(bool(got) == (add is not None and most > add), "warned exactly when the difference is greater", expected=most, got=len(got))
        return "warn"
    scale = {("mm", "m"): 1000.0, ("m", "mm"): 0.001}.get(tuple(units), 1.0)
    if kind == "one":
        p = E(additive_amount=add, multiplicative_amount=mul, comparison_operator=op)
    elif kind == "prob":
        p = E(comparison_operator=op)
    else:
        p = E(add, mul, op)
    ref = rc.data.astype(float) * scale
    low, high = np.full(ref.shape, -np.inf), np.full(ref.shape, np.inf)
    if kind == "two":
        b = [mul[i] * ref + add[i] for i in (0, 1)]
        low, high = (b[0], b[1]) if op == [">=", "<="] else (b[1], b[0])
        if (low > high).any():
            with cubes.Unchanged(fc, rc):
                e = raises(p.process, fc, rc)
            cov.step()
            expect(isinstance(e, ValueError), "contradictory bounds must be refused", got=e)
            return "contradiction"
    elif op == ">=":
        low = mul * ref + add
    else:
        high = mul * ref + add
    with cubes.Unchanged(fc, rc):
        got = p.process(fc, rc)
        again = p.process(fc, rc)
    cov.step(2)
    want = np.minimum(np.maximum(np.ma.getdata(fc.data).astype(float), low), high)
    k = np.ma.getmaskarray(fc.data)
    expect((np.ma.getmaskarray(got.data) == k).all(), "mask", got=got.data)
    expect_close(np.where(k, 0, np.ma.getdata(got.data)), np.where(k, 0, want), "moved to the bound and no further", rtol=1e-5, atol=1e-6)
    expect(got.data.dtype == np.float32, "type", got=got.data.dtype)
    cubes.expect_cube(again, cubes.describe(got), "the same again")
    a, b = cubes.describe(got, data=False), cubes.describe(fc, data=False)
    cubes_diff(a, b)
    return kind


def mixed(case, cov):
    """The forecast and the reference have their dimensions in different orders."""
    import cubes
    import numpy as np
    from improver.utilities.forecast_reference_enforcement import EnforceConsistentForecasts as E

    _, order, order2, op, mask, _, lay = case
    f, r = pair(mask=tuple(mask))
    f, r = f[:5, :5], r[:5, :5]
    if lay == "hyx":
        f, r = np.clip(f / 4, 0, 1), np.clip(r / 2, 0, 1)
    if lay == "bryx":
        fc, rc = build(f, r, ["K", "K"], "ryx")[0], build(f, r, ["K", "K"], "yx")[1]
    else:
        fc, rc = build(f, r, ["1", "1"] if lay == "hyx" else ["K", "K"], lay)
    names = [c.name() for c in fc.coords(dim_coords=True)]
    rnames = [c.name() for c in rc.coords(dim_coords=True)]
    # a reference without realizations serves every realization, which come first
    lead = len(names) - len(order)
    a = cubes.transposed(fc, names[:lead] + [names[lead + i] for i in order])
    b = cubes.transposed(rc, [rnames[i] for i in order2])
    two = op == "two" and lay != "hyx"
    p = E([-0.5, 0.5], [1.0, 1.0], [">=", "<="]) if two else E(comparison_operator=">=" if op == "two" else op)
    with cubes.Unchanged(a, b):
        got = p.process(a, b)
    cov.step()
    ref = np.ma.getdata(rc.data).astype(float)
    low = ref - 0.5 if two else (ref if op != "<=" else np.full(ref.shape, -np.inf))
    high = ref + 0.5 if two else (ref if op == "<=" else np.full(ref.shape, np.inf))
    want = np.minimum(np.maximum(np.ma.getdata(fc.data).astype(float), low), high)
    expect([c.name() for c in got.coords(dim_coords=True)] == [c.name() for c in a.coords(dim_coords=True)], "the dimensions of the forecast, in its order")
    g = cubes.arr(got, *names)
    k = np.ma.getmaskarray(fc.data)
    expect((np.ma.getmaskarray(g) == k).all(), "mask", got=g)
    expect_close(np.where(k, 0, np.ma.getdata(g)), np.where(k, 0, want), "each value moved to the bound of its own point", rtol=1e-5, atol=1e-6)
    cubes_diff(cubes.describe(got, data=False), cubes.describe(a, data=False))
    return "mixed"


def cubes_diff(a, b):
    import cubes

    d = cubes.diff(a, b)
    if d:
        raise Violation("described as the forecast: " + d)


def refuse(k, fc, rc, cov):
    import cubes
    import numpy as np
    from improver.utilities.forecast_reference_enforcement import EnforceConsistentForecasts as E

    if k == 0:
        rc.units = "m"
        f = lambda: E().process(fc, rc)
    elif k == 1:
        f = lambda: E(comparison_operator=">").process(fc, rc)
    elif k == 2:
        f = lambda: E([0.0, 1.0], 1.0, ">=").process(fc, rc)
    elif k == 3:
        f = lambda: E([0.0, 1.0], [1.0, 1.0], ">=").process(fc, rc)
    elif k == 4:
        f = lambda: E([0.0, 1.0], [1.0, 1.0], [">=", ">="]).process(fc, rc)
    elif k == 5:
        f = lambda: E([0.0, 1.0], [1.0, 1.0], ["<", ">"]).process(fc, rc)
    elif k in (6, 7):
        a, b = build(np.zeros((2, 2), np.float32), np.zeros((2, 2), np.float32), ["1", "1"], "hyx")
        f = lambda: E(*((0.5, 1.0) if k == 6 else (0.0, 0.5))).process(a, b)
    elif k == 8:
        f = lambda: E(0.0, [1.0, 2.0], [">=", "<="]).process(fc, rc)
    else:
        from improver.utilities.forecast_reference_enforcement import normalise_to_reference as N
        from iris.cube import CubeList

        if k >= 14:  # a zero total at one point where the reference is not zero, of any sign and size
            r = np.zeros((2, 2), np.float32)
            r.flat[(k - 14) % 4] = [1.0, -1.0, 1e-7][(k - 14) // 4]
            m = [np.ones((2, 2), np.float32) for _ in range(2)]
            for q in m:
                q.flat[(k - 14) % 4] = 0.0
            r = cubes.grid(r)
            cl = CubeList([cubes.grid(q, name="n%d" % i) for i, q in enumerate(m)])
            e = raises(N, cl, r)
            o = N(cl, r, ignore_zero_total=True)
            cov.step(2)
            expect(isinstance(e, ValueError), "must be refused", got=e)
            expect(all((q.data == 0).all() for q in o), "zero where ignored", got=[q.data for q in o])
            return "refused"
        a = cubes.grid(np.ones((2, 2), np.float32))
        z = cubes.grid(np.zeros((2, 2), np.float32))
        f = [lambda: N(CubeList([a]), a), lambda: N(CubeList([a, cubes.grid(np.ones((2, 2), np.float32), origin=(1.0, 0.0))]), a), lambda: N(CubeList([z, z.copy()]), a), lambda: N(CubeList([a, a.copy()]), cubes.grid(np.ones((2, 3), np.float32))),
             lambda: N(CubeList([a, cubes.grid(np.ones((2, 2, 2), np.float32), leading=[("realization", [0, 1], "1")])]), a)][k - 9]
    e = raises(f)
    cov.step()
    expect(isinstance(e, ValueError), "must be refused", got=e)
    return "refused"


# ------------------------------------------------------------ normalising
def c_norm(tier):
    V = [0.0, 1.0, 3.0, None]
    for n in (2, 3):
        for ignore in (False, True):
            for lay in ("yx", "ryx", "hyx"):
                for refs in ((2.0, 0.5), (0.0,), (1.0, None), (-4.0,)):
                    for mask in (0, 1):
                        yield (n, ignore, lay, list(refs), mask)
    for lay in ("yx", "ryx", "hyx"):
        k = 2 if lay == "yx" else 3
        for orders in itertools.product(list(itertools.permutations(range(k))), repeat=3):
            if k == 2 or orders[0] == (0, 1, 2) or orders[0] == orders[1]:
                yield ("mixed", [list(o) for o in orders], lay, 0, 0)
    for names in itertools.product((0, 1, 2), repeat=3):
        for want in (None, "nm0", ["nm0"], ["nm0", "xnm0"], ["other"], [], "nm0_max", ["nm0_max"], ["nm0_max", "nm0"]):
            yield ("split", list(names), want, 0, 0)


def norm(case, cov):
    import cubes
    import numpy as np
    from improver.utilities.forecast_reference_enforcement import normalise_to_reference, split_cubes_by_name
    from iris.cube import CubeList

    n, ignore, lay, refs, mask = case
    if n == "mixed":
        base = [np.arange(9, dtype=np.float32).reshape(3, 3) * (k + 1) % 7 + 1 for k in range(3)]
        if lay == "yx":
            full = [cubes.grid(a, name="nm%d" % k, units="m") for k, a in enumerate(base)]
        elif lay == "ryx":
            full = [cubes.grid(np.stack([a, a.T + 1, a[::-1]]), name="nm%d" % k, units="m", leading=[("realization", [0, 1, 2], "1")]) for k, a in enumerate(base)]
        else:
            full = [cubes.prob(np.stack([a, a.T + 1, a[::-1]]) / 9, [1.0, 2.0, 3.0], diag="d%d" % k) for k, a in enumerate(base)]
        nms = [[c.name() for c in f.coords(dim_coords=True)] for f in full]
        moved = [cubes.transposed(f, [m[i] for i in o]) for f, m, o in zip(full, nms, ignore)]
        with cubes.Unchanged(*moved):
            out = normalise_to_reference(CubeList(moved[:2]), moved[2])
        cov.step()
        d = [np.ma.getdata(f.data).astype(float) for f in full]
        for q in (0, 1):
            cubes_diff(cubes.describe(out[q], data=False), cubes.describe(moved[q], data=False))
            expect_close(cubes.arr(out[q], *nms[q]), d[2] * d[q] / (d[0] + d[1]), "share of the reference at its own point", rtol=1e-5)
        return "mixed"
    if n == "split":
        nms = ["nm0", "nm0_max", "xnm0"]
        cl = CubeList([cubes.grid(np.full((1, 1), i, np.float32), name=nms[k]) for i, k in enumerate(ignore)])
        a, b = split_cubes_by_name(cl, lay)
        cov.step()
        keep = nms if lay is None else ([lay] if isinstance(lay, str) else lay)
        wa = [i for i, k in enumerate(ignore) if nms[k] in keep]
        expect([int(c.data[0, 0]) for c in a] == wa and [int(c.data[0, 0]) for c in b] == [i for i in range(3) if i not in wa], "split by name", expected=wa, got=([c.data for c in a], [c.data for c in b]))
        return "split"
    V = [0.0, 1.0, 3.0] + ([None] if mask else [])
    if not mask:
        refs = [2.5 if r is None else r for r in refs]
    comb = [c for c in itertools.product(V, repeat=n) for _ in refs]
    rv = [r for _ in itertools.product(V, repeat=n) for r in refs]
    if not ignore:
        ok = [i for i, (c, r) in enumerate(zip(comb, rv)) if not (all(q is not None for q in c) and sum(c) == 0 and r not in (0.0, None))]
        comb, rv = [comb[i] for i in ok], [rv[i] for i in ok]

    def cube(v, name, k):
        a = np.array([-9 if q is None else q for q in v], np.float32).reshape(1, -1)
        m = np.array([q is None for q in v]).reshape(1, -1)
        if mask:
            a = np.ma.masked_array(a, m)
        if lay == "yx":
            return cubes.grid(a, name=name, attributes=dict(ATT, title="T%d" % k), units="m")
        s = np.ma.stack([a, a[:, ::-1]]) if mask else np.stack([a, a[:, ::-1]])
        if lay == "ryx":
            return cubes.grid(s, name=name, units="m", leading=[("realization", [0, 1], "1")], attributes=dict(ATT, title="T%d" % k))
        return cubes.prob(s, [1.0, 2.0], diag="d%d" % k, attributes=dict(ATT, title="T%d" % k))

    cl = CubeList([cube([c[i] for c in comb], "nm%d" % i, i) for i in range(n)])
    ref = cube(rv, "ref", 9)
    with cubes.Unchanged(ref, *cl):
        out = normalise_to_reference(cl, ref, ignore_zero_total=ignore)
    cov.step()
    expect(len(out) == n, "as many cubes", got=len(out))
    for i, (o, c) in enumerate(zip(out, cl)):
        cubes_diff(cubes.describe(o, data=False), cubes.describe(c, data=False))
        got = o.data if lay == "yx" else o.data[0]
        for k, (vs, r) in enumerate(zip(comb, rv)):
            g, gm = np.ma.getdata(got)[0, k], np.ma.getmaskarray(got)[0, k]
            if r is None or any(v is None for v in vs):
                if not gm:
                    raise Violation("masked where any input is, values %s reference %s" % (vs, r), got=g)
                continue
            want = r * vs[i] / (sum(vs) or 1.0)
            if gm or abs(g - want) > 1e-5:
                raise Violation("share of the reference, values %s reference %s" % (vs, r), expected=want, got=None if gm else g)
        expect(o.data.dtype == np.float32, "type", got=o.data.dtype)
    return "normalised"


SECTIONS = [Section("enforce", c_enforce, enforce), Section("normalise", c_norm, norm)]

if __name__ == "__main__":
    main(globals())
