"""C29: modal categories over a period."""
import itertools

from mc import Section, Violation, expect, expect_same, main, raises

PROPERTY = "C29"
H = 3600
NIGHT = {1: 0, 10: 9}
GROUPS = {"wet": [10, 12], "snow": [17, 15]}
CODES = [0, 1, 9, 10, 12, 15, 17]


def tree():
    t = {"meta": {"name": "weather_code"}, "n0": {"if_true": "L1", "if_false": "L0"}}
    for c in (1, 10, 12, 17, 15, 0, 9):
        t["L%d" % c] = {"leaf": c}
    for d, n in NIGHT.items():
        t["L%d" % d]["if_night"] = "L%d" % n
    for g, cs in GROUPS.items():
        for c in cs:
            t["L%d" % c]["group"] = g
    return t


def mode(seq):
    """The code of one point; None if nothing is there."""
    day = {n: d for d, n in NIGHT.items()}
    s = [day.get(c, c) for c in seq if c is not None]
    if not s:
        return None

    def top(v):
        best = max(v.count(c) for c in v)
        return best, max(c for c in v if v.count(c) == best)

    n, c = top(s)
    if n >= 0.3 * len(s):
        return c
    for g in GROUPS.values():
        have = [q for q in s if q in g]
        if have:
            s = [min(have) if q in g else q for q in s]
    return top(s)[1]


def slot(data, i, period, mask=None, frt=0, attributes=None, spatial="equalarea", blend=False, **kw):
    import cubes
    import numpy as np

    a = np.asarray(data, np.int32)
    if mask is not None:
        a = np.ma.masked_array(a, mask)
    t = cubes.T0 + (6 + i * period) * H
    c = cubes.grid(a, name="weather_code", time=t, time_bounds=(t - period * H, t), frt=cubes.T0 + frt * H, spatial=spatial, attributes=attributes or {"title": "T", "source": "S", "institution": "I"}, **kw)
    if blend:
        q = c.coord("forecast_reference_time").copy()
        q.rename("blend_time")
        c.add_aux_coord(q)
    return c


def plugin(**kw):
    from improver.categorical.modal_code import ModalCategory

    return ModalCategory(tree(), **kw)


def compare(r, seqs, shape):
    import numpy as np

    g = np.ma.getdata(r.data)
    m = np.ma.getmaskarray(r.data)
    expect(g.shape == shape, "shape", expected=shape, got=g.shape)
    memo = {}
    for p, s in zip(np.ndindex(*shape), seqs):
        k = tuple(s)
        if k not in memo:
            memo[k] = mode(k)
        w = memo[k]
        if (w is None) != bool(m[p]):
            raise Violation("masked exactly where every input is, at %s of %s" % (p, k), expected=w, got=r.data[p])
        if w is not None and int(g[p]) != w:
            raise Violation("mode of %s" % (k,), expected=w, got=int(g[p]))
    expect(g.dtype == np.int32, "type", got=g.dtype)


# ------------------------------------------------------------ all sequences of codes
def c_codes(tier):
    for n in range(1, 6 if tier == "quick" else 7):
        codes = CODES if n < 5 else [0, 1, 10, 12, 15, 17][: 6 if n == 5 else 5]
        for first in (codes if n > 3 else [None]):
            yield (n, codes, first, False)
        if n < 4:
            yield (n, CODES, None, True)
    for first in itertools.product([1, 10, 12, 17] if tier == "quick" else [1, 10, 12, 15, 17], repeat=3 if tier == "quick" else 4):
        yield (7 if tier == "quick" else 8, [1, 10, 12, 17] if tier == "quick" else [1, 10, 12, 15, 17], list(first), False)
    # ten inputs: three of a kind are significant, two are not
    for k in range(8):
        yield (10, [1, 12, 10, 17, 15], "ten%d" % k, False)
    # some of the inputs missing: the share is that of the inputs that are present
    for first in [0, 1, 10, 12, 15, 17, None]:
        yield (4, [0, 1, 10, 12, 15, 17], first if first is not None else [None], True)
        yield (5, [1, 10, 12, 15], [first, None], True)
    for k in range(8):
        yield (10, [1, 12, 10, 17, 15], "mis%d" % k, True)


def sequences(n, codes, first, masked):
    cs = list(codes) + ([None] if masked else [])
    if isinstance(first, str) and first[:3] == "mis":
        base = [[2, 1, 1, 1, 1], [2, 1, 1, 1, 0], [2, 2, 1, 1, 1], [2, 2, 1, 0, 0], [3, 2, 1, 1, 1], [2, 2, 1, 1, 0], [1, 1, 1, 1, 0], [1, 1, 1, 0, 0]][int(first[3:])]
        for p in itertools.permutations(range(5)):
            s = [c for c, m in zip([codes[i] for i in p], base) for _ in range(m)]
            s += [None] * (n - len(s))
            yield s
            yield s[::3] + s[1::3] + s[2::3]
    elif isinstance(first, str):
        k = int(first[3:])
        base = [[2, 2, 2, 2, 2], [3, 2, 2, 2, 1], [3, 3, 2, 1, 1], [3, 3, 3, 1, 0], [2, 3, 2, 2, 1], [1, 1, 2, 3, 3], [4, 2, 2, 1, 1], [1, 2, 2, 2, 3]][k]
        for p in itertools.permutations(range(5)):
            s = [c for c, m in zip([codes[i] for i in p], base) for _ in range(m)]
            yield s
            yield s[::2] + s[1::2][::-1]
    elif first is None:
        yield from itertools.product(cs, repeat=n)
    else:
        f = tuple(first) if isinstance(first, (list, tuple)) else (first,)
        for r in itertools.product(cs, repeat=n - len(f)):
            yield f + r


def codes(case, cov):
    import cubes
    import numpy as np
    from iris.cube import CubeList

    n, cs, first, masked = case
    seqs = [tuple(s) for s in sequences(n, cs, first, masked)]
    w = 7 if len(seqs) % 7 == 0 else (8 if len(seqs) % 8 == 0 else (5 if len(seqs) % 5 == 0 else 1))
    shape = (len(seqs) // w, w)
    cl = CubeList()
    for i in range(n):
        a = np.array([-9 if s[i] is None else s[i] for s in seqs]).reshape(shape)
        cl.append(slot(a, i, 1, mask=(a == -9) if masked else None))
    cov.state()
    p = plugin()
    with cubes.Unchanged(*cl):
        r = p.process(cl)
    cov.step(len(seqs))
    compare(r, seqs, shape)
    return "%d inputs" % n


# ------------------------------------------------------------ layouts, orders, histories
def c_layout(tier):
    for shape in ((1, 1), (1, 3), (3, 1), (2, 2)):
        for spatial in ("equalarea", "latlon"):
            for how in ("list", "reversed", "one", "timelast"):
                for n in (1, 2, 4, 5):
                    for mask in (0, 1):
                        yield (list(shape), spatial, how, n, mask)
    for k in (1, 2, 3):
        for how in ("list", "reversed", "one", "timelast"):
            for n in (1, 2, 4, 5):
                for mask in (0, 1):
                    yield ([k], "spot", how, n, mask)


def layout(case, cov):
    import cubes
    import numpy as np
    from iris.cube import CubeList

    shape, spatial, how, n, mask = case
    sp = int(np.prod(shape))
    all_ = [s for s in itertools.product([0, 1, 9, 12, 17], repeat=n)]
    step = max(1, len(all_) // (2 * sp))
    p = plugin()
    for start in range(0, len(all_) - sp * step + 1, sp * step) if len(all_) > sp * step else [0]:
        seqs = [list(all_[(start + i * step) % len(all_)]) for i in range(sp)]
        if mask:
            seqs[0][0] = None
            seqs[-1] = [None] * n
        cl = CubeList()
        for i in range(n):
            a = np.array([-9 if s[i] is None else s[i] for s in seqs]).reshape(shape)
            if spatial == "spot":
                cl.append(spot(a, i, mask=(a == -9) if mask else None))
            else:
                cl.append(slot(a, i, 3, mask=(a == -9) if mask else None, spatial=spatial))
        if how == "reversed":
            cl = CubeList(cl[::-1])
        if how in ("one", "timelast"):
            m = CubeList(cl).merge_cube()
            if how == "timelast" and n > 1:
                m.transpose(list(range(1, m.ndim)) + [0])
            cl = CubeList([m])
        with cubes.Unchanged(*cl):
            r = p.process(cl)
            r2 = p.process(cl)
        cov.step(2)
        compare(r, seqs, tuple(shape))
        cubes.expect_cube(r2, cubes.describe(r), "the same again")
    return how


def spot(a, i, mask=None):
    import cubes
    import numpy as np
    from improver.spotdata.build_spotdata_cube import build_spotdata_cube
    from iris.coords import AuxCoord, DimCoord

    c = slot(np.zeros((2, 2)), i, 3)
    sc = [q for q in c.coords() if not c.coord_dims(q)]
    n = len(a)
    a = np.asarray(a, np.int32)
    if mask is not None:
        a = np.ma.masked_array(a, mask)
    return build_spotdata_cube(a, "weather_code", "1", np.zeros(n, np.float32), np.arange(n, dtype=np.float32), np.arange(n, dtype=np.float32), ["%05d" % k for k in range(n)], scalar_coords=sc)


# ------------------------------------------------------------ times, attributes, records
def c_meta(tier):
    for frts in itertools.product((0, -6, -1), repeat=3):
        for period in (1, 3):
            for blend in (0, 1):
                for mid in (0, 1, 2):
                    for rec in (0, 1, 2):
                        if rec and not mid:
                            continue
                        yield ("meta", list(frts), period, blend, mid, rec)
    for k in range(3):
        yield ("refuse", k)


def meta(case, cov):
    import cubes
    import numpy as np
    from datetime import datetime
    from iris.coords import CellMethod
    from iris.cube import CubeList

    if case[0] == "refuse":
        k = case[1]
        cl = CubeList([slot([[1]], 0, 1), slot([[1]], 1, 1)])
        if k == 0:
            cl = CubeList([slot([[1]], 0, 1), slot([[1]], 1, 3)])
        if k == 1:
            for c in cl:
                c.coord("time").bounds = None
                c.coord("forecast_period").bounds = None
        if k == 2:
            cl[1].coord("time").bounds = [cl[1].coord("time").bounds[0] + [-H, 0]]
        e = raises(plugin().process, cl)
        cov.step()
        expect(isinstance(e, ValueError), "must be refused", got=e)
        return "refused"
    _, frts, period, blend, mid, rec = case
    models = ["uk_ens", "nc_det uk_ens aa_det", "gl_ens"] if mid == 2 else ["uk_ens"] * 3
    cl = CubeList()
    for i in range(3):
        att = {"title": "T", "source": "S", "institution": "I", "weather_code": np.array([1, 10]), "weather_code_meaning": "a b"}
        if mid:
            att["mid"] = models[i]
        if rec == 2 and i < 2:
            att["rr"] = ["uk_ens:20171110T0000Z:0.600\nuk_det:20171109T2300Z:0.400", "uk_ens:20171110T0000Z:1.000"][i]
        c = slot([[12, 10], [1, 0]], i, period, frt=frts[i], attributes=att, blend=blend)
        cl.append(c)
    kw = {}
    if mid:
        kw["model_id_attr"] = "mid"
    if rec:
        kw["record_run_attr"] = "rr"
    p = plugin(**kw)
    with cubes.Unchanged(*cl):
        r = p.process(cl)
        r2 = p.process(cl)
    cov.step(2)
    cubes.expect_cube(r2, cubes.describe(r), "the same again")
    expect_same(np.asarray(r.data), np.array([[12, 10], [1, 1]], np.int32), "codes")
    first, last = cubes.T0 + (6 - period) * H, cubes.T0 + (6 + 2 * period) * H
    frt = cubes.T0 + max(frts) * H
    t = r.coord("time")
    expect(list(t.points) == [last] and [list(b) for b in t.bounds] == [[first, last]], "time is the end of the whole period", expected=(first, last), got=(t.points, t.bounds))
    for n in ["forecast_reference_time"] + (["blend_time"] if blend else []):
        q = r.coord(n)
        expect(list(q.points) == [frt] and q.bounds is None, n, expected=frt, got=(q.points, q.bounds))
    q = r.coord("forecast_period")
    expect(list(q.points) == [last - frt] and [list(b) for b in q.bounds] == [[first - frt, last - frt]], "forecast period", got=(q.points, q.bounds))
    for n in ("time", "forecast_reference_time"):
        expect(r.coord(n).points.dtype == np.int64, n + " type", got=r.coord(n).points.dtype)
    expect(q.points.dtype == np.int32 and q.bounds.dtype == np.int32, "forecast period type", got=q.points.dtype)
    expect([str(m) for m in r.cell_methods] == [str(CellMethod("mode", coords="time", intervals="%d hour" % period))], "cell methods", got=r.cell_methods)
    got = dict(r.attributes)
    expect(list(got.pop("weather_code", [])) == [1, 10], "codes attribute", got=r.attributes)
    want = {"title": "T", "source": "S", "institution": "I", "weather_code_meaning": "a b"}
    if mid:
        want["mid"] = "aa_det gl_ens nc_det uk_ens" if mid == 2 else "uk_ens"
    if rec:
        st = lambda h: datetime.utcfromtimestamp(cubes.T0 + h * H).strftime("%Y%m%dT%H%MZ")
        lines = set()
        for i, (m, f) in enumerate(zip(models, frts)):
            if rec == 2 and i < 2:
                lines |= {"uk_ens:20171110T0000Z:"} | ({"uk_det:20171109T2300Z:"} if i == 0 else set())
            else:
                lines.add("%s:%s:" % (m, st(f)))
        want["rr"] = "\n".join(sorted(lines))
    expect(got == want, "attributes", expected=want, got=got)
    names = {c.name() for c in r.coords()}
    expect(names == {"time", "forecast_period", "forecast_reference_time", "projection_y_coordinate", "projection_x_coordinate"} | ({"blend_time"} if blend else set()), "coordinates", got=names)
    return "meta"


SECTIONS = [Section("codes", c_codes, codes), Section("layouts", c_layout, layout), Section("metadata", c_meta, meta)]

if __name__ == "__main__":
    main(globals())
