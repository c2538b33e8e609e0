"""C47: lapse rates from temperature and orography, and their application to gridded temperatures."""
import itertools
import math

from mc import Section, Violation, expect, expect_close, expect_same, main, raises

PROPERTY = "C47"
D, E = -0.0098, -0.0065
ATT = {"title": "T", "source": "S", "institution": "I", "other": "o", "mosg__model_configuration": "uk_det"}


def slope(ts, hs):
    n = len(ts)
    mt, mh = math.fsum(ts) / n, math.fsum(hs) / n
    return math.fsum((h - mh) * (t - mt) for t, h in zip(ts, hs)) / math.fsum((h - mh) ** 2 for h in hs)


def model(t, h, land, r, dh, lo, hi):
    ny, nx = len(t), len(t[0])
    out = []
    for y in range(ny):
        row = []
        for x in range(nx):
            v = D
            if land[y][x] and not math.isnan(t[y][x]):
                P = [(t[j][i], h[j][i]) for j in range(max(0, y - r), min(ny, y + r + 1)) for i in range(max(0, x - r), min(nx, x + r + 1))
                     if land[j][i] and not math.isnan(t[j][i]) and abs(h[j][i] - h[y][x]) <= dh]
                ts, hs = zip(*P)
                if max(ts) != min(ts) and max(hs) != min(hs):
                    v = slope(ts, hs)
            row.append(min(max(v, lo), hi))
        out.append(row)
    return out


# orography (m) and temperatures (K): multiples of 1/4, so that sums are exact in single precision
HS = [[100, 110, 125, 90, 60, 105, 141, 100, 65], [10, 10, 10, 10, 10, 10, 10, 10, 10], [0, 36, 35, 71, 70, 105, 34, 1, 2], [5, 5, 5, 5, 5, 300, 600, 900, 900]]
TS = [[280, 279.75, 279.5, 280.25, 280.5, 280, 279.25, 281, 280.75], [281.25] * 9, [270, 280, 290, 271, 281, 291, 272, 282, 292], [280, 280, 280, 280, 281, 280, 280, 280, 282]]
SHAPES = [(3, 3), (2, 3), (3, 2), (1, 4), (4, 1), (1, 1), (2, 2)]


def c_field(tier):
    for sh in SHAPES:
        n = sh[0] * sh[1]
        for m in range(2 ** n):
            if n == 9 and tier != "thorough" and bin(m).count("1") < 6:
                continue
            for i, (hi, ti) in enumerate(itertools.product(range(len(HS)), range(len(TS)))):
                if n == 9 and tier != "thorough" and (m + i) % 4:
                    continue
                yield (list(sh), m, hi, ti)


def field(case, cov):
    import cubes
    import numpy as np
    from improver.lapse_rate import LapseRate

    sh, m, hi, ti = case
    ny, nx = sh
    h = [[float(HS[hi][y * nx + x]) for x in range(nx)] for y in range(ny)]
    t = [[float(TS[ti][y * nx + x]) for x in range(nx)] for y in range(ny)]
    land = [[(m >> (y * nx + x)) & 1 for x in range(nx)] for y in range(ny)]
    if ti == 2 and m % 3 == 0:
        t[-1][-1] = math.nan
    tc = cubes.grid(np.array(t, np.float32), name="air_temperature", units="K", attributes=ATT)
    oc = cubes.grid(np.array(h, np.float32), name="surface_altitude", units="m", time=None, frt=None)
    mc = cubes.grid(np.array(land, [np.int8, np.float32, bool][m % 3]), name="land_binary_mask", units="1", time=None, frt=None)
    for kw in ({"nbhood_radius": 1}, {"nbhood_radius": 1, "max_height_diff": 5}, {"nbhood_radius": 2, "max_lapse_rate": 0.01, "min_lapse_rate": -0.005}, {"nbhood_radius": 0}, {}):
        w = model(t, h, land, kw.get("nbhood_radius", 7), kw.get("max_height_diff", 35), kw.get("min_lapse_rate", D), kw.get("max_lapse_rate", -3 * D))
        with cubes.Unchanged(tc, oc, mc):
            r = LapseRate(**kw).process(tc, oc, mc)
        cov.step()
        expect_close(r.data, np.array(w), "lapse rate", rtol=2e-4, atol=2e-6)
    expect(r.data.dtype == np.float32 and r.name() == "air_temperature_lapse_rate" and str(r.units) == "K m-1", "description", got=(r.data.dtype, r.name(), str(r.units)))
    expect(r.attributes == {k: ATT[k] for k in ("title", "source", "institution")}, "attributes", got=r.attributes)
    return "field"


FLAT = [0.3, 1.7, 3.1, 10.1, 37.7, 100.3, 451.9, 1033.3]


def c_flat(tier):
    for i in range(len(FLAT)):
        for r in range(1, 8):
            yield (i, r)


def flat(case, cov):
    """Flat ground, or one temperature: nothing to fit, whatever the values round to."""
    import cubes
    import numpy as np
    from improver.lapse_rate import LapseRate

    i, r = case
    T = np.array([[273.15 + 0.37 * ((3 * x + 5 * y + i) % 11) for x in range(6)] for y in range(7)], np.float32)
    H = np.array([[0.9 * ((7 * x + 2 * y + i) % 13) for x in range(6)] for y in range(7)], np.float32)
    land = cubes.grid(np.ones((7, 6), np.int8), name="land_binary_mask", units="1", time=None, frt=None)
    for t, h in ((T, np.full_like(T, FLAT[i])), (np.full_like(T, 270 + FLAT[i] / 50), H), (np.full_like(T, 270 + FLAT[i] / 50), np.full_like(T, FLAT[i]))):
        tc = cubes.grid(t, name="air_temperature", units="K", attributes=ATT)
        oc = cubes.grid(h, name="surface_altitude", units="m", time=None, frt=None)
        o = LapseRate(nbhood_radius=r).process(tc, oc, land)
        cov.step()
        expect_close(o.data, np.full((7, 6), D), "without differences the dry adiabatic lapse rate is used", rtol=1e-5)
    return "flat"


LAYS = ["yx", "xy", "ryx", "yxr", "yrx", "rxy", "xyr", "tyx", "rtyx", "tryx", "ytrx", "ryxt"]


def lay_cube(v4, order, name, units, rp=(0, 1), tp=None, length1=(), attributes=None):
    """v4[r][t][y][x] arranged in the order of the letters."""
    import cubes
    import numpy as np

    L = {"r": ("realization", list(rp), "1"), "t": ("time", list(tp or (cubes.T0 + 4 * 3600, cubes.T0 + 7 * 3600)), "seconds since 1970-01-01 00:00:00")}
    v = np.array(v4, np.float32)
    lead, idx = [], []
    for k in "rt":
        if k in order:
            n = 1 if k in length1 else v.shape["rt".index(k)]
            s = L[k]
            lead.append((s[0], s[1][:n], s[2]))
            idx.append(slice(0, n))
        else:
            idx.append(0)
    v = v[tuple(idx)]
    c = cubes.grid(v, name=name, units=units, leading=lead, attributes=attributes, **({"time": None} if "t" in order else {}))
    letters = [k for k in "rt" if k in order] + ["y", "x"]
    c.transpose([letters.index(k) for k in order])
    return c


def c_lay(tier):
    for o in LAYS:
        for u in range(6):
            for l1 in ("", "r", "t", "rt"):
                if any(k not in o for k in l1):
                    continue
                yield (o, u, l1)


V4 = [[[[280 + ((5 * x + 3 * y + 7 * t + 2 * r) % 8) / 4 for x in range(4)] for y in range(3)] for t in range(2)] for r in range(2)]


def layouts(case, cov):
    import cubes
    import numpy as np
    from improver.lapse_rate import LapseRate

    order, u, l1 = case
    h = [[100.0, 110, 125, 90], [60, 105, 141, 100], [80, 95, 119, 104]]
    land = [[1, 1, 1, 0], [1, 1, 1, 1], [0, 1, 1, 1]]
    tc = lay_cube(V4, order, "air_temperature", "K", length1=l1, attributes=ATT)
    tu, ou, kw, mid, trans = [("K", "m", {}, None, 0), ("celsius", "m", {}, None, 1), ("K", "km", {}, None, 0), ("fahrenheit", "ft", {}, "mosg__model_configuration", 2),
                              ("K", "m", {"max_height_diff": 12}, None, 3), ("K", "m", {"max_lapse_rate": 0.0}, None, 1)][u]
    tc.convert_units(tu)
    tc.data = tc.data.astype(np.float32)
    oc = cubes.grid(np.array(h, np.float32), name="surface_altitude", units="m", time=None, frt=None)
    oc.convert_units(ou)
    oc.data = oc.data.astype(np.float32)
    mc = cubes.grid(np.array(land, np.int8), name="land_binary_mask", units="1", time=None, frt=None)
    if trans & 1:
        oc.transpose()
    if trans & 2:
        mc.transpose()
    with cubes.Unchanged(tc, oc, mc):
        P = LapseRate(nbhood_radius=1, **kw)
        a = [mid] if mid else []
        r = P.process(tc, oc, mc, *a)
        r2 = P.process(tc, oc, mc, *a)
    cov.step()
    cubes.expect_cube(r2, cubes.describe(r), "a plugin used again")
    nr = 1 if "r" in l1 or "r" not in order else 2
    nt = 1 if "t" in l1 or "t" not in order else 2
    w = [[model(V4[i][j], h, land, 1, kw.get("max_height_diff", 35), D, kw.get("max_lapse_rate", -3 * D)) for j in range(2)] for i in range(2)]
    want = lay_cube(w, order, "air_temperature_lapse_rate", "K m-1", length1=l1, attributes={k: v for k, v in ATT.items() if k in ("title", "source", "institution") or k == mid})
    cubes.expect_cube(r, cubes.describe(want), "description", ignore=("data",))
    tol = dict(rtol=2e-3, atol=2e-5) if u else dict(rtol=2e-4, atol=2e-6)
    expect_close(r.data, want.data, "lapse rate", **tol)
    return "layout"


def c_refuse(tier):
    for k in range(12):
        yield ("lapse", k)
    for k in range(10):
        yield ("apply", k)
    for k in range(6):
        yield ("command", k)


def refuse(case, cov):
    import cubes
    import numpy as np
    from improver.lapse_rate import ApplyGriddedLapseRate, LapseRate

    kind, k = case
    tc = lay_cube(V4, "ryx", "air_temperature", "K", attributes=ATT)
    oc = cubes.grid(np.arange(12, dtype=np.float32).reshape(3, 4) * 10, name="surface_altitude", units="m", time=None, frt=None)
    mc = cubes.grid(np.ones((3, 4), np.int8), name="land_binary_mask", units="1", time=None, frt=None)
    if kind == "lapse":
        kw, args = {}, [tc, oc, mc]
        if k < 3:
            args[k] = args[k].data
        elif k == 3:
            args[0] = cubes.grid(tc.data, name="air_temperature", units="m s-1", leading=[("realization", [0, 1], "1")])
        elif k == 4:
            oc.units = "K"
        elif k == 5:
            kw = {"max_lapse_rate": -0.01}
        elif k == 6:
            kw = {"min_lapse_rate": 0.5}
        elif k == 7:
            kw = {"nbhood_radius": -1}
        elif k == 8:
            kw = {"max_height_diff": -1}
        elif k == 9:
            kw = {"max_height_diff": 0}
        elif k == 10:
            kw = {"max_lapse_rate": 0.01, "min_lapse_rate": 0.01}
        else:
            kw = {"nbhood_radius": 0}
        e = raises(lambda: LapseRate(**kw).process(*args))
        cov.step()
        expect((e is None) == (k >= 9), "unsuitable arguments are refused, limits included are not", expected=k < 9, got=e)
        return "refused" if e else "allowed"
    lr = lay_cube(np.array(V4) / 1e4 - 0.035, "ryx", "air_temperature_lapse_rate", "K m-1")
    d = oc.copy(data=oc.data + 5)
    if kind == "apply":
        if k == 0:
            lr = lr[0]
        elif k == 1:
            lr.coord("realization").points = np.array([0, 2], np.int32)
        elif k == 2:
            tc = tc[0]
        elif k == 3:
            oc.coord("projection_x_coordinate").points = oc.coord("projection_x_coordinate").points + np.float32(2000)
        elif k == 4:
            d.coord("projection_y_coordinate").points = d.coord("projection_y_coordinate").points + np.float32(2000)
        elif k == 5:
            lr.coord("projection_y_coordinate").points = lr.coord("projection_y_coordinate").points + np.float32(2000)
        elif k == 6:
            lr.units = "K s-1"
        elif k == 7:
            oc.units = "s"
        elif k == 8:
            d.units = "s"
        else:
            tc.units = "m"
        e = raises(ApplyGriddedLapseRate().process, tc, lr, oc, d)
        cov.step()
        expect(e is not None, "must be refused", got=e)
        return "refused"
    from improver.cli import command_executor

    a, o = [tc, oc, mc], []
    if k == 0:
        o = ["--max-lapse-rate", "0.01", "--min-lapse-rate", "0.02"]
    elif k == 1:
        o = ["--max-height-diff", "-1"]
    elif k == 2:
        o = ["--nbhood-radius", "-1"]
    elif k == 3:
        a = [tc]
    elif k == 4:
        a = [tc, oc]
    else:
        a = [tc]
        o = ["--dry-adiabatic"]
    e = raises(lambda: command_executor("improver", "temp-lapse-rate", *a, *o))
    cov.step()
    expect((e is None) == (k == 5), "unsuitable commands are refused", got=e)
    return "refused" if e else "allowed"


# ------------------------------------------------------------ application
PAIRS = [("yx", "yx"), ("yx", "xy"), ("xy", "yx"), ("ryx", "ryx"), ("ryx", "yxr"), ("yxr", "ryx"), ("xyr", "yrx"), ("rtyx", "rtyx"), ("rtyx", "tryx"), ("tryx", "yxrt"), ("ytrx", "rtxy"), ("tyx", "tyx")]


def c_apply(tier):
    for p in PAIRS:
        for u in range(5):
            for l1 in ("", "r", "t", "rt"):
                if any(k not in p[0] for k in l1):
                    continue
                yield (list(p), u, l1)


DZ = [[0.0, 10, -20, 50], [50.5, -50, -51, 300], [-2400, 49, -400, 1750]]


def apply(case, cov):
    import cubes
    import numpy as np
    from improver.lapse_rate import ApplyGriddedLapseRate

    (to, lo), u, l1 = case
    L4 = (np.array(V4) - 280.5) / 50
    tc = lay_cube(V4, to, "screen_temperature", "K", length1=l1, attributes=ATT)
    lr = lay_cube(L4, lo, "air_temperature_lapse_rate", "K m-1", length1=l1)
    so = cubes.grid(np.full((3, 4), 500, np.float32), name="surface_altitude", units="m", time=None, frt=None)
    do = cubes.grid(np.array(DZ, np.float32) + 500, name="surface_altitude", units="m", time=None, frt=None)
    tu, lu, su, du = [("K", "K m-1", "m", "m"), ("celsius", "K m-1", "m", "m"), ("K", "K km-1", "m", "m"), ("K", "K m-1", "km", "m"), ("celsius", "K km-1", "m", "ft")][u]
    for c, q in ((tc, tu), (lr, lu), (so, su), (do, du)):
        c.convert_units(q)
        c.data = c.data.astype(np.float32)
    if u == 2:
        so.transpose()
    if u == 3:
        do.transpose()
    want = lay_cube([[[[V4[r][t][y][x] + L4[r][t][y][x] * max(-50, min(50, DZ[y][x])) + E * (DZ[y][x] - max(-50, min(50, DZ[y][x]))) for x in range(4)] for y in range(3)] for t in range(2)] for r in range(2)],
                    to, "screen_temperature", "K", length1=l1, attributes=ATT)
    k = tc.copy()
    for _ in range(2):
        r = ApplyGriddedLapseRate().process(tc, lr, so, do)
        cov.step()
        cubes.expect_cube(r, cubes.describe(want), "description", ignore=("data",))
        expect_close(r.data, want.data, "adjusted temperature", rtol=0, atol=3e-3 if u in (3, 4) else 3e-4)
    tc.convert_units("K")
    k.convert_units("K")
    expect_close(tc.data, k.data, "the temperature itself is not adjusted", rtol=0, atol=1e-4)
    return "applied"


# ------------------------------------------------------------ commands
def c_command(tier):
    for k in range(8):
        yield (k,)


def command(case, cov):
    import cubes
    import numpy as np
    from improver.cli import command_executor

    (k,) = case
    h = [[100.0, 110, 125, 90], [60, 105, 141, 100], [80, 95, 119, 104]]
    land = [[1, 1, 1, 0], [1, 1, 1, 1], [0, 1, 1, 1]]
    tc = lay_cube(V4, "ryx", "air_temperature", "K", attributes=ATT)
    oc = cubes.grid(np.array(h, np.float32), name="surface_altitude", units="m", time=None, frt=None)
    mc = cubes.grid(np.array(land, np.int8), name="land_binary_mask", units="1", time=None, frt=None)
    kw = [{}, {"nbhood_radius": 1}, {"nbhood_radius": 1, "max_height_diff": 12.0}, {"nbhood_radius": 1, "max_lapse_rate": 0.005}, {"nbhood_radius": 1, "min_lapse_rate": -0.005},
          {"model_id_attr": "mosg__model_configuration"}, {"dry_adiabatic": True}, {"dry_adiabatic": True, "model_id_attr": "mosg__model_configuration"}][k]
    opts = []
    for a, v in kw.items():
        opts += ["--" + a.replace("_", "-")] + ([] if v is True else [str(v)])
    args = [tc, oc, mc] if not kw.get("dry_adiabatic") or k == 7 else [tc]
    r = command_executor("improver", "temp-lapse-rate", *args, *opts)
    cov.step()
    att = {q: v for q, v in ATT.items() if q in ("title", "source", "institution") or q == kw.get("model_id_attr")}
    if kw.get("dry_adiabatic"):
        w = np.full((2, 3, 4), D)
    else:
        w = [model(V4[i][0], h, land, kw.get("nbhood_radius", 7), kw.get("max_height_diff", 35), kw.get("min_lapse_rate", D), kw.get("max_lapse_rate", -3 * D)) for i in range(2)]
    want = cubes.grid(np.array(w, np.float32), name="air_temperature_lapse_rate", units="K m-1", leading=[("realization", [0, 1], "1")], attributes=att)
    cubes.expect_cube(r, cubes.describe(want), "description", ignore=("data",))
    expect_close(r.data, np.array(w), "lapse rate", rtol=2e-4, atol=2e-6)
    if k == 0:
        lr = r.copy()
        do = oc.copy(data=oc.data + np.array(DZ, np.float32))
        q = command_executor("improver", "apply-lapse-rate", tc, lr, oc, do)
        cov.step()
        v = [[[V4[i][0][y][x] + w[i][y][x] * max(-50, min(50, DZ[y][x])) + E * (DZ[y][x] - max(-50, min(50, DZ[y][x]))) for x in range(4)] for y in range(3)] for i in range(2)]
        expect_close(q.data, np.array(v), "adjusted temperature", rtol=0, atol=3e-3)
    return "command"


SECTIONS = [Section("field", c_field, field), Section("flat", c_flat, flat), Section("layouts", c_lay, layouts), Section("refusals", c_refuse, refuse), Section("apply", c_apply, apply),
            Section("command", c_command, command)]
if __name__ == "__main__":
    main(globals())
