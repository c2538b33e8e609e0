"""C49: RainForests calibration: probabilities from tree models by lead time and threshold."""
import itertools
import math
import os
import sys
import types

from mc import Section, Violation, expect, expect_close, expect_same, main, raises

PROPERTY = "C49"
H = 3600
ATT = {"title": "T", "source": "S", "institution": "I", "mid": "uk_ens"}
MT = [0.0, 0.0001, 0.001, 0.01]
LT = [24, 48]
# the splits of the three features (temperature, rain, altitude: the order of their names)
SPLITS = [[275.0, 280.5], [0.0001, 0.002, 0.005], [50.0, 200.0]]
NAMES = ["air_temperature", "lwe_thickness_of_precipitation_amount", "surface_altitude"]
LOG = []


def trees(l, t):
    """Trees of the model for lead time number l and threshold number t: nested (feature, split, left, right) or a value."""
    b = [0.9, 0.6, 0.45, 0.2][t % 4] - 0.1 * l
    k = (t + l) % 3
    a = ("t", 0, 275.0 if k else 280.5, 0.02, ("t", 1, SPLITS[1][t % 3], -0.15, 0.25))
    c = ("t", 1, SPLITS[1][(t + l) % 3], ("t", 2, SPLITS[2][t % 2], 0.0, 0.17 - 0.1 * k), ("t", 0, 275.0, -0.3, 0.31))
    return [b, a, c, 0.013 * t]


def score(tree, x):
    while isinstance(tree, tuple):
        _, f, s, lo, hi = tree
        tree = lo if x[f] <= s else hi
    return tree


def text(ts, nf=3):
    """The model in the manner of the text files of lightgbm."""
    out = ["tree", "version=v3", "max_feature_idx=%d" % (nf - 1)]
    for i, t in enumerate(ts):
        nodes, leaves = [], []

        def add(t):
            if not isinstance(t, tuple):
                leaves.append(t)
                return -len(leaves)
            n = len(nodes)
            nodes.append(None)
            lo, hi = add(t[3]), add(t[4])
            nodes[n] = (t[1], t[2], lo, hi)
            return n

        add(t)
        out += ["", "Tree=%d" % i, "num_leaves=%d" % len(leaves)]
        for k, n in enumerate(("split_feature", "threshold", "left_child", "right_child")):
            out.append(n + "=" + " ".join(repr(q[k]) for q in nodes))
        out.append("leaf_value=" + " ".join(repr(q) for q in leaves))
    return "\n".join(out) + "\n\nend of trees\n"


class Model:
    def __init__(self, path):
        self.trees = []
        for block in open(path).read().split("Tree=")[1:]:
            d = dict(q.split("=", 1) for q in block.splitlines()[1:] if "=" in q)
            n = {k: [float(x) for x in d[k].split()] for k in ("split_feature", "threshold", "left_child", "right_child", "leaf_value")}
            self.trees.append(n)
        self.nf = [int(q.split("=")[1]) + 1 for q in open(path) if q.startswith("max_feature_idx")][0]

    def predict(self, arr):
        import numpy as np

        out = []
        for x in np.asarray(arr):
            s = 0.0
            for n in self.trees:
                at = 0
                if n["split_feature"]:
                    while at >= 0:
                        at = int(n["left_child" if x[int(n["split_feature"][at])] <= n["threshold"][at] else "right_child"][at])
                else:
                    at = -1
                s += n["leaf_value"][-at - 1]
            out.append(s)
        return np.array(out)


class Booster(Model):
    def __init__(self, model_file):
        super().__init__(model_file)
        LOG.append(["lightgbm", os.path.basename(model_file), None])

    def reset_parameter(self, p):
        LOG[-1][2] = p["num_threads"]
        return self

    def num_feature(self):
        return self.nf


class DMatrix:
    def __init__(self, arr):
        self.arr = arr


class Predictor(Model):
    def __init__(self, libpath, verbose, nthread):
        super().__init__(libpath)
        LOG.append(["treelite", os.path.basename(libpath), nthread])

    @property
    def num_feature(self):
        return self.nf

    def predict(self, d):
        expect(isinstance(d, DMatrix), "treelite is given its own kind of array", got=type(d))
        return super().predict(d.arr)


def library(which):
    """Makes lightgbm, and treelite if asked, available."""
    sys.modules["lightgbm"] = types.ModuleType("lightgbm")
    sys.modules["lightgbm"].Booster = Booster
    sys.modules.pop("treelite_runtime", None)
    sys.modules["treelite_runtime"] = None
    if which == "treelite":
        m = sys.modules["treelite_runtime"] = types.ModuleType("treelite_runtime")
        m.DMatrix, m.Predictor = DMatrix, Predictor


DIR = []


def config(order=0, leads=LT, th=MT, lib=("lightgbm_model", "treelite_model"), nf=3, scale=1.0):
    import atexit
    import shutil
    import tempfile

    if not DIR:
        DIR.append(tempfile.mkdtemp(prefix="c49"))
        atexit.register(shutil.rmtree, DIR[0], True)
    out = {}
    for l, lt in enumerate(leads):
        d = {}
        for t, v in enumerate(th):
            e = {}
            for n in lib:
                p = os.path.join(DIR[0], "%s_%d_%d_%d" % (n, l, t, nf))
                if not os.path.exists(p):
                    with open(p + ".%d" % os.getpid(), "w") as fh:
                        fh.write(text(trees(l, t), nf))
                    os.replace(p + ".%d" % os.getpid(), p)
                e[n] = p
            d["%.7g" % (v * scale) if v else "0.0000"] = e
        out[str(lt)] = dict(sorted(d.items(), reverse=bool(order & 1)))
    return dict(sorted(out.items(), reverse=bool(order & 2)))


def lay(c, perm):
    """The dimensions of a cube in another order."""
    import cubes

    names = [q.name() for q in c.coords(dim_coords=True)]
    p = [n for n in perm if n in names]
    return cubes.transposed(c, p)


def ins(nr=2, have=(1, 1, 0), fc=True, lead=24, shape=(4, 5), name=NAMES[1], units="m", bounds=True, scale=1.0, other=0):
    """Feature cubes in the order of their names, and the forecast; values at, either side of and away from the splits."""
    import cubes
    import numpy as np

    out = []
    k = np.arange(nr * shape[0] * shape[1]).reshape((nr,) + shape)
    t = cubes.T0 + int(lead * H)
    for i, (n, u) in enumerate(((NAMES[0], "K"), (name, units), (NAMES[2], "m"))):
        s = SPLITS[i]
        f = np.float32
        v = sorted([x for q in s for x in (f(q), np.nextafter(f(q), f(1e9)), np.nextafter(f(q), f(0)))] + [f(s[0] / 2), f(s[-1] * 1.3)])
        d = np.array(v, f)[(k * [3, 5, 7][i] + (k // 5) * 2 + other) % len(v)]
        kw = dict(attributes=dict(ATT), time=t, frt=cubes.T0)
        if i == 1:
            d = (d * scale).astype(f)
            if bounds:
                kw["time_bounds"] = (t - 24 * H, t)
        if i == 2:
            kw.update(time=None, frt=None)
        h = have[i]
        c = cubes.grid(d if h else d[0], name=n, units=u, leading=[("realization", list(range(nr)), "1")] if h else [], **kw)
        out.append(c)
    r = out[1].copy()
    if fc != bool(have[1]):
        r = r[0] if not fc else cubes.grid(np.stack([r.data + f(0) for _ in range(nr)]), name=name, units=units, leading=[("realization", list(range(nr)), "1")], attributes=dict(ATT), time=t, frt=cubes.T0, time_bounds=(t - 24 * H, t) if bounds else None)
        if not fc:
            r.remove_coord("realization")
    return out, r


def nearest(lead, leads=LT):
    best = [i for i in range(len(leads)) if abs(leads[i] - lead) == min(abs(q - lead) for q in leads)]
    return best


def decreasing(p):
    lo, hi = list(p), list(p)
    for i in range(1, len(p)):
        lo[i] = min(lo[i], lo[i - 1])
    for i in range(len(p) - 2, -1, -1):
        hi[i] = max(hi[i], hi[i + 1])
    return [(a + b) / 2 for a, b in zip(lo, hi)]


def interp(x, xp, fp):
    if x >= xp[-1]:
        return fp[-1]
    for a in range(len(xp) - 1, -1, -1):
        if xp[a] <= x:
            return fp[a] + (fp[a + 1] - fp[a]) * (x - xp[a]) / (xp[a + 1] - xp[a])
    return fp[0]


def want(features, forecast, l, out, th=MT, scale=1.0):
    """Probabilities [threshold, y, x] from a straightforward evaluation."""
    import cubes
    import numpy as np

    n = [c.coord("realization").points.size for c in features + [forecast] if c.coords("realization")]
    n = n[0] if n else 1
    yx = [forecast.coord(axis="y").name(), forecast.coord(axis="x").name()]
    fs = [cubes.arr(c, "realization", *yx) if c.coords("realization", dim_coords=True) else np.broadcast_to(cubes.arr(c, *yx), (n,) + tuple(forecast.coord(q).points.size for q in yx)) for c in features]
    res = np.zeros((len(out),) + fs[0].shape[1:])
    memo = {}
    for r, j, i in np.ndindex(fs[0].shape):
        x = tuple(float(f[r, j, i]) for f in fs)
        if x not in memo:
            p = decreasing([min(max(sum(score(q, x) for q in trees(l, t)), 0.0), 1.0) for t in range(len(th))])
            v = []
            for o in out:
                if o == 0:
                    v.append(1.0)
                elif len(out) == len(th) and all(abs(a - b * scale) <= 1e-5 * b * scale for a, b in zip(out, th)):
                    v.append(p[list(out).index(o)])
                else:
                    v.append(interp(o, [0.0] + [q * scale for q in th], [1.0] + p))
            memo[x] = v
        res[:, j, i] += np.array(memo[x]) / n
    return res


def judge(r, w, out, forecast, msg):
    import cubes
    import numpy as np

    yx = [forecast.coord(axis="y").name(), forecast.coord(axis="x").name()]
    n = forecast.name()
    t = r.coord(n)
    expect_close(t.points, np.array(sorted(out), np.float32), msg + ": thresholds in order", rtol=1e-6)
    expect(t.var_name == "threshold" and t.units == forecast.units and dict(t.attributes) == {"spp__relative_to_threshold": "greater_than_or_equal_to"} and t.points.dtype == np.float32, msg + ": threshold coordinate", got=t)
    expect_close(cubes.arr(r, n, *yx) if len(out) > 1 else cubes.arr(r, *yx)[None] if r.ndim == 2 else cubes.arr(r, n, *yx), w, msg + ": probabilities", rtol=2e-5, atol=3e-6)
    expect(r.name() == "probability_of_%s_above_threshold" % n and str(r.units) == "1" and r.dtype == np.float32 and r.attributes == forecast.attributes, msg + ": description", got=(r.name(), r.units, r.dtype, r.attributes))
    have = {c.name() for c in r.coords()}
    expect(have == ({c.name() for c in forecast.coords()} - {"realization"}) | {n}, msg + ": coordinates", got=have)
    for c in ("time", "forecast_period", "forecast_reference_time", *yx):
        expect(r.coord(c) == forecast.coord(c), msg + ": " + c, expected=forecast.coord(c), got=r.coord(c))


OUT = [MT, [0.0, 0.0001], [0.00005, 0.0005, 0.002, 0.01], [0.02, 0.5], [0.0], [0.0003], [1e-7, 0.0001, 0.001, 0.01, 0.05]]


def c_values(tier):
    for lib in ("lightgbm", "treelite", "fallback"):
        for lead in (24, 48, 30, 42, 6, 72, 23.5):
            for o in range(len(OUT)):
                for b in (False, True):
                    yield ("values", lib, lead, o, b, [1, 1, 0], True)
    for have in itertools.product((0, 1), repeat=3):
        for fc in (False, True):
            for lib in ("lightgbm", "treelite"):
                for o in (0, 2):
                    for b in (False, True):
                        yield ("members", lib, 24, o, b, list(have), fc)


def values(case, cov):
    import cubes
    import numpy as np
    from improver.calibration.rainforest_calibration import ApplyRainForestsCalibration as P
    from iris.cube import CubeList

    kind, lib, lead, o, b, have, fc = case
    library("lightgbm" if lib == "lightgbm" else "treelite")
    order = o % 4
    cfg = config(order, lib=("lightgbm_model",) if lib == "fallback" else ("lightgbm_model", "treelite_model"))
    fs, f = ins(3 if o == 2 else 2, have, fc, lead)
    LOG.clear()
    p = P(cfg, threads=1 + o, bin_data=b)
    expect(sorted(LOG) == sorted([["treelite" if lib == "treelite" else "lightgbm", "%s_model_%d_%d_3" % ("treelite" if lib == "treelite" else "lightgbm", l, t), 1 + o] for l in range(2) for t in range(4)]), "the models of the right library with the threads asked", got=LOG)
    out = OUT[o]
    with cubes.Unchanged(*fs, f):
        r = p.process(f, CubeList(fs), list(out))
    cov.step()
    judge(r, want(fs, f, nearest(lead)[0], out), out, f, "%s lead %s" % (lib, lead))
    # thresholds in other units; in another order; features in another order; the same plugin again
    fs2, f2 = ins(3 if o == 2 else 2, have, fc, lead, other=3)
    r2 = p.process(f2, CubeList(fs2[::-1]), [q * 1000 for q in out], threshold_units="mm")
    cov.step()
    judge(r2, want(fs2, f2, nearest(lead)[0], out), out, f2, "again, in mm")
    r3 = p.process(f, CubeList(fs[1:] + fs[:1]), list(out)[::-1])
    cov.step()
    judge(r3, want(fs, f, nearest(lead)[0], out), out, f, "thresholds given in descending order")
    return lib + str(b)


PERMS = [list(q) for q in itertools.permutations(["realization", "projection_y_coordinate", "projection_x_coordinate"])]


def c_layout(tier):
    for who in range(4):
        for k in range(len(PERMS)):
            for b in (False, True):
                yield (who, k, b)
    for k in range(len(PERMS)):
        yield (4, k, False)


def layout(case, cov):
    import cubes
    from improver.calibration.rainforest_calibration import ApplyRainForestsCalibration as P
    from iris.cube import CubeList

    who, k, b = case
    library("lightgbm")
    p = P(config(), bin_data=b)
    for have in ([1, 1, 0], [1, 1, 1], [0, 0, 0]):
        fs, f = ins(3, have, bool(have[1]), 24, shape=(4, 5))
        w = want(fs, f, 0, OUT[2])
        if who in (3, 4):
            f = lay(f, PERMS[k])
        for i in range(3):
            if who in (i, 4):
                fs[i] = lay(fs[i], PERMS[k])
        with cubes.Unchanged(*fs, f):
            r = p.process(f, CubeList(fs), OUT[2])
        cov.step()
        judge(r, w, OUT[2], f, "order of dimensions")
        expect(r.coord_dims(f.name()) == (0,), "thresholds lead", got=r.summary(shorten=True))
        ndim = [q.name() for q in f.coords(dim_coords=True) if q.name() != "realization"]
        expect([q.name() for q in r.coords(dim_coords=True)][1:] == ndim, "the rest in the order of the forecast", expected=ndim, got=r.summary(shorten=True))
    return "layout"


RATES = [[2.2e-8, 3e-8], [2.8e-9, 2.8e-8], [0.0, 2.8e-8], [2.78e-8, 2.78e-7], [2.9e-8, 2.7e-7], [5.6e-9, 1e-8, 2e-7]]


def c_rates(tier):
    for o in range(len(RATES)):
        for b in (False, True):
            yield (o, b)


def rates(case, cov):
    """Rates in m s-1, whose thresholds are tiny numbers."""
    import cubes
    from improver.calibration.rainforest_calibration import ApplyRainForestsCalibration as P
    from iris.cube import CubeList

    o, b = case
    library("lightgbm")
    th = [2.78e-8, 2.78e-7]
    cfg = config(th=th)
    p = P(cfg, bin_data=b)
    fs, f = ins(2, name="lwe_precipitation_rate", units="m s-1", bounds=False)
    r = p.process(f, CubeList(fs), RATES[o])
    cov.step()
    judge(r, want(fs, f, 0, RATES[o], th=th), RATES[o], f, "rates")
    return "rates"


def c_refuse(tier):
    for k in range(14):
        yield (k,)


def refuse(case, cov):
    import cubes
    import numpy as np
    from improver.calibration import rainforest_calibration as M
    from improver.cli import command_executor
    from iris.cube import CubeList

    (k,) = case
    P = M.ApplyRainForestsCalibration
    library("treelite" if k in (7,) else "lightgbm")
    cfg = config()
    fs, f = ins()
    run = lambda: P(cfg).process(f, CubeList(fs), [0.001])  # noqa
    why = ""
    if k == 0:
        why, fs = "one feature too few", fs[:2]
    elif k == 1:
        why, fs = "one feature too many", fs + [cubes.grid(np.zeros((4, 5), np.float32), name="x")]
    elif k == 2:
        why, f = "another grid", ins(shape=(4, 6))[1]
    elif k == 3:
        why = "other members"
        fs[0].coord("realization").points = fs[0].coord("realization").points + 1
    elif k == 4:
        why, fs[0] = "another number of members", ins(3)[0][0]
    elif k == 5:
        why = "no model for a threshold"
        del cfg["48"]["0.001"]["lightgbm_model"]
    elif k == 6:
        why = "other thresholds for another lead time"
        cfg["48"]["0.002"] = cfg["48"].pop("0.001")
    elif k == 7:
        why = "no model at all"
        for d in cfg.values():
            for e in d.values():
                e.clear()
    elif k == 8:
        why = "fewer thresholds for another lead time"
        del cfg["48"]["0.001"]
    elif k == 9:
        why, fs[2] = "another grid of a feature", fs[2][:, :4]
    elif k == 10:
        why, f = "members of the forecast differ from those of a feature of the same name", f.copy()
        f.coord("realization").points = f.coord("realization").points + 4
        fs[0] = fs[0][0]
        fs[0].remove_coord("realization")
    elif k in (11, 12, 13):
        a = [["--output-thresholds", "0.001", "--output-threshold-config", {"0.001": None}], [], ["--output-thresholds", ""]][k - 11]
        run = lambda: command_executor("improver", "apply-rainforests-calibration", f, *fs, "--model-config", cfg, *a)  # noqa
        why = "options %s" % (a,)
    e = raises(run)
    cov.step()
    expect(isinstance(e, ValueError), "%s: must be refused" % why, got=repr(e))
    return "refused"


def c_cli(tier):
    for b in (False, True):
        for k in range(4):
            for lib in ("lightgbm", "treelite"):
                yield (k, b, lib)


def cli(case, cov):
    import cubes
    from improver.cli import command_executor

    k, b, lib = case
    library(lib)
    fs, f = ins()
    o = [["--output-thresholds", "0.0,0.0005,0.003"], ["--output-thresholds", "0,0.5,3", "--threshold-units", "mm"], ["--output-threshold-config", {"0.0": None, "0.0005": [0.0004, 0.0006], "0.003": None}],
         ["--output-threshold-config", {"0.5": None, "3": None, "0": None}, "--threshold-units", "mm", "--threads", "3"]][k]
    LOG.clear()
    r = command_executor("improver", "apply-rainforests-calibration", f, *[fs[i] for i in ((0, 1, 2), (2, 0, 1), (1, 0, 2), (0, 2, 1))[k]], "--model-config", config(), *o, *(["--bin-data"] if b else []))
    cov.step()
    expect({q[2] for q in LOG} == {3 if k == 3 else 1} and {q[0] for q in LOG} == {lib}, "threads", got=LOG)
    out = [0.0, 0.0005, 0.003]
    judge(r, want(fs, f, 0, out), out, f, "command")
    return "cli"


SECTIONS = [Section("values", c_values, values), Section("layout", c_layout, layout), Section("rates", c_rates, rates), Section("refuse", c_refuse, refuse), Section("cli", c_cli, cli)]
if __name__ == "__main__":
    main(globals())
