"""C18: ensemble reordering (Schaake-style reordering of percentiles by the raw ensemble)."""
import itertools

from mc import Section, Violation, expect, expect_close, expect_same, main, raises

PROPERTY = "C18"
EPOCH = "seconds since 1970-01-01 00:00:00"
T0 = 1510272000
PY, PX = "projection_y_coordinate", "projection_x_coordinate"


def build(case):
    """(post-processed cube, raw cube, arrays)."""
    import numpy as np
    import cubes

    n, m, times, order, mask, spread, first = case
    raws = np.array(list(itertools.product(range(3), repeat=m)) if m < 5 else list(itertools.permutations(range(m)))[::5], np.float32).T
    k = raws.shape[1]
    w = 3 if k % 3 == 0 else 2
    raw = raws.reshape(m, -1, w)
    if times > 1:
        raw = np.stack([np.roll(raw, 1 + 2 * t, axis=1) for t in range(times)], axis=1)
    shape = raw.shape[1:]
    pts = np.arange(int(np.prod(shape))).reshape(shape)
    steps = {"distinct": np.arange(n), "ties": np.arange(n) // 2, "equal": np.zeros(n)}[spread]
    post = (100 + pts[None] * 10.0 + steps.reshape((n,) + (1,) * len(shape))).astype(np.float32)
    msk = np.zeros(shape, bool)
    if mask:
        msk[..., 0, 0] = True
        msk[..., -1, -1] = True
    lead = [("time", [T0 + 3600 * (t + 1) for t in range(times)], EPOCH)] if times > 1 else []
    pdat = np.ma.masked_array(post, np.broadcast_to(msk, post.shape).copy()) if mask else post
    rdat = np.ma.masked_array(raw, np.broadcast_to(msk, raw.shape).copy()) if mask == 2 else raw
    pct = [100.0 * (i + 1) / (n + 1) for i in range(n)]
    pc = cubes.grid(pdat, name="air_temperature", units="K", leading=[("percentile", pct, "%")] + lead, attributes={"title": "post"})
    rc = cubes.grid(rdat, name="air_temperature", units="K", leading=[("realization", list(range(first, first + m)), "1")] + lead, attributes={"title": "raw"})
    if order:
        names = [x.name() for x in pc.coords(dim_coords=True)]
        pc = cubes.transposed(pc, names[1:] + names[:1])
        names = [x.name() for x in rc.coords(dim_coords=True)]
        rc = cubes.transposed(rc, names[1:-1] + names[:1] + names[-1:])
    return pc, rc, post, raw, msk


def judge(r, case, post, raw, msk, random=False, exact_ties=None):
    """The result holds, at each point, the post-processed values in the rank order of the raw ones."""
    import numpy as np
    import cubes

    n, m, times, order, mask, spread, first = case
    names = ["time"] * (times > 1) + [PY, PX]
    got = cubes.arr(r, "realization", *names) if n > 1 or r.coords("realization", dim_coords=True) else cubes.arr(r, *names)[None]
    expect_same(np.ma.getmaskarray(got), np.broadcast_to(msk, got.shape), "mask")
    g = np.ma.getdata(got)
    expect(g.dtype == np.float32, "type", got=g.dtype)
    keep = ~msk
    expect_same(np.sort(g, axis=0)[:, keep], post[:, keep], "each point keeps exactly its post-processed values")
    used = raw[[i % m for i in range(n)]]
    if not random:
        for i in range(n):
            for j in range(n):
                less = (used[i] < used[j]) & keep
                expect(np.all(g[i][less] <= g[j][less]), "realization order follows the raw ensemble", got=(i, j))
    nums = r.coord("realization").points
    expect_same(nums, (np.arange(m) if n == m else np.arange(n)).astype(np.int32) + np.int32(first), "realization numbers")
    expect(str(r.coord("realization").units) == "1" and not r.coords("percentile"), "realization coordinate")
    expect(r.name() == "air_temperature" and r.attributes == {"title": "post"}, "name and attributes of the post-processed forecast")
    expect(r.coord_dims("realization") in ((0,), ()), "realization leads")
    if times > 1:
        expect_same(r.coord("time").points, np.array([T0 + 3600 * (t + 1) for t in range(times)]), "times")


def c_reorder(tier):
    for m in (1, 2, 3, 4, 5) if tier == "quick" else (1, 2, 3, 4, 5, 6):
        for n in range(1, 6 if tier == "quick" else 8):
            for times in (1, 2):
                for order in (0, 1):
                    for mask in (0, 1, 2):
                        for spread in ("distinct", "ties", "equal"):
                            for first in (0, 4):
                                yield (n, m, times, order, mask, spread, first)


def reorder(case, cov):
    import cubes
    from improver.ensemble_copula_coupling.ensemble_copula_coupling import EnsembleReordering as P

    pc, rc, post, raw, msk = build(case)
    raw0 = rc.copy()
    r = P()(pc, rc)
    cov.step()
    judge(r, case, post, raw, msk)
    expect_same(sorted(c.name() for c in rc.coords()), sorted(c.name() for c in raw0.coords()), "raw coordinates")
    return "%d/%d" % (case[0], case[1])


def c_seed(tier):
    for m in (2, 3, 4):
        for n in (2, 3, 4, 5):
            for times in (1, 2, 3):
                for seed in (0, 1, 7, "2"):
                    for rnd in (0, 1):
                        yield (n, m, times, seed, rnd)


def seed(case, cov):
    """A seed makes the result reproducible; the random ordering still keeps each point's values."""
    import cubes
    from improver.ensemble_copula_coupling.ensemble_copula_coupling import EnsembleReordering as P

    n, m, times, sd, rnd = case
    full = (n, m, times, 0, 0, "distinct", 0)
    out = []
    for _ in range(2):
        pc, rc, post, raw, msk = build(full)
        r = P()(pc, rc, random_ordering=bool(rnd), random_seed=sd)
        cov.step()
        judge(r, full, post, raw, msk, random=bool(rnd))
        out.append(r)
    cubes.expect_cube(out[0], out[1], "the same seed gives the same result")
    return "seeded"


def c_masks(tier):
    for post in range(16):
        for raw in list(range(16)) + ["per-slice"]:
            for pp in (0, 1):
                yield (post, raw, pp)


def masks(case, cov):
    """Masks must agree: a masked raw forecast needs the same mask on the post-processed one."""
    import numpy as np
    import cubes
    from improver.ensemble_copula_coupling.ensemble_copula_coupling import EnsembleReordering as P

    pm, rm, pp = case
    bits = lambda v: np.array([(v >> k) & 1 for k in range(4)], bool).reshape(2, 2)  # noqa
    post = np.arange(12, dtype=np.float32).reshape(3, 2, 2)
    raw = np.array([[3, 1], [2, 2], [1, 3], [2, 1], [2, 1], [3, 3]], np.float32).reshape(3, 2, 2)
    pmask = np.broadcast_to(bits(pm), post.shape).copy()
    if pp:
        pmask[1] = ~pmask[1]
    if rm == "per-slice":
        rmask = np.stack([bits(pm), bits(pm), bits((pm + 1) % 16)])
    else:
        rmask = np.broadcast_to(bits(rm), raw.shape).copy()
    pc = cubes.grid(np.ma.masked_array(post, pmask), name="air_temperature", units="K", leading=[("percentile", [25, 50, 75], "%")])
    rc = cubes.grid(np.ma.masked_array(raw, rmask), name="air_temperature", units="K", leading=[("realization", [0, 1, 2], "1")])
    same = (pmask == pmask[:1]).all()
    if rmask.any() and not pmask.any():
        ok = False
    elif rmask.any() and pmask.any():
        ok = same and (rmask == pmask[:1]).all()
    elif pmask.any() and not same:
        return "undecided"
    else:
        ok = True
    cov.step()
    if not ok:
        expect(isinstance(raises(P(), pc, rc), ValueError), "inconsistent masks must be refused")
        return "refused"
    r = P()(pc, rc)
    expect_same(np.ma.getmaskarray(r.data), pmask, "mask")
    g, keep = np.ma.getdata(r.data), ~pmask[0]
    expect_same(np.sort(g, axis=0)[:, keep], post[:, keep], "values")
    return "ok"


def c_command(tier):
    for src in ("probabilities", "percentiles"):
        for count in (None, 1, 2, 3, 5):
            for sd in (None, 0, 3):
                for raw in itertools.permutations(range(3)):
                    yield (src, count, sd, raw)


def command(case, cov):
    import numpy as np
    import cubes
    from improver.cli import command_executor

    src, count, sd, raw = case
    rdat = np.stack([np.full((2, 1), v, np.float32) for v in raw])
    rdat[:, 1] = 0
    rdat[raw.index(1), 1] = -1
    rc = cubes.grid(rdat, name="air_temperature", units="K", leading=[("realization", [1, 2, 3], "1")])
    if src == "probabilities":
        p = np.array([[0.9, 1.0], [0.5, 0.2], [0.2, 0.0]], np.float32).reshape(3, 2, 1)
        c = cubes.prob(p, [280.0, 290.0, 300.0], diag="air_temperature", tunits="K")
        curves = [([0, 0.1, 0.5, 0.8, 1], [173.15, 280, 290, 300, 333.15]), ([0, 0, 0.8, 1, 1], [173.15, 280, 290, 300, 333.15])]
    else:
        c = cubes.grid(np.array([[280, 281], [290, 295]], np.float32).reshape(2, 2, 1), name="air_temperature", units="K", leading=[("percentile", [20, 60], "%")])
        curves = [([0, 0.2, 0.6, 1], [173.15, 280, 290, 333.15]), ([0, 0.2, 0.6, 1], [173.15, 281, 295, 333.15])]
    args = [c, rc] + (["--realizations-count", str(count)] if count else []) + (["--random-seed", str(sd)] if sd is not None else [])
    r = command_executor("improver", "generate-realizations", *args)
    cov.step()
    n = count or 3
    fr = [(i + 1) / (n + 1) for i in range(n)]
    want = np.array([[np.interp(f, xs, ys) for xs, ys in curves] for f in fr])
    g = r.data.reshape(n, 2)
    expect_close(np.sort(g, axis=0), want, "values", atol=1e-3)
    used = [raw[i % 3] for i in range(n)]
    for i in range(n):
        for j in range(n):
            if used[i] < used[j]:
                expect(g[i, 0] <= g[j, 0], "order of the raw ensemble")
    for i in range(n):
        for j in range(n):
            if used[i] == 1 and used[j] != 1:
                expect(g[i, 1] <= g[j, 1], "order of the raw ensemble")
    expect_same(r.coord("realization").points, np.arange(1, n + 1, dtype=np.int32), "numbers")
    return "ok"


SECTIONS = [
    Section("reorder", c_reorder, reorder, "every raw ensemble over 3 values for up to 4 members (orders of 5, 6) x 1-5 (7) percentiles x times x layouts x masks x ties"),
    Section("seed", c_seed, seed, "seeds, random ordering, several times"),
    Section("masks", c_masks, masks, "every pair of 2x2 masks"),
    Section("command", c_command, command, "generate-realizations with a raw forecast"),
]

if __name__ == "__main__":
    main(globals())
