"""C07: the truncated normal distribution used to build and sample predictive distributions."""
import itertools
import math

from mc import Section, Violation, expect, expect_close, main, raises

PROPERTY = "C07"
INF = float("inf")
AS = [-INF, -20.0, -9.0, -6.0, -4.0, -2.5, -1.0, -0.3, 0.0, 0.3, 1.0, 2.5, 4.0, 6.0, 8.3, 12.0, 20.0]
BS = [-20.0 + 1.0, -8.5, -6.0, -4.0, -2.5, -1.0, -0.3, 0.0, 0.3, 1.0, 2.5, 4.0, 6.0, 8.5, 9.0, 13.0, 21.0, INF]


def upper(x):
    return 0.5 * math.erfc(x / math.sqrt(2))


def mass(a, b):
    """P(a < Z < b) computed in the tail that loses no accuracy."""
    if a >= b:
        return 0.0
    if a > 0:
        return upper(a) - upper(b)
    return upper(-b) - upper(-a)


def check_dist(case, cov):
    """cdf, sf, pdf, logpdf agree with the definition on a lattice, cdf is monotone from 0 to 1, ppf inverts it."""
    import numpy as np
    from improver.ensemble_copula_coupling._scipy_continuous_distns import truncnorm

    a, b, loc, scale = [float(x) for x in case]
    lo, hi = max(a, min(-8.0, b - 8 / max(1.0, abs(b)))), min(b, max(8.0, a + 8 / max(1.0, abs(a))))
    zs = sorted({lo + (hi - lo) * k / 40 for k in range(41)} | {z for z in (0.0, a, b) if abs(z) != INF} | {lo - 1, hi + 1})
    x = np.array(zs) * scale + loc
    if abs(a) != INF:
        x[zs.index(a)] = a * scale + loc
    d = truncnorm(a, b, loc=loc, scale=scale)
    total = mass(a, b)
    # exact to rounding for the standard form; elsewhere (x - loc) / scale is rounded first
    cdf = d.cdf(x)
    tol = 3e-7 if loc or scale != 1 else 1e-14  # rounding of (x - loc) / scale next to the bounds
    want = np.array([0.0 if z <= a else 1.0 if z >= b else mass(a, z) / total for z in zs])
    expect_close(cdf, want, "cdf for %s" % case, rtol=1e-7, atol=tol)
    expect(np.all(np.diff(cdf) >= -1e-12), "cdf not monotone for %s" % case, None, cdf)
    expect(np.all((cdf >= -1e-12) & (cdf <= 1 + 1e-12)), "cdf outside [0,1]")
    expect_close(d.sf(x), 1 - want, "survival function for %s" % case, rtol=1e-6, atol=max(tol, 1e-12))
    inside = np.array([a + 1e-6 < z < b - 1e-6 for z in zs])
    pdf = d.pdf(x)
    wp = np.array([math.exp(-z * z / 2) / math.sqrt(2 * math.pi) / total / scale if a <= z <= b else 0.0 for z in zs])
    expect_close(pdf[inside], wp[inside], "pdf for %s" % case, rtol=1e-6, atol=1e-12)
    outside = np.array([z < a - 1e-6 or z > b + 1e-6 for z in zs])
    expect(np.all(pdf[outside] == 0), "density outside the bounds", 0, pdf[outside])
    expect_close(d.logpdf(x)[inside], np.log(wp[inside]), "logpdf for %s" % case, rtol=1e-6, atol=1e-6)
    # quantiles
    q = np.array([k / 40 for k in range(41)] + [0.001, 0.999, 1e-6, 1e-9, 1e-12])
    pp = d.ppf(q)
    z = (pp - loc) / scale
    order = np.argsort(q)
    expect(np.all(np.diff(pp[order]) >= -1e-9 * scale), "quantiles not increasing for %s" % case, None, pp[order])
    expect(np.all(z >= a - 1e-6) and np.all(z <= b + 1e-6), "quantile outside the bounds", (a, b), z)
    mid = (q > 0) & (q < 1)
    back = np.array([mass(a, zz) / total for zz in z[mid]])
    expect_close(back, q[mid], "cdf(ppf(q)) for %s" % case, rtol=1e-5, atol=1e-7 if loc or scale != 1 else 4e-15 * (1 + max(a, 0.0) ** 2))
    expect_close(pp[0] if abs(a) != INF else 0.0, a * scale + loc if abs(a) != INF else 0.0, "ppf(0) is the lower bound", atol=1e-6 * scale)
    iq1 = int(np.argmax(q == 1.0))
    expect_close(pp[iq1] if abs(b) != INF else 0.0, b * scale + loc if abs(b) != INF else 0.0, "ppf(1) is the upper bound", atol=2e-6 * scale)
    cov.step(5)
    cov.trace(5)
    for zz, c in zip(zs, cdf):
        cov.state(case, zz)
    return "ok"


def cases_dist(tier):
    locs = [(0, 1), (10, 2.5), (-3, 0.1)] if tier == "quick" else [(0, 1), (10, 2.5), (-3, 0.1), (273, 4), (0.5, 30), (-1e3, 7)]
    for a, b in itertools.product(AS, BS):
        if a < b:
            for loc, scale in locs:
                yield [a, b, loc, scale]


def check_vector(case, cov):
    """Arrays of parameters and points broadcast: every element equals the scalar call; invalid parameters give nan."""
    import numpy as np
    from improver.ensemble_copula_coupling._scipy_continuous_distns import truncnorm

    fn, shape = case
    pairs = [(a, b) for a in AS[1::2] for b in BS[:-1:2] if a < b][:12]
    a = np.array([p[0] for p in pairs]).reshape(shape)
    b = np.array([p[1] for p in pairs]).reshape(shape)
    pts = np.linspace(0.05, 0.95, 12).reshape(shape)
    if fn != "ppf":
        pts = a + (b - a) * pts
    got = getattr(truncnorm, fn)(pts, a, b)
    for i in np.ndindex(*shape):
        want = getattr(truncnorm, fn)(float(pts[i]), float(a[i]), float(b[i]))
        expect_close(got[i], want, "%s elementwise" % fn, rtol=1e-12, atol=1e-14)
        cov.step()
        cov.state(fn, shape, i)
    for aa, bb in itertools.product((-1.0, 0.0, 1.0), repeat=2):
        v = getattr(truncnorm, fn)(0.5, aa, bb)
        expect((v != v) == (aa >= bb), "validity of bounds (%s, %s): %s = %s" % (aa, bb, fn, v))
        cov.step()
    return fn


def check_mixed(case, cov):
    """One array holding ordinary, far-tail and invalid bounds: every element is what it is alone."""
    import warnings

    import numpy as np
    from improver.ensemble_copula_coupling._scipy_continuous_distns import truncnorm

    fn, first, order = case
    pairs = [(-1.0, 1.0), (6.0, 9.0), (-9.0, -6.0), (1.0, 0.0), (8.3, INF), (-INF, -12.0), (0.0, 0.0), (-INF, INF), (12.0, 13.0), (5.0, 4.0)]
    sel = [pairs[i] for i in first]
    if order == "reversed":
        sel = sel[::-1]
    a, b = np.array([p[0] for p in sel]), np.array([p[1] for p in sel])
    for frac in (0.1, 0.5, 0.9):
        if fn == "ppf":
            pts = np.full(len(sel), frac)
        else:
            lo, hi = np.where(np.isinf(a), np.where(np.isinf(b), -1.0, b - 1.0), a), np.where(np.isinf(b), np.where(np.isinf(a), 1.0, a + 1.0), b)
            pts = lo + (hi - lo) * frac
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            got = getattr(truncnorm, fn)(pts, a, b)
            for i, (aa, bb) in enumerate(sel):
                want = getattr(truncnorm, fn)(float(pts[i]), aa, bb)
                expect((got[i] != got[i]) == (aa >= bb), "%s: no number exactly where the bounds are in the wrong order: %s" % (fn, sel), aa >= bb, got)
                if aa < bb:
                    expect_close(got[i], want, "%s of bounds %s among %s" % (fn, (aa, bb), sel), rtol=1e-12, atol=1e-300)
                    if fn == "cdf":
                        expect_close(got[i], mass(aa, float(pts[i])) / mass(aa, bb), "cdf of bounds %s among %s" % ((aa, bb), sel), rtol=1e-8)
                    if fn == "sf":
                        expect_close(got[i], mass(float(pts[i]), bb) / mass(aa, bb), "sf of bounds %s among %s" % ((aa, bb), sel), rtol=1e-8)
        cov.step(len(sel))
        cov.state(case, frac)
    return fn


def cases_mixed(tier):
    for fn in ("cdf", "ppf", "pdf", "logpdf", "sf"):
        for n in (2, 3) if tier == "quick" else (2, 3, 4):
            for first in itertools.combinations(range(10), n):
                for order in ("given", "reversed"):
                    yield [fn, list(first), order]


def sections():
    import improver.ensemble_copula_coupling._scipy_continuous_distns  # noqa

    return [
        Section("distribution", cases_dist, check_dist, "all bound pairs from 11x11 values incl. infinities x 3 (thorough 6) location/scale x 43 points/quantiles"),
        Section("elementwise", lambda t: [[f, s] for f in ("cdf", "ppf", "pdf", "logpdf", "sf") for s in ([12], [3, 4], [2, 3, 2])], check_vector, "5 functions x 3 shapes"),
        Section("mixed", cases_mixed, check_mixed, "5 functions x every 2 and 3 (thorough 4) of 10 bounds (ordinary, far tails, infinite, wrong order) in one array, both orders"),
    ]


if __name__ == "__main__":
    main(globals())
