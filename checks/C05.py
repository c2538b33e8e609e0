"""C05: neighbourhood totals and moving windows."""
import itertools

from mc import Section, Violation, expect, expect_same, main, raises, same

PROPERTY = "C05"
MODES = ["constant", "edge", "reflect", "symmetric", "wrap"]


def src_index(i, n, mode):
    """Index of the source cell a padded position takes its value from (None: a zero)."""
    if 0 <= i < n:
        return i
    if mode == "constant":
        return None
    if mode == "edge":
        return 0 if i < 0 else n - 1
    if mode == "wrap":
        return i % n
    if mode == "symmetric":
        p = i % (2 * n)
        return p if p < n else 2 * n - 1 - p
    if mode == "reflect":
        if n == 1:
            return 0
        p = i % (2 * n - 2)
        return p if p < n else 2 * n - 2 - p


def model_boxsum(grid, bi, bj, mode, const=0):
    m, n = len(grid), len(grid[0])
    hi, hj = bi // 2, bj // 2
    out = []
    for a in range(m):
        row = []
        for b in range(n):
            s = 0
            for da in range(-hi, hi + 1):
                ia = src_index(a + da, m, mode)
                for db in range(-hj, hj + 1):
                    ib = src_index(b + db, n, mode)
                    s += const if ia is None or ib is None else grid[ia][ib]
            row.append(s)
        out.append(row)
    return out


def boxes(m, n):
    odd = [1, 3, 5, 7]
    for b in odd:
        yield b
    for i, j in itertools.product(odd, repeat=2):
        yield [i, j]


def check_boxsum(case, cov):
    """Totals equal the sum over the (padded) box about every cell. The input grid gives each cell its own power of
    two, so the total identifies exactly which cells were added; all-ones and ramp grids follow by linearity."""
    import numpy as np
    from improver.utilities.neighbourhood_tools import boxsum, pad_boxsum

    m, n, mode, lead = case
    base = np.array([[1 << (a * n + b) for b in range(n)] for a in range(m)], np.int64)
    for box in boxes(m, n):
        bi, bj = (box, box) if isinstance(box, int) else box
        if mode in ("reflect", "symmetric", "wrap") and (bi // 2 + 1 > m - (mode == "reflect") or bj // 2 + 1 > n - (mode == "reflect")):
            continue
        opts = {"mode": mode}
        const = 0
        if mode == "constant":
            const = 3
            opts["constant_values"] = 3
        want = np.array(model_boxsum(base.tolist(), bi, bj, mode, const))
        data = base if not lead else np.stack([base * (k + 1) for k in range(lead)])
        if lead:
            if const:
                want = np.stack([np.array(model_boxsum((base * (k + 1)).tolist(), bi, bj, mode, const)) for k in range(lead)])
            else:
                want = np.stack([want * (k + 1) for k in range(lead)])
        keep = data.copy()
        b = box if isinstance(box, int) else tuple(box)
        got = boxsum(data, b, **opts)
        expect_same(got, want, "neighbourhood total, grid %dx%d box %s padding %s" % (m, n, box, mode))
        expect_same(data, keep, "input modified")
        # unpadded and precalculated forms
        padded = pad_boxsum(data, b, **opts)
        expect(padded.shape[-2:] == (m + bi, n + bj), "padded shape", (m + bi, n + bj), padded.shape)
        expect_same(boxsum(padded, b), want, "total of padded data")
        expect_same(boxsum(padded.cumsum(-2).cumsum(-1), b, cumsum=False), want, "total of accumulated data")
        expect_same(boxsum(data.astype(np.float64), b, **opts), want.astype(float), "float total")
        cov.step(5)
        cov.trace(4)
        cov.state(case, box)
    return mode


def cases_boxsum(tier):
    top = 5 if tier == "quick" else 7
    for m, n in itertools.product(range(1, top + 1), repeat=2):
        for mode in MODES:
            for lead in (0, 1, 2) if m * n < 16 else (0, 2):
                yield [m, n, mode, lead]


def check_kinds(case, cov):
    """Larger grids and boxes, every kind of number, any memory layout, any way to write the box size: the total is the
    plain sum over the box of the padded data."""
    import numpy as np
    from improver.utilities.neighbourhood_tools import boxsum, pad_boxsum

    shape, box, kind, layout, mode = case
    n = int(np.prod(shape))
    base = ((np.arange(n) * 7919) % 23 - 11).reshape(shape)
    if kind == "bool":
        arr = base > 2
    elif kind.startswith("complex"):
        arr = (base + 1j * ((base * 5) % 7)).astype(kind)
    elif kind.startswith("u"):
        arr = (base + 11).astype(kind)
    else:
        arr = base.astype(kind)
        if kind.startswith("float"):
            arr = arr / arr.dtype.type(4)
    if layout == "fortran":
        arr = np.asfortranarray(arr)
    elif layout == "strided":
        big = np.zeros([2 * s for s in shape], arr.dtype)
        big[tuple(slice(None, None, 2) for _ in shape)] = arr
        arr = big[tuple(slice(None, None, 2) for _ in shape)]
    elif layout == "reversed":
        arr = np.ascontiguousarray(arr[..., ::-1])[..., ::-1]
    elif layout == "frozen":
        arr.flags.writeable = False
    keep = arr.copy()
    m, k = shape[-2:]
    bi, bj = box
    exact = arr.astype(complex if kind.startswith("complex") else (float if kind.startswith("float") else int))
    want = np.zeros(shape, exact.dtype)
    for a in range(m):
        for b in range(k):
            for da in range(-(bi // 2), bi // 2 + 1):
                ia = src_index(a + da, m, mode)
                if ia is None:
                    continue
                cols = [src_index(b + db, k, mode) for db in range(-(bj // 2), bj // 2 + 1)]
                cols = [c for c in cols if c is not None]
                want[..., a, b] += exact[..., ia, :][..., cols].sum(axis=-1)
    forms = [tuple(box), list(box), np.array(box), np.array(box, np.int32)]
    if bi == bj:
        forms += [bi, np.int64(bi), np.array([bi])]
    for f in forms:
        got = boxsum(arr, f, mode=mode)
        expect(got.shape == tuple(shape), "shape of the totals", shape, got.shape)
        expect(np.array_equal(got, want), "totals of %s with box %r" % (kind, f), want.tolist() if n < 50 else None, np.asarray(got).tolist() if n < 50 else np.argwhere(got != want)[:5].tolist())
        if not kind.startswith(("u", "bool", "int")):
            expect(got.dtype == arr.dtype, "type of the totals", arr.dtype, got.dtype)
        cov.trace()
    padded = pad_boxsum(arr, tuple(box), mode=mode)
    expect(padded.dtype == arr.dtype, "type of padded data", arr.dtype, padded.dtype)
    idx = [[src_index(q - b // 2 - 1, s, mode) for q in range(s + b)] for s, b in zip((m, k), (bi, bj))]
    for a, ia in enumerate(idx[0]):
        for b, ib in enumerate(idx[1]):
            if not np.array_equal(padded[..., a, b], np.zeros(shape[:-2], arr.dtype) if ia is None or ib is None else arr[..., ia, ib]):
                raise Violation("padding at %s" % ((a, b),), None, padded[..., a, b].tolist())
    expect(np.array_equal(boxsum(padded, tuple(box)), want), "totals of padded data")
    expect(np.array_equal(arr, keep), "input modified")
    cov.step(len(forms) + 2)
    cov.state(case)
    return kind


def cases_kinds(tier):
    kinds = ["bool", "int8", "uint8", "int16", "int32", "int64", "uint32", "float32", "float64", "complex64", "complex128"]
    shapes = [[4, 6], [2, 5, 4], [2, 1, 3, 5, 4]]
    bxs = [[1, 1], [3, 3], [3, 5], [5, 1]]
    for k in kinds:
        for s in shapes:
            for b in bxs:
                for lay in ("c", "fortran", "strided", "reversed", "frozen"):
                    for mode in ("constant", "edge"):
                        yield [s, b, k, lay, mode]
    for b in itertools.product((1, 9, 11, 13, 15, 21), repeat=2):
        for mode in MODES:
            yield [[23, 24], list(b), "int64", "c", mode]
    if tier == "thorough":
        for b in itertools.product((1, 17, 25, 31, 41), repeat=2):
            for mode in MODES:
                yield [[44, 60], list(b), "float64", "c", mode]


def check_boxsum_err(case, cov):
    import numpy as np
    from improver.utilities.neighbourhood_tools import boxsum

    box = case[0] if not isinstance(case[0], list) else tuple(case[0])
    arr = [box] if not isinstance(box, tuple) else list(box)
    bad = any(isinstance(b, float) for b in arr) or any(b % 2 == 0 for b in arr)
    exc = raises(boxsum, np.ones((9, 9)), box, **({"mode": "constant"} if case[1] else {}))
    expect(isinstance(exc, ValueError) == bad, "box size %s: %r" % (box, exc), bad, exc)
    return str(bad)


def cases_boxsum_err(tier):
    vals = [1, 2, 3, 4, 5, 6, 3.0, 2.5]
    for p in (0, 1):
        for v in vals:
            yield [v, p]
        for a, b in itertools.product(vals, repeat=2):
            yield [[a, b], p]


def check_window(case, cov):
    """Each window is the block of the input at its position, for any memory layout of the input."""
    import numpy as np
    from improver.utilities.neighbourhood_tools import pad_and_roll, rolling_window

    shape, win, layout = case
    arr = np.arange(int(np.prod(shape)), dtype=np.int64).reshape(shape)
    if layout == "fortran":
        arr = np.asfortranarray(arr)
    elif layout == "transposed":
        arr = np.ascontiguousarray(arr.T).T
    elif layout == "strided":
        big = np.full([2 * s for s in shape], -1, np.int64)
        big[tuple(slice(None, None, 2) for _ in shape)] = arr
        arr = big[tuple(slice(None, None, 2) for _ in shape)]
    elif layout == "reversed":
        arr = np.ascontiguousarray(arr[..., ::-1])[..., ::-1]
    keep = arr.copy()
    k = len(win)
    lead = shape[: len(shape) - k]
    if len(shape) < k:
        exc = raises(rolling_window, arr, tuple(win))
        expect(isinstance(exc, ValueError), "too few dimensions", ValueError, exc)
        return "ValueError"
    tail = shape[len(shape) - k:]
    if any(w > s for w, s in zip(win, tail)):
        exc = raises(rolling_window, arr, tuple(win))
        expect(isinstance(exc, RuntimeError), "window larger than array", RuntimeError, exc)
    else:
        got = rolling_window(arr, tuple(win))
        pos = [s - w + 1 for s, w in zip(tail, win)]
        expect(got.shape == tuple(lead) + tuple(pos) + tuple(win), "shape of windows", tuple(lead) + tuple(pos) + tuple(win), got.shape)
        for p in itertools.product(*[range(x) for x in pos]):
            block = arr[(Ellipsis,) + tuple(slice(a, a + w) for a, w in zip(p, win))]
            expect_same(got[(slice(None),) * len(lead) + p], block, "window at %s" % (p,))
        expect(raises(got.__setitem__, (0,) * got.ndim, 99) is not None, "windows are writeable although not asked to be")
        expect_same(arr, keep, "input changed by a read-only view")
        wr = rolling_window(arr.copy() if layout == "c" else arr, tuple(win), writeable=True)
        wr[(0,) * wr.ndim] = -7
        expect(wr[(0,) * wr.ndim] == -7, "writing to a window")
        if layout != "c":
            expect(arr[(0,) * arr.ndim] == -7, "a writeable window must write to the input")
            arr[(0,) * arr.ndim] = keep[(0,) * arr.ndim]
        cov.step(3)
    # padded windows: centred on each cell when the size is odd
    for mode in ("constant", "edge"):
        got = pad_and_roll(arr, tuple(win), mode=mode)
        full = [s + 2 * (w // 2) - w + 1 for s, w in zip(tail, win)]
        expect(got.shape == tuple(lead) + tuple(full) + tuple(win), "shape of padded windows", full, got.shape)
        for p in itertools.product(*[range(x) for x in full]):
            for q in itertools.product(*[range(w) for w in win]):
                idx = [src_index(a + b - w // 2, s, mode) for a, b, w, s in zip(p, q, win, tail)]
                g = got[(slice(None),) * len(lead) + p + q]
                w = np.zeros(lead, np.int64) if None in idx else arr[(slice(None),) * len(lead) + tuple(idx)]
                expect_same(np.asarray(g), np.asarray(w), "padded window at %s%s" % (p, q))
        cov.step()
        cov.trace()
    expect_same(arr, keep, "input modified")
    cov.state(case)
    return "ok"


def cases_window(tier):
    shapes = [(1,), (2,), (4,), (5,), (1, 1), (2, 3), (3, 3), (4, 5), (1, 4), (2, 3, 4), (1, 3, 3), (2, 2, 3, 3)]
    wins = [(w,) for w in (1, 2, 3, 4, 5)] + [list(w) for w in itertools.product((1, 2, 3, 4), repeat=2)] + [(1, 2, 2), (2, 3, 3), (3, 1, 1)]
    for s in shapes:
        for w in wins:
            for lay in ("c", "fortran", "transposed", "strided", "reversed"):
                yield [list(s), list(w), lay]


def sections():
    import improver.utilities.neighbourhood_tools  # noqa

    return [
        Section("boxsum", cases_boxsum, check_boxsum, "every grid up to 5x5 (thorough 7x7) x all odd boxes to 7x7 x 5 paddings x 0-2 leading"),
        Section("kinds", cases_kinds, check_kinds, "11 kinds of number x 3 shapes x 4 boxes x 5 memory layouts; boxes up to 21 (41) on large grids"),
        Section("boxsum_refusals", cases_boxsum_err, check_boxsum_err, "all sizes and pairs of sizes from {1..6, 3.0, 2.5}"),
        Section("windows", cases_window, check_window, "12 shapes x 24 windows x 5 memory layouts, every window position"),
    ]


if __name__ == "__main__":
    main(globals())
