"""P25 peaks, regions and one-dimensional statistics; P26 image logic and smoothing."""
import numpy as np

from .core import Skip, lazy, scramble_layout, workload
from .w_geom import pick

feature = lazy("skbeam.core.feature")
spec = lazy("skbeam.core.spectroscopy")
stats = lazy("skbeam.core.stats")
arith = lazy("skbeam.core.arithmetic")
smooth = lazy("skbeam.core.smoothing")
funcs = lazy("skbeam.core.fitting")


def axis(rng, n):
    """An increasing axis, evenly spaced or not."""
    x0 = float(rng.uniform(-50, 50))
    if rng.random() < 0.5:
        return x0 + float(rng.uniform(0.01, 2)) * np.arange(n)
    return x0 + np.cumsum(rng.uniform(0.05, 1.0, n))


@workload("P25", quick=300)
def quadratic(c):
    """a parabola is found exactly, and the fit is the least-squares one"""
    rng = c.rng
    n = int(rng.integers(3, 40))
    x = rng.uniform(-5, 5) + np.cumsum(rng.uniform(0.05, 0.5, n))
    mid = float(rng.uniform(x[0], x[-1]))
    a = float(-rng.uniform(0.05, 5)) * (1 if rng.random() < 0.7 else -1)
    h = float(rng.uniform(-10, 10))
    y = a * (x - mid) ** 2 + h
    noise = rng.random() < 0.4 and n > 4
    if noise:
        y = y + rng.normal(size=n) * 0.05 * np.ptp(y)
    b, r2 = c.call(funcs.fit_quad_to_peak, scramble_layout(rng, x), scramble_layout(rng, y))
    xc = x - x.mean()
    p = np.polyfit(xc, y, 2)
    res = y - np.polyval(p, xc)
    want_r2 = 1 - np.sum(res ** 2) / np.sum((y - y.mean()) ** 2)
    c.mark(bool(noise), n == 3, a > 0)
    if not noise:
        c.close(b[0], a, "curvature", rtol=1e-5, atol=1e-7)
        c.close(b[1], mid, "position", rtol=0, atol=1e-5 * (1 + abs(mid)))
        c.close(b[2], h, "height", rtol=0, atol=1e-4 * (1 + abs(h)))
    elif abs(p[0]) > 0.01:
        m = -p[1] / (2 * p[0])
        c.close(b[0], p[0], "curvature", rtol=1e-5)
        c.close(b[1], m + x.mean(), "position", rtol=1e-5, atol=1e-5)
        c.close(b[2], p[2] - p[0] * m ** 2, "height", rtol=1e-4, atol=1e-4 * np.ptp(y))
    if np.ptp(y) > 1e-3:
        c.close(r2, want_r2, "r-squared", rtol=0, atol=1e-6)
    c.rejects(Exception, funcs.fit_quad_to_peak, x[:2], y[:2])
    if np.ptp(y) > 600:     # exp underflows below
        raise Skip
    # the two refinements, and the threshold
    pos, hgt = c.call(feature.refine_quadratic, x, y)
    c.close([pos, hgt], [b[1], b[2]], "refine-quadratic", rtol=1e-9)
    g = np.exp(y - y.max())
    pos2, hgt2 = c.call(feature.refine_log_quadratic, x, g)
    if abs(b[0]) > 0.01:
        c.close(pos2, b[1], "refine-log-quadratic", rtol=1e-5, atol=1e-5)
        c.close(np.log(hgt2), b[2] - y.max(), "refine-log-quadratic", rtol=0, atol=1e-3 * (1 + np.ptp(y)))
    t = float(rng.uniform(0, 1))
    for fn, arr, rr in ((feature.refine_quadratic, y, want_r2), (feature.refine_log_quadratic, g, want_r2)):
        if abs(t - rr) < 1e-4:
            continue
        if rr < t:
            c.rejects(feature.PeakRejection, fn, x, arr, Rval_thresh=t)
        else:
            q = c.call(fn, x, arr, Rval_thresh=t)
            c.close(q, [pos, hgt] if fn is feature.refine_quadratic else [pos2, hgt2], "threshold-keeps", rtol=1e-9)


@workload("P25", quick=200)
def refinement(c):
    """each candidate is refined from its own window, rejected ones are left out"""
    rng = c.rng
    n = int(rng.integers(20, 200))
    if c.i % 10 == 0:
        n = int(rng.integers(33000, 70000))     # a long scan
    x = axis(rng, n) if rng.random() < 0.85 else np.arange(n) + int(rng.integers(-5, 6))
    y = rng.normal(size=n)
    if rng.random() < 0.3:          # counts in channels
        y = rng.integers(0, 250, n).astype(pick(rng, np.uint8, np.uint16, np.int32, np.int64, np.float32))
    m = int(rng.integers(1, 9)) if rng.random() < 0.8 else int(rng.integers(10, 60))
    cands = rng.integers(0, n, m)
    if rng.random() < 0.5:
        cands[0] = int(pick(rng, 0, n - 1, 1, n - 2))
    w = int(rng.integers(1, 12))
    seen = []
    bad = None
    if m > 1 and rng.random() < 0.5:
        bad = set(rng.integers(0, m, 1 if m < 9 else m // 2).tolist())
    count = [0]

    def refine(xx, yy, **kw):
        k = count[0]
        count[0] += 1
        seen.append((np.array(xx), np.array(yy), dict(kw)))
        if bad is not None and k in bad:
            raise feature.PeakRejection()
        return float(np.sum(xx)), float(np.sum(yy))
    args = pick(rng, None, {"a": 1, "b": "x"})
    loc, hgt = c.call(feature.peak_refinement, pick(rng, x, list(x)), pick(rng, y, list(y)),
                      pick(rng, cands, list(cands)), w, refine, args, _rep=False)
    keep = [k for k in range(m) if k not in (bad or ())]
    sl = [slice(max(0, k - w), min(n, k + w + 1)) for k in cands]
    c.mark(m > 1, bad is None, bool(cands.min() < w), bool(cands.max() > n - w))
    c.expect(len(seen) == m and all(np.array_equal(s[0], x[q]) and np.array_equal(s[1], y[q]) and s[2] == (args or {})
                                    for s, q in zip(seen, sl)), "window", lambda: (n, w, list(cands)))
    c.close(loc, [x[sl[k]].sum() for k in keep], "locations", rtol=1e-12)
    c.close(hgt, [y[sl[k]].sum() for k in keep], "heights", rtol=1e-12)
    # Gaussian peaks far from each other are found to sub-sample accuracy
    k = int(rng.integers(1, 4))
    xx = np.arange(100.0 * k) * float(rng.uniform(0.2, 3))
    dx = xx[1]
    mu = [float((100 * j + rng.uniform(40, 60)) * dx) for j in range(k)]
    hh = rng.uniform(1, 100, k)
    sg = float(rng.uniform(2, 5)) * dx
    yy = sum(h * np.exp(-(xx - u) ** 2 / 2 / sg ** 2) for h, u in zip(hh, mu)) + 1e-300
    cc = np.array([int(round(u / dx)) for u in mu]) + rng.integers(-1, 2, k)
    win = int(rng.integers(2, 6))
    loc, hgt = c.call(feature.peak_refinement, xx, yy, cc, win, feature.refine_log_quadratic)
    c.close(loc, mu, "peak-position", rtol=1e-6, atol=1e-6)
    c.close(hgt, hh, "peak-height", rtol=1e-5)


@workload("P25", quick=200)
def candidates(c):
    """the largest candidates, and those which stand out of their surroundings"""
    rng = c.rng
    n = c.n(3, 150, 60000)
    y = rng.normal(size=n) * 10
    if rng.random() < 0.4:
        y = np.round(y)
        if rng.random() < 0.4:
            y = (y - y.min()).astype(pick(rng, np.uint8, np.uint16, np.int64, np.float32))
    elif rng.random() < 0.2:        # a high level with small differences
        y = 1e5 + 1e-5 * y
    m = int(rng.integers(1, min(n, 20 if n < 150 else 300) + 1))
    cands = rng.permutation(n)[:m]
    N = int(rng.integers(1, m + 4))
    got = c.call(feature.filter_n_largest, y, pick(rng, cands, list(cands)), N)
    want = np.sort(y[cands])[::-1][:N]
    c.mark(N < m, N == m, len(np.unique(y)) < n)
    c.equal(y[got], want, "largest", (m, N))
    c.expect(len(set(map(int, got))) == len(got) and set(map(int, got)) <= set(map(int, cands)), "largest-candidates")
    c.rejects(ValueError, feature.filter_n_largest, y, cands, int(pick(rng, 0, -1, -5)))
    w = int(rng.integers(1, 10))
    t = float(pick(rng, float(rng.uniform(0, 60)), round(float(rng.uniform(0, 40))), 0, -float(rng.uniform(0, 9))))
    if rng.random() < 0.1:
        y = np.round(y / 10)
    elif rng.random() < 0.05:
        y = np.round(y / 40)            # flat almost everywhere
    kw = {"window": w} if rng.random() < 0.8 else {}
    ww = kw.get("window", 5)
    got = c.call(feature.filter_peak_height, pick(rng, y, list(y)), cands, t, **kw)
    want = [k for k in cands if np.max(y[max(0, k - ww):k + ww + 1]) - np.min(y[max(0, k - ww):k + ww + 1]) > t]
    c.expect([int(v) for v in got] == [int(v) for v in want], "standing-out", lambda: (got, want, t, ww))


def simpson_poly(x, co):
    p = np.polyint(co)
    return np.polyval(p, x[-1]) - np.polyval(p, x[0])


@workload("P25", quick=300)
def regions(c):
    """the integral over regions of the samples"""
    from scipy.integrate import simpson
    rng = c.rng
    n = c.n(4, 80, 6000)
    x = axis(rng, n)
    if rng.random() < 0.1:
        x = np.cumsum(rng.integers(1, 4, n))        # channels
    y = rng.normal(size=n) if rng.random() < 0.5 else rng.integers(0, 1000, n)
    if rng.random() < 0.2:
        y = rng.integers(0, 256, n).astype(pick(rng, np.uint8, np.uint16, np.int32, np.float32))
    m = int(rng.integers(1, 5))
    lo, hi = [], []
    for _ in range(m):
        a, b = sorted(rng.uniform(x[0], x[-1], 2))
        if rng.random() < 0.4:
            a = x[int(rng.integers(0, n - 1))]
        if rng.random() < 0.4:
            b = x[int(rng.integers(1, n))]
        if rng.random() < 0.2:
            b = x[-1]
        if rng.random() < 0.2:
            a = x[0]
        if a >= b:
            a, b = x[0], x[-1]
        lo.append(float(a))
        hi.append(float(b))
    scalar = m == 1 and rng.random() < 0.6
    down = rng.random() < 0.4

    def give(v):
        v = v[::-1] if down else v
        return scramble_layout(rng, v) if rng.random() < 0.7 else list(v)
    amin, amax = (lo[0], hi[0]) if scalar else (pick(rng, lo, np.array(lo)), pick(rng, hi, np.array(hi)))
    got = c.call(spec.integrate_ROI, give(x), give(y), amin, amax)
    # from the first sample at or above the lower to the first at or above the upper bound
    sl = [slice(int(np.sum(x < a)), int(np.sum(x < b)) + 1) for a, b in zip(lo, hi)]
    c.mark(m, scalar, bool(down), any(b.stop - b.start == 1 for b in sl))
    want = sum(float(simpson(np.asarray(y, float)[s], x=x[s])) for s in sl)
    scale = sum(float(np.abs(np.asarray(y, float)[s]).max() * (x[s][-1] - x[s][0])) for s in sl)
    c.close(float(got), want, "integral", rtol=1e-9, atol=1e-9 * (1 + scale), detail=(lo, hi))
    # straight lines are integrated exactly, whatever the number of samples
    co = rng.normal(size=2)
    xl = x - x[0]
    got = c.call(spec.integrate_ROI, xl, np.polyval(co, xl), 0.0, float(xl[-1]))
    c.close(float(got), simpson_poly(xl, co), "integral-of-line", rtol=1e-8, atol=1e-8 * (1 + xl[-1] ** 2))
    # histogram: the same with the centers of the bins
    edges = axis(rng, n + 1)
    cen = (edges[1:] + edges[:-1]) / 2
    y2 = rng.uniform(0, 100, n)
    i, j = sorted(rng.permutation(n)[:2])
    a = float(cen[i] - 1e-6 if i else cen[0] + 1e-9)
    b = float(cen[j] - 1e-6)
    if a < b:
        s = slice(int(np.sum(cen < a)), int(np.sum(cen < b)) + 1)
        want = float(simpson(y2[s], x=cen[s]))
        dn = rng.random() < 0.3
        got = c.call(spec.integrate_ROI_spectrum, edges[::-1] if dn else edges, y2[::-1] if dn else y2, a, b)
        c.close(float(got), want, "spectrum-integral", rtol=1e-9, atol=1e-9)
    # refusals
    k = c.i % 7
    if k == 0:
        c.rejects(ValueError, spec.integrate_ROI, x, y[1:], x[0], x[-1])
    elif k == 1:
        q = np.array(x)
        t = int(rng.integers(1, n - 1))
        q[t], q[t + 1] = q[t + 1], q[t]
        c.rejects(ValueError, spec.integrate_ROI, q, y, q[0], q[-1])
    elif k == 2:
        c.rejects(ValueError, spec.integrate_ROI, x, y, [x[0], x[1]], [x[-1]])
    elif k == 3:
        c.rejects(ValueError, spec.integrate_ROI, x, y, [x[0], x[2]], [x[-1], pick(rng, x[1], x[2])])
    elif k == 4:
        c.rejects(ValueError, spec.integrate_ROI, x, y, [x[0], x[0] - 1e-3], [x[-1], x[1]])
    elif k == 5:
        c.rejects(ValueError, spec.integrate_ROI, x, y, [x[0], x[1]], [x[-1] + 1e-3, x[2]])
    else:
        q = np.array(x)
        q[int(rng.integers(1, n))] = q[0]
        q = np.sort(q)
        c.rejects(ValueError, spec.integrate_ROI, q, y, q[0], q[-1])


@workload("P25", quick=150)
def largest_peak(c):
    """position, height and width of the largest peak; spectra are aligned to the first"""
    rng = c.rng
    n = c.n(30, 120, 5000)
    x = axis(rng, n)
    k = int(pick(rng, 0, 1, 2, n - 1, n - 2, int(rng.integers(0, n))))
    mu = float(x[k] + rng.uniform(-0.3, 0.3) * (x[1] - x[0]))
    sg = float(rng.uniform(1, 4)) * float(np.mean(np.diff(x)))
    h = float(rng.uniform(1, 1e4))
    y = h * np.exp(-(x - mu) ** 2 / 2 / sg ** 2)
    far = np.abs(x - mu) > 8 * sg
    y[far] = h * 1e-14 * rng.uniform(0.5, 1, far.sum())
    if rng.random() < 0.5 and far.any():
        j = int(rng.choice(np.flatnonzero(far)))    # a smaller peak elsewhere
        y[j] = h * 0.5
    w = int(rng.integers(2, 4))
    top = int(np.argmax(y))
    got = c.call(spec.find_largest_peak, pick(rng, x, list(x)), pick(rng, y, list(y)), w)
    near = slice(max(0, top - w), top + w + 1)
    c.mark(top < w, top > n - 1 - w)
    if not far[near].any():
        c.close(got[0], mu, "peak-position", rtol=1e-5, atol=1e-5)
        c.close(got[1], h, "peak-height", rtol=1e-3)
        c.close(got[2], sg, "peak-width", rtol=1e-4)
    # exactly the points of the window take part
    y2 = y * rng.uniform(0.9, 1, n)
    top = int(np.argmax(y2))
    w2 = int(rng.integers(2, 7))
    near = slice(max(0, top - w2), top + w2 + 1)
    if not far[near].any() and len(x[near]) > 3:
        u, v = (x[near] - x[top]) / sg, np.log(y2[near])
        a2, a1, a0 = np.linalg.lstsq(np.stack([u * u, u, np.ones_like(u)], axis=1), v, rcond=None)[0]
        if a2 < -0.02:
            got = c.call(spec.find_largest_peak, x, y2, w2)
            c.close(got[0], x[top] - sg * a1 / (2 * a2), "window-position", rtol=1e-5, atol=1e-4 * sg)
            c.close(got[1], np.exp(a0 - a1 ** 2 / (4 * a2)), "window-height", rtol=1e-3)
            c.close(got[2], sg / np.sqrt(-2 * a2), "window-width", rtol=1e-3)
            c.mark("window", w2)
    # align
    m = c.n(1, 5, 40)
    es, cs, par = [], [], []
    for _ in range(m):
        nn = c.n(20, 60, 2000)
        f = float(10 ** rng.uniform(-4, 4)) if rng.random() < 0.3 else 1.0      # its own unit
        e = (np.linspace(0, 1, nn) * float(rng.uniform(5, 10)) + float(rng.uniform(-3, 3))) * f
        u, s = float(e[nn // 2] + rng.uniform(-.1, .1) * f), float(rng.uniform(0.5, 2)) * f
        es.append(e)
        cs.append(float(rng.uniform(1, 50)) * np.exp(-(e - u) ** 2 / 2 / s ** 2))
        par.append((u, s))
    own = rng.random() < 0.4
    if own:     # whatever the function of the user says
        par = [(float(rng.normal()), float(10 ** rng.uniform(-4, 4))) for _ in range(m)]
    table = {np.asarray(e).tobytes(): p for e, p in zip(es, par)}
    finder = (lambda e, q: (table[np.asarray(e).tobytes()][0], 1.0, table[np.asarray(e).tobytes()][1])) if own else None
    oe, oc = c.call(spec.align_and_scale, es, cs, finder, _rep=not own)
    c.expect(len(oe) == len(oc) == m, "aligned-number")
    for j in range(m):
        u, s = par[j]
        want = (es[j] - u) * par[0][1] / s
        c.close(oe[j], want, "aligned", rtol=1e-6, atol=1e-6 * np.abs(want).max())
        c.equal(oc[j], cs[j], "aligned-counts")


@workload("P25", quick=200)
def statistics(c):
    """the statistic of the values in each bin between the given limits"""
    rng = c.rng
    n = c.n(1, 300, 80000)
    x = rng.uniform(-5, 5, n) if rng.random() < 0.6 else rng.integers(-5, 6, n).astype(float)
    if rng.random() < 0.25:
        x = np.round(x).astype(pick(rng, np.int64, np.int32, np.int16))
    y = rng.normal(size=n) * 10
    if rng.random() < 0.2:
        y = rng.integers(0, 250, n).astype(pick(rng, np.uint16, np.int32, np.int64))
    nx = int(rng.integers(1, 12))
    kw = {}
    if rng.random() < 0.5 or np.ptp(x) == 0:
        kw["min_x"] = float(rng.uniform(-7, -3))
    if rng.random() < 0.5 or np.ptp(x) == 0:
        kw["max_x"] = float(rng.uniform(3, 7))
    if rng.random() < 0.3 and np.ptp(x) > 0:      # a limit of exactly zero
        kw = {}
        if rng.random() < 0.5:
            x = x - x.min() + float(rng.uniform(-2, 3))
            if x.max() > 0:
                kw["min_x"] = pick(rng, 0.0, 0)
        else:
            x = x - x.max() + float(rng.uniform(-3, 2))
            if x.min() < 0:
                kw["max_x"] = pick(rng, 0.0, 0)
    st = pick(rng, "mean", "sum", "count", "median", "max", "min", "std", None, "func")
    fn = {"mean": np.mean, "sum": np.sum, "median": np.median, "max": np.max, "min": np.min, "std": np.std,
          "count": len, None: np.mean, "func": lambda v: float(np.sum(v) + 1)}[st]
    if st is not None:
        kw["stat"] = fn if st == "func" else st
    if rng.random() < 0.2:
        nx = 100
    else:
        kw["nx"] = nx
    if not kw.get("min_x", x.min()) < kw.get("max_x", x.max()):
        raise Skip
    edges, val = c.call(stats.statistics_1D, scramble_layout(rng, x), scramble_layout(rng, y), **kw)
    lo, hi = kw.get("min_x", x.min()), kw.get("max_x", x.max())
    c.close(edges, lo + (hi - lo) * np.arange(nx + 1) / nx, "edges", rtol=1e-12, atol=1e-12)
    c.equal([edges[0], edges[-1]], [lo, hi], "limits")
    c.mark(st, "min_x" in kw, "max_x" in kw)
    for b in range(nx):
        sel = (x >= edges[b]) & ((x < edges[b + 1]) if b < nx - 1 else (x <= edges[b + 1]))
        if sel.any():
            c.close(val[b], fn(y[sel]), "statistic", rtol=1e-9, atol=1e-8, detail=(st, b, nx))
        elif st not in ("func",):
            want = 0 if st in ("count", "sum") else np.nan
            c.close(val[b], want, "statistic-of-empty-bin", detail=st)


# ---------------------------------------------------------------------------
@workload("P26", quick=300)
def logic(c):
    """logical combinations of two images, also into given outputs"""
    rng = c.rng
    shape = tuple(c.n(1, 7, 60) for _ in range(int(rng.integers(1, 4))))
    kind = pick(rng, bool, np.int8, np.uint16, np.int64, float, np.float32)

    def img():
        a = rng.integers(0, 3, shape) * rng.integers(0, 2, shape)
        if kind is float and rng.random() < 0.3:
            a = np.where(rng.random(shape) < 0.3, np.nan, a)
        if kind in (np.int8, np.int64):
            a = -a
        return np.asarray(a).astype(kind)
    x1, x2 = img(), img()
    if rng.random() < 0.2:
        x2 = np.asarray(x2 * 0 + 1, dtype=kind)
    t1, t2 = x1.astype(bool), x2.astype(bool)
    want = {"logical_nand": ~(t1 & t2), "logical_nor": ~(t1 | t2), "logical_sub": t1 & ~t2,
            "logical_and": t1 & t2, "logical_or": t1 | t2, "logical_xor": t1 ^ t2}
    name = pick(rng, "logical_nand", "logical_nor", "logical_sub", "logical_sub", "logical_and", "logical_or",
                "logical_xor")
    fn = getattr(arith, name)
    k = int(rng.integers(0, 5))
    a1, a2 = scramble_layout(rng, x1), scramble_layout(rng, x2)
    c.mark(name, k, len(shape), np.dtype(kind).kind)
    if k == 0:
        got = c.call(fn, a1, a2)
    elif k == 1:
        got = c.call(fn, a1.tolist(), a2.tolist())
    elif k == 2:
        out = np.empty(shape, bool)
        got = c.call(fn, a1, a2, out, _out=(2,), _rep=False)
        c.equal(out, want[name], "output-" + name)
    else:      # the output is one of the inputs
        b1, b2 = t1.copy(), t2.copy()
        out = b1 if k == 3 else b2
        got = c.call(fn, b1, b2, out, _out=(0, 1, 2), _rep=False)
        c.equal(out, want[name], "output-into-input-" + name)
        c.equal(b2 if k == 3 else b1, t2 if k == 3 else t1, "other-input-" + name)
    c.equal(got, want[name], name)
    c.expect(np.asarray(got).dtype == bool, "type-" + name)
    got = c.call(arith.logical_not, a1)
    c.equal(got, ~t1, "logical_not")
    y1, y2 = rng.normal(size=shape), rng.normal(size=shape)
    for op, w in (("add", y1 + y2), ("subtract", y1 - y2), ("multiply", y1 * y2), ("divide", y1 / y2)):
        c.equal(c.call(getattr(arith, op), y1, y2), w, op)


def poly2(rng, order):
    return {(i, j): float(rng.normal()) for i in range(order + 1) for j in range(order + 1 - i)}


def ev(co, r, q, dr=0, dq=0):
    tot = 0
    for (i, j), v in co.items():
        f = v
        if dr:
            f, i = f * i, max(i - 1, 0)
        if dq:
            f, j = f * j, max(j - 1, 0)
        tot = tot + f * r ** i * q ** j
    return tot


@workload("P26", quick=160)
def savitzky_golay(c):
    """the filter reproduces polynomials, is linear inside, and gives their slopes"""
    rng = c.rng
    w = int(pick(rng, 3, 5, 7, 9, 11, 15))
    h = w // 2
    order = int(rng.integers(0, min(5 if rng.random() < 0.8 else 8, w - 1)))
    shape = (c.n(2 * h + 1, 2 * h + 16, 2 * h + 200), c.n(2 * h + 1, 2 * h + 16, 2 * h + 200))
    r, q = np.mgrid[:shape[0], :shape[1]].astype(float)
    r, q = r / 10, q / 10
    co = poly2(rng, order)
    img = ev(co, r, q)
    inner = (slice(h, shape[0] - h), slice(h, shape[1] - h))
    scale = 1 + np.abs(img).max()
    c.mark(w, order)
    got = c.call(smooth.sgolay2d, scramble_layout(rng, img), w, order)
    c.expect(got.shape == shape, "shape", lambda: (got.shape, shape))
    c.close(got[inner], img[inner], "polynomial", rtol=0, atol=1e-8 * scale, detail=(w, order))
    if order >= 1:
        dr = c.call(smooth.sgolay2d, img, w, order, "col")
        dq = c.call(smooth.sgolay2d, img, w, order, "row")
        c.expect(dr.shape == dq.shape == shape, "derivative-shape")
        c.close(dr[inner], (ev(co, r, q, dr=1) / 10 + 0 * r)[inner], "slope-along-rows", rtol=0, atol=1e-8 * scale)
        c.close(dq[inner], (ev(co, r, q, dq=1) / 10 + 0 * r)[inner], "slope-along-columns", rtol=0, atol=1e-8 * scale)
        both = c.call(smooth.sgolay2d, img, w, order, "both")
        c.close(both[0], dq, "both", rtol=0, atol=1e-9 * scale)
        c.close(both[1], dr, "both", rtol=0, atol=1e-9 * scale)
    # any image: the value at the middle of the local least-squares polynomial
    kind = pick(rng, float, np.uint8, np.int32, np.uint16, np.float32)
    im = (rng.random(shape) * 200).astype(kind)
    if rng.random() < 0.5:
        im = (ev(poly2(rng, 2), r, q) * 20 + 100).clip(0, 250).astype(kind)
    got = c.call(smooth.sgolay2d, scramble_layout(rng, im), w, order)
    t = np.arange(-h, h + 1.0)
    dr_, dq_ = np.meshgrid(t, t, indexing="ij")
    A = np.stack([dr_.ravel() ** (k - n) * dq_.ravel() ** n for k in range(order + 1) for n in range(k + 1)], axis=1)
    for _ in range(4):
        i, j = int(rng.integers(h, shape[0] - h)), int(rng.integers(h, shape[1] - h))
        patch = im[i - h:i + h + 1, j - h:j + h + 1].astype(float)
        beta = np.linalg.lstsq(A, patch.ravel(), rcond=None)[0]
        c.close(got[i, j], beta[0], "local-polynomial", rtol=0, atol=1e-6 * 200, detail=(w, order, str(kind)))
    flat = np.full(shape, kind(7))
    c.close(c.call(smooth.sgolay2d, flat, w, order), np.full(shape, 7.0), "constant", rtol=1e-9)
    c.close(c.call(smooth.sgolay2d, im.astype(float) * 3, w, order), 3 * np.asarray(got, float), "scaling", rtol=0,
            atol=1e-5 * 200)
    # the frame is continued by reflection through the edge values
    pad = np.empty((shape[0], shape[1]))
    pad[:] = im
    # the rows in the frame on top: reflected values below the edge value
    ext = np.zeros((shape[0] + 2 * h, shape[1]))
    ext[h:-h] = pad
    for k in range(1, h + 1):
        ext[h - k] = pad[0] - np.abs(pad[k] - pad[0])
        ext[h + shape[0] - 1 + k] = pad[-1] + np.abs(pad[-1 - k] - pad[-1])
    i = int(pick(rng, int(rng.integers(0, h)), shape[0] - 1 - int(rng.integers(0, h))))
    j = int(rng.integers(h, shape[1] - h))
    patch = ext[i:i + w, j - h:j + h + 1]
    beta = np.linalg.lstsq(A, patch.ravel(), rcond=None)[0]
    c.close(got[i, j], beta[0], "frame-top-bottom", rtol=0, atol=1e-6 * 200)
    ext = np.zeros((shape[0], shape[1] + 2 * h))
    ext[:, h:-h] = pad
    for k in range(1, h + 1):
        ext[:, h - k] = pad[:, 0] - np.abs(pad[:, k] - pad[:, 0])
        ext[:, h + shape[1] - 1 + k] = pad[:, -1] + np.abs(pad[:, -1 - k] - pad[:, -1])
    i = int(rng.integers(h, shape[0] - h))
    j = int(pick(rng, int(rng.integers(0, h)), shape[1] - 1 - int(rng.integers(0, h))))
    patch = ext[i - h:i + h + 1, j:j + w]
    beta = np.linalg.lstsq(A, patch.ravel(), rcond=None)[0]
    c.close(got[i, j], beta[0], "frame-left-right", rtol=0, atol=1e-6 * 200)
    # the corners: reflected through the corner values of the image, top right through the rows and bottom left
    # through the columns of the frame beside them
    n0, n1 = shape
    ext = np.zeros((n0 + 2 * h, n1 + 2 * h))
    ext[h:-h, h:-h] = pad
    for k in range(1, h + 1):
        ext[h - k, h:-h] = pad[0] - np.abs(pad[k] - pad[0])
        ext[h + n0 - 1 + k, h:-h] = pad[-1] + np.abs(pad[-1 - k] - pad[-1])
        ext[h:-h, h - k] = pad[:, 0] - np.abs(pad[:, k] - pad[:, 0])
        ext[h:-h, h + n1 - 1 + k] = pad[:, -1] + np.abs(pad[:, -1 - k] - pad[:, -1])
    for k in range(1, h + 1):
        for m in range(1, h + 1):
            ext[h - k, h - m] = pad[0, 0] - abs(pad[k, m] - pad[0, 0])
            ext[h + n0 - 1 + k, h + n1 - 1 + m] = pad[-1, -1] + abs(pad[-1 - k, -1 - m] - pad[-1, -1])
            e = ext[h, h + n1 - 1 + m]
            ext[h - k, h + n1 - 1 + m] = e - abs(ext[h + k, h + n1 - 1 + m] - e)
            e = ext[h + n0 - 1 + k, h]
            ext[h + n0 - 1 + k, h - m] = e - abs(ext[h + n0 - 1 + k, h + m] - e)
    deriv = c.call(smooth.sgolay2d, im, w, order, "both") if order >= 1 else None
    for i0 in (int(rng.integers(0, h)), n0 - 1 - int(rng.integers(0, h)), int(rng.integers(0, n0))):
        for j0 in (int(rng.integers(0, h)), n1 - 1 - int(rng.integers(0, h)), int(rng.integers(0, n1))):
            beta = np.linalg.lstsq(A, ext[i0:i0 + w, j0:j0 + w].ravel(), rcond=None)[0]
            c.close(got[i0, j0], beta[0], "frame-corner", rtol=0, atol=1e-6 * 200, detail=(i0, j0, shape))
            if deriv is not None:
                c.close(deriv[1][i0, j0], beta[1], "frame-slope", rtol=0, atol=1e-6 * 200, detail=(i0, j0, shape))
                c.close(deriv[0][i0, j0], beta[2], "frame-slope", rtol=0, atol=1e-6 * 200, detail=(i0, j0, shape))
    c.rejects(ValueError, smooth.sgolay2d, img, w + 1, order)
    c.rejects(ValueError, smooth.sgolay2d, img, 2, int(rng.integers(0, 2)))
    c.rejects(ValueError, smooth.sgolay2d, img, 3, int(pick(rng, 4, 5, 7)))
