"""P04 histograms, P05 binned statistics, P01 (memory safety of the compiled
histogram)."""
import gc
import sys

import numpy as np

from . import native
from .core import Skip, Violation, lazy, scramble_layout, workload

acc = lazy("skbeam.core.accumulators.histogram")
bs = lazy("skbeam.core.accumulators.binned_statistic")

INTS = [np.int8, np.int16, np.int32, np.int64, np.uint8, np.uint16, np.uint32, np.uint64]
NUMS = INTS + [np.float32, np.float64]


# ------------------------------------------------------------------ P04
def pick(rng, *v):
    return v[rng.integers(0, len(v))]


def gen_axis(rng, integer=False):
    n = int(rng.choice([1, 2, 3, 5, 8, 13, 40]))
    if integer or rng.random() < 0.3:
        lo = float(rng.integers(-20, 20))
        hi = lo + n * float(rng.choice([1, 2, 4]))
        return n, lo, hi
    lo = float(rng.normal() * 10.0 ** rng.uniform(-3, 3))
    hi = lo + float(rng.random() + 0.01) * 10.0 ** float(rng.uniform(-3, 3))
    return n, lo, hi


def index_oracle(x, axis):
    """(index, inside, ambiguous) of each point, half-open bins."""
    n, lo, hi = axis
    xl = x.astype(np.longdouble)
    rel = (xl - np.longdouble(lo)) / (np.longdouble(hi) - np.longdouble(lo)) * n
    with np.errstate(all="ignore"):
        inside = (xl >= np.longdouble(lo)) & (xl < np.longdouble(hi))
        rel = np.where(inside, rel, 0)
        near = np.rint(rel)
        width = (hi - lo) / n
        dyadic = width == 2.0 ** np.round(np.log2(width)) and float(lo / width).is_integer()
        amb = inside & (np.abs(rel - near) < 1e-6) & (near > 0) & (near < n)
        if dyadic:
            amb &= rel != near
        idx = np.clip(np.floor(rel).astype(np.int64), 0, n - 1)
    return idx, inside, amb


def gen_points(rng, axis, npts, dt):
    n, lo, hi = axis
    dt = np.dtype(dt)
    k = rng.integers(0, 4)
    width = hi - lo
    if k == 0:
        x = lo + width * rng.random(npts)
    elif k == 1:
        x = lo + width * rng.uniform(-0.5, 1.5, npts)
    elif k == 2:
        x = lo + width / n * rng.integers(-1, n + 2, npts)
    else:
        x = lo + width * rng.normal(0.5, 0.3, npts)
    pick = rng.random(npts)
    x[pick < 0.06] = lo
    x[(pick > 0.06) & (pick < 0.12)] = hi
    x[(pick > 0.12) & (pick < 0.16)] = np.nextafter(hi, lo)
    x[(pick > 0.16) & (pick < 0.20)] = np.nextafter(lo, -np.inf)
    if dt.kind in "iu":
        info = np.iinfo(dt)
        x = np.clip(np.rint(x), max(info.min, -2.0 ** 52), min(info.max, 2.0 ** 52)).astype(dt)
        if rng.random() < 0.2 and npts:
            x[rng.integers(0, npts)] = info.max if rng.random() < 0.5 else info.min
        return x
    x = x.astype(dt)
    if rng.random() < 0.2 and npts:
        x[rng.random(npts) < 0.1] = rng.choice([np.nan, np.inf, -np.inf, 1e300 if dt == float else 1e30])
    return x


def gen_weights(rng, npts):
    k = rng.integers(0, 4)
    if k == 0:
        return 1, np.ones(npts), "default"
    if k == 1:
        w = [2, 3.5, -1, np.float32(0.25), np.int16(7)][rng.integers(0, 5)]
        return w, np.full(npts, float(w)), "scalar"
    dt = NUMS[rng.integers(0, len(NUMS))]
    w = rng.integers(0 if np.dtype(dt).kind == "u" else -50, 100, npts).astype(dt)
    if np.dtype(dt).kind == "f" and rng.random() < 0.7:
        w = rng.normal(size=npts).astype(dt)
    return w, w.astype(float), str(np.dtype(dt))


def gen_fill(rng, axes, npts):
    nd = len(axes)
    if nd <= 2:
        dts = [NUMS[rng.integers(0, len(NUMS))]] * nd
    else:
        dts = [[np.int64, np.float64][rng.integers(0, 2)] for _ in range(nd)]
    xs = [gen_points(rng, a, npts, dt) for a, dt in zip(axes, dts)]
    idx, ins, keep = [], np.ones(npts, bool), np.ones(npts, bool)
    for x, a in zip(xs, axes):
        i, inside, amb = index_oracle(x, a)
        idx.append(i)
        ins &= inside
        keep &= ~amb
    xs = [x[keep] for x in xs]
    w, wf, wk = gen_weights(rng, int(keep.sum()))
    return xs, w, wf, [i[keep] for i in idx], ins[keep], wk, [np.dtype(d).name for d in dts]


def count_oracle(values, mags, axes, idx, ins, wf):
    flat = tuple(i[ins] for i in idx)
    np.add.at(values, flat, wf[ins])
    np.add.at(mags, flat, np.abs(wf[ins]))


@workload("P04", quick=320, needs=["histogram"])
def hist_history(c):
    """Fills, resets and reads of one histogram, against a reference history."""
    rng = c.rng
    nd = int(rng.choice([1, 1, 2, 2, 3, 4, 5]))
    axes = [gen_axis(rng, integer=rng.random() < 0.4) for _ in range(nd)]
    if nd >= 3:
        axes = [(min(n, 6), lo, lo + (hi - lo) / n * min(n, 6)) for n, lo, hi in axes]
    h = c.call(acc.Histogram, *axes)
    shape = tuple(a[0] for a in axes)
    want, mags = np.zeros(shape), np.zeros(shape)
    c.equal(h.values, want, "not-empty-at-start")
    for e, ce, a in zip(h.edges, h.centers, axes):
        ref = a[1] + (a[2] - a[1]) * np.arange(a[0] + 1) / a[0]
        tol = 1e-12 * (abs(a[1]) + abs(a[2]))
        c.close(e, ref, "edges", rtol=1e-12, atol=tol)
        c.close(ce, (ref[1:] + ref[:-1]) / 2, "centers", rtol=1e-12, atol=tol)
    for step in range(int(rng.integers(1, 6))):
        if rng.random() < 0.15:
            if rng.random() < 0.3:      # after a fill which went wrong
                c.call(h.fill, *[np.full(3, (lo + hi) / 2) for _, lo, hi in axes],
                       weights=np.array([np.inf, np.nan, 1.0])[rng.permutation(3)], _rep=False)
            c.call(h.reset, _rep=False)
            want[:], mags[:] = 0, 0
            c.equal(h.values, want, "reset")
            c.mark("reset")
            continue
        npts = int(rng.choice([0, 1, 2, 17, 200, 900]))
        xs, w, wf, idx, ins, wk, dts = gen_fill(rng, axes, npts)
        before = np.array(h.values)
        kw = {} if wk == "default" and rng.random() < 0.5 else {"weights": w}
        args = [scramble_layout(rng, x) for x in xs]
        c.call(h.fill, *args, **kw, _rep=False)
        count_oracle(want, mags, axes, idx, ins, wf)
        c.close(h.values, want, "counts", rtol=1e-10, atol=1e-13 * mags,
                detail="%dD %s weights %s" % (nd, dts, wk))
        c.close(np.sum(np.asarray(h.values) - before), wf[ins].sum(), "weight-conservation", rtol=1e-9,
                atol=1e-10 * (np.abs(wf).sum() + np.abs(before).sum()))
        c.mark(nd, tuple(sorted(set(dts))), wk, "some-outside" if not ins.all() else "")


@workload("P04", quick=60, needs=["histogram"])
def hist_user_types(c):
    """Scalars, lists and tuples mean the same as arrays."""
    rng = c.rng
    nd = int(rng.integers(1, 4))
    axes = [(int(rng.integers(1, 6)), 0.0, 8.0) for _ in range(nd)]
    h = c.call(acc.Histogram, *axes)
    want = np.zeros([a[0] for a in axes])
    k = int(rng.integers(0, 3))
    npts = int(rng.integers(1, 20))
    pts = [rng.uniform(-1, 9, npts) for _ in axes]
    if rng.random() < 0.4:      # next to the edges of four bins
        axes = [(4, 0.0, 8.0)] * nd
        h = c.call(acc.Histogram, *axes)
        want = np.zeros([4] * nd)
        pts = [np.nextafter(2.0 * rng.integers(0, 5, npts), rng.choice([-99.0, 0.0, 99.0], npts)) for _ in axes]
    if k == 0:
        for p in zip(*pts):
            p = [[int, float][rng.integers(0, 2)](v) for v in p]
            h.fill(*p)
            i = [int(np.floor(float(v) / 8 * a[0])) if 0 <= v < 8 else None for v, a in zip(p, axes)]
            if None not in i:
                want[tuple(i)] += 1
    else:
        box = list if k == 1 else tuple
        w = rng.integers(1, 5, npts)
        c.call(h.fill, *[box(float(v) for v in p) for p in pts], weights=w if rng.random() < .5 else w.tolist(),
               _rep=False)
        for m, p in enumerate(zip(*pts)):
            i = [int(np.floor(v / 8 * a[0])) if 0 <= v < 8 else None for v, a in zip(p, axes)]
            if None not in i:
                want[tuple(i)] += w[m]
    c.equal(h.values, want, "counts")
    c.mark("types", k, nd)


@workload("P04", quick=10, needs=["histogram"])
def hist_large(c):
    """more points, bins and counts than 16 bits hold; several histograms at the same time"""
    rng = c.rng
    n = int(rng.integers(66000, 90000))
    nb = int(pick(rng, 3, 70000))
    hs = [c.call(acc.Histogram, (nb, 0.0, float(nb))), c.call(acc.Histogram, (2, 0.0, 2.0), (300, 0.0, 300.0)),
          c.call(acc.Histogram, (nb, 0.0, float(nb)))]
    want = [np.zeros(nb), np.zeros((2, 300)), np.zeros(nb)]
    for k in rng.permutation([0, 1, 2, 0, 1]):
        k = int(k)
        w = rng.integers(0, 200, n)
        wt = pick(rng, w, w.astype(float), 1)
        if k == 1:
            i, j = rng.integers(-1, 3, n), rng.integers(-1, 301, n)
            c.call(hs[1].fill, i + 0.5, j + 0.5, weights=wt, _rep=False)
            ok = (i >= 0) & (i < 2) & (j >= 0) & (j < 300)
            np.add.at(want[1], (i[ok], j[ok]), wt if np.isscalar(wt) else w[ok])
        else:
            i = rng.integers(-1, nb + 1, n) if rng.random() < 0.7 else np.full(n, nb - 1)
            c.call(hs[k].fill, i + 0.5, weights=wt, _rep=False)
            ok = (i >= 0) & (i < nb)
            np.add.at(want[k], i[ok], wt if np.isscalar(wt) else w[ok])
        for h, v in zip(hs, want):
            c.equal(h.values, v, "counts-of-many")
    c.call(hs[0].reset, _rep=False)
    c.equal(hs[0].values, np.zeros(nb), "reset")
    c.equal(hs[2].values, want[2], "reset-of-another")
    c.mark("large", nb)


@workload("P04", quick=60, needs=["histogram"])
def hist_split(c):
    """The order and the grouping of fills do not matter."""
    rng = c.rng
    nd = int(rng.integers(1, 4))
    axes = [gen_axis(rng) for _ in range(nd)]
    axes = [(min(n, 8), lo, hi) for n, lo, hi in axes]
    npts = int(rng.integers(1, 400))
    xs = [a[1] + (a[2] - a[1]) * rng.uniform(-0.2, 1.2, npts) for a in axes]
    w = rng.integers(1, 9, npts).astype(float)
    h1, h2 = acc.Histogram(*axes), acc.Histogram(*axes)
    c.call(h1.fill, *xs, weights=w, _rep=False)
    p = rng.permutation(npts)
    cuts = np.sort(rng.integers(0, npts + 1, size=3))
    for part in np.split(p, cuts):
        c.call(h2.fill, *[x[part] for x in xs], weights=w[part], _rep=False)
    c.equal(h2.values, h1.values, "grouping-matters")
    if nd <= 2:
        ref = np.histogramdd(np.stack(xs, 1), [np.r_[e[:-1], np.nextafter(e[-1], -np.inf)] for e in h1.edges], weights=w)[0]
        c.close(np.sum(ref), np.sum(h1.values), "total", rtol=1e-12)
    c.mark("split", nd)


@workload("P04", quick=50, needs=["histogram"])
def hist_rejects(c):
    rng = c.rng
    nd = int(rng.integers(1, 4))
    axes = [gen_axis(rng) for _ in range(nd)]
    axes = [(min(n, 8), lo, hi) for n, lo, hi in axes]
    h = acc.Histogram(*axes)
    npts = int(rng.integers(2, 30))
    xs = [a[1] + (a[2] - a[1]) * rng.random(npts) for a in axes]
    h.fill(*xs)
    before = np.array(h.values)
    k = int(rng.integers(0, 4))
    if k == 0:
        c.rejects((ValueError,), h.fill, *xs, xs[0])
    elif k == 1:
        c.rejects((ValueError,), h.fill, *xs, weights=np.ones(npts + int(rng.choice([-1, 1, 7])) if npts > 2 else 5))
    elif k == 2 and nd > 1:
        bad = list(xs)
        j = int(rng.integers(0, nd))
        bad[j] = bad[j][:-1]
        c.rejects((ValueError,), h.fill, *bad)
    else:
        c.rejects((ValueError,), acc.Histogram, *[(2, 0.0, 1.0)] * 11)
    c.equal(h.values, before, "changed-by-rejected-fill")
    c.mark("rejects", k, nd)


# ------------------------------------------------------------------ P01
def _refs(xs):
    return sum(sys.getrefcount(xs[k]) for k in range(len(xs)))


@workload("P01", quick=260, mode="asanh", needs=["histogram"], pure=False)
def hist_hostile(c):
    """Whatever is passed: a result or an exception, never a stray access."""
    rng = c.rng
    nd = int(rng.choice([1, 2, 3, 4, 10]))
    axes = []
    for _ in range(nd):
        n, lo, hi = gen_axis(rng)
        if nd == 10:
            n = int(rng.integers(1, 3))
        n = min(n, 8)
        if rng.random() < 0.05:
            lo, hi = hi, lo
        if rng.random() < 0.05:
            hi = lo
        if rng.random() < 0.05:
            hi = float(rng.choice([np.nan, np.inf, lo + 5e-324, 1e308]))
        axes.append((n, lo, hi))
    try:
        h = acc.Histogram(*axes)
    except (ValueError, OverflowError, TypeError, ZeroDivisionError):
        c.mark("init-rejected")
        c.calls += 1
        return
    for _ in range(int(rng.integers(1, 4))):
        npts = int(rng.choice([0, 1, 2, 30, 300]))
        xs = []
        same = NUMS[rng.integers(0, len(NUMS))]
        for a in axes:
            if not np.isfinite(a[2] - a[1]):
                a = (a[0], a[1], a[1] + 1)
            dt = same if nd <= 2 and rng.random() < 0.9 else [np.int64, np.float64][rng.integers(0, 2)]
            if rng.random() < 0.03:
                dt = [complex, bool, np.float16, ">f8", object][rng.integers(0, 5)]
            if np.dtype(dt) in [np.dtype(t) for t in NUMS]:
                x = gen_points(rng, a, npts, dt)
            else:
                x = np.zeros(npts).astype(dt)
            if rng.random() < 0.03:
                x = x[: npts // 2]
            if rng.random() < 0.02:
                x = x.reshape(-1, 1)
            xs.append(scramble_layout(rng, x))
        w = gen_weights(rng, npts)[0]
        if rng.random() < 0.1:
            w = np.ones(max(0, npts + int(rng.choice([-1, 1, 3]))))
        if isinstance(w, np.ndarray):
            w = scramble_layout(rng, w)
        for x in xs:
            c.digest.update(np.ascontiguousarray(x).tobytes() if x.dtype != object else b"o")
        c.digest.update(repr((axes, npts)).encode())
        refs = _refs(xs)
        try:
            h.fill(*xs, weights=w)
            what = "ok"
        except (ValueError, TypeError, OverflowError, IndexError, MemoryError) as e:
            what = type(e).__name__
            del e
        except SystemError as e:
            raise Violation("interpreter-corrupted", repr(e))
        gc.collect()
        c.expect(_refs(xs) <= refs, "reference-leak",
                 "the input array is kept after " + what)
        c.calls += 1
        native.count("native_calls")
        native.count("native_outcome_" + what)
        c.expect(h.values.shape == tuple(a[0] for a in axes), "result-shape")
        c.mark("fill", nd, what)


@workload("P01", quick=60, mode="asanh", needs=["histogram"], pure=False)
def hist_upper_edge(c):
    """Values as close as possible to the upper edges, where an index could
    reach the end of the storage."""
    rng = c.rng
    nd = int(rng.integers(1, 4))
    axes, xs = [], []
    npts = 64
    for _ in range(nd):
        n = int(rng.integers(1, 60))
        lo = float(rng.normal() * 10.0 ** rng.uniform(-8, 8))
        hi = lo + float(10.0 ** rng.uniform(-8, 8))
        if not hi > lo:
            hi = np.nextafter(lo, np.inf)
        axes.append((n, lo, float(hi)))
        x = np.full(npts, np.nextafter(hi, lo))
        x[::3] = lo
        x[1::5] = hi
        x[2::7] = lo + (hi - lo) * (1 - 2.0 ** -53)
        xs.append(x)
    h = acc.Histogram(*axes)
    inside = np.ones(npts, bool)
    for x, a in zip(xs, axes):
        inside &= (x >= a[1]) & (x < a[2])
    c.call(h.fill, *xs)
    c.equal(np.sum(h.values), float(inside.sum()), "weight-conservation")
    native.count("native_calls")
    c.mark("upper", nd)


# ------------------------------------------------------------------ P05
STATS = ["mean", "median", "count", "sum", "std"]


def stat_oracle(values, bins, nbins, stat):
    """values, flat bin number (-1: none) -> value per bin, tolerance"""
    out = np.full(nbins, np.nan)
    tol = np.zeros(nbins)
    for b in range(nbins):
        v = values[bins == b].astype(float)
        m = np.abs(v[~np.isnan(v)]).max(initial=0.0)
        tol[b] = (1e-6 if values.dtype == np.float32 else 1e-12 * (v.size + 1)) * m
        if stat == "count":
            out[b] = v.size
        elif stat == "sum":
            out[b] = v.sum()
        elif stat == "std":
            out[b] = v.std() if v.size else 0.0
            tol[b] = 1e-10 * m * (v.size + 1)
        elif callable(stat):
            if v.size:
                out[b] = stat(v)
            else:
                try:
                    out[b] = stat([])
                except Exception:
                    out[b] = np.nan
        elif v.size:
            out[b] = v.mean() if stat == "mean" else np.median(v)
    return out, tol


def span(v):
    return float(np.ptp(v)) if np.ptp(v) else 1.0


def _cov(v):
    return np.max(v) - np.min(v)


def _first_quartile(v):
    return np.percentile(v, 25)


def _strict(v):
    if len(v) == 0:
        raise ValueError("empty")
    return float(np.sort(np.asarray(v))[-1])


def _size(v):
    return len(v)


CALLABLES = [_cov, _first_quartile, _strict, _size]


def gen_binning(rng, x):
    """bins, range, edges"""
    k = rng.integers(0, 3)
    if k == 0:
        n = int(rng.choice([1, 2, 3, 7, 12]))
        lo, hi = x.min(), x.max()
        if lo == hi:
            lo, hi = lo - 0.5, hi + 0.5
        return n, None, lo + (hi - lo) * np.arange(n + 1) / n
    if k == 1:
        n = int(rng.choice([1, 2, 3, 7, 12]))
        s = span(x)
        lo = float(x.min() + s * rng.uniform(-0.3, 0.4))
        hi = float(lo + s * rng.uniform(0.2, 1.2))
        return n, (lo, hi), lo + (hi - lo) * np.arange(n + 1) / n
    n = int(rng.choice([2, 3, 7, 12]))
    s = span(x)
    edges = x.min() + s * np.sort(rng.uniform(-0.2, 1.2, n + 1))
    if rng.random() < 0.5 and len(x) > n:
        e = np.unique(rng.choice(x, size=n + 1, replace=False))
        if len(e) > 2:
            edges = e
    d = np.diff(edges)
    if np.any(d < 1e-3 * s / n):
        edges = x.min() + s * np.arange(n + 1) / n
    return edges, None, edges


def one_binning(x, n):
    lo, hi = x.min(), x.max()
    if lo == hi:
        lo, hi = lo - 0.5, hi + 0.5
    return lo + (hi - lo) * np.arange(n + 1) / n


def bin_of(x, edges, exact):
    """Bin number or -1; which points are too close to an edge to tell."""
    n = len(edges) - 1
    b = np.searchsorted(edges, x, side="right") - 1
    b[x == edges[-1]] = n - 1
    b[~((x >= edges[0]) & (x <= edges[-1]))] = -1
    w = np.diff(edges).min()
    d = np.abs(x[:, None] - edges[None, :])
    amb = (d < 1e-7 * (w + np.abs(edges).max())).any(axis=1)
    amb |= (x > edges[-1]) & (x < edges[-1] + 2e-5 * w)
    if exact:
        amb &= ~(x[:, None] == edges[None, :]).any(axis=1)
    return b, amb


def gen_sample(rng, npts):
    k = rng.integers(0, 4)
    s = 10.0 ** rng.uniform(-2, 3)
    if k == 0:
        return s * rng.random(npts)
    if k == 1:
        return s * rng.normal(size=npts) + s * rng.choice([0, 20])
    if k == 2:
        return rng.integers(-5, 30, npts).astype(float)
    return s * np.sort(rng.exponential(size=npts))


def gen_values(rng, npts):
    k = rng.integers(0, 7)
    if k == 6:
        v = rng.normal(size=npts)
        v[rng.random(npts) < pick(rng, 0.02, 0.2)] = np.nan
        return v
    if k == 0:
        return rng.poisson(4, npts)
    if k == 1:
        return rng.normal(size=npts) * 10.0 ** rng.uniform(-5, 5)
    if k == 2:
        return np.full(npts, 0.1)
    if k == 3:
        return rng.random(npts).astype(np.float32)
    if k == 4:
        return 1e6 + rng.normal(size=npts)
    return rng.integers(0, 255, npts).astype(np.uint8)


def gen_statistic(rng):
    k = rng.integers(0, len(STATS) + 1)
    return STATS[k] if k < len(STATS) else CALLABLES[rng.integers(0, len(CALLABLES))]


def judge_stats(c, obj, cells, nb, nshape, n_calls, npts, base, shape=None):
    rng = c.rng
    for t in range(n_calls):
        v = gen_values(rng, npts)
        st = gen_statistic(rng) if rng.random() < 0.5 else None
        if rng.random() < 0.1:
            base = obj.statistic = gen_statistic(rng)
        use = base if st is None else st
        arg = v if shape is None else v.reshape(shape)
        got = c.call(obj, scramble_layout(rng, arg) if shape is None else arg, *(() if st is None else (st,)))
        want, tol = stat_oracle(v, cells, nb, use)
        nm = use if isinstance(use, str) else "callable"
        c.close(np.asarray(got), want.reshape(nshape), "statistic-" + nm, rtol=1e-9, atol=tol.reshape(nshape))
        c.mark(nm, len(nshape), "empty-bins" if np.any(np.bincount(cells[cells >= 0], minlength=nb) == 0) else "")


@workload("P05", quick=200)
def stat_nd(c):
    rng = c.rng
    D = int(rng.choice([1, 1, 2, 2, 3]))
    npts = int(rng.choice([1, 5, 60, 300]))
    xs = [gen_sample(rng, npts) for _ in range(D)]
    bins, ranges, edges = zip(*[gen_binning(rng, x) for x in xs])
    common = None
    if D > 1 and rng.random() < 0.25:
        # one description of the bins for all dimensions
        b0 = bins[0]
        if np.isscalar(b0) and ranges[0] is None:
            common = int(b0)
            bins, ranges = (common,) * D, (None,) * D
            edges = tuple(one_binning(x, common) for x in xs)
        elif not np.isscalar(b0) and len(b0) > 2 and D == 2:
            common = b0
            bins, ranges, edges = (b0,) * D, (ranges[0],) * D, (edges[0],) * D
        if common is not None:
            c.mark("common-bins", np.isscalar(common), D)
    use_range = any(r is not None for r in ranges)
    for x, b, r, e in zip(xs, bins, ranges, edges):
        if (r is not None or not np.isscalar(b)) and npts > 5:
            # neighbours of the upper edge, and points which are nowhere
            e = np.asarray(e, float)
            far = rng.integers(0, npts, 4)
            x[far] = e[-1] + np.diff(e).min() * 10.0 ** rng.uniform(-4.5, -2, 4)
            if rng.random() < 0.3 and not use_range:
                x[rng.integers(0, npts, 3)] = pick(rng, np.nan, np.inf, -np.inf)
                c.mark("nowhere")
    if use_range:
        # one range argument serves all dimensions
        rr = []
        eds = []
        for x, b, r, e in zip(xs, bins, ranges, edges):
            if r is None and np.isscalar(b):
                r = (float(x.min()), float(x.max() + span(x) * 0.1))
                e = r[0] + (r[1] - r[0]) * np.arange(b + 1) / b
            rr.append(r if r is not None else (0.0, 1.0))
            eds.append(e)
        ranges, edges = rr, eds
    base = gen_statistic(rng)
    mask = None
    keep = np.ones(npts, bool)
    if rng.random() < 0.5:
        keep = rng.random(npts) < rng.choice([0.0, 0.5, 0.9])
    bnum, amb = [], np.zeros(npts, bool)
    for x, b, e in zip(xs, bins, edges):
        k, a = bin_of(x, np.asarray(e, float), not np.isscalar(b))
        bnum.append(k)
        # the smallest and the largest value on their own edges are not in doubt
        if np.isscalar(b) and not use_range:
            a &= ~((x == x.min()) | (x == x.max()))
            k[x == x.max()] = b - 1 if span(x) and np.ptp(x) else k[x == x.max()]
            k[x == x.min()] = 0 if np.ptp(x) else k[x == x.min()]
        amb |= a
    keep &= ~amb
    if not keep.all():
        mask = keep.astype([bool, int, np.uint8][rng.integers(0, 3)])
        if rng.random() < 0.3:
            mask = keep * (rng.choice([1, 2, 255, -1], npts) if rng.random() < 0.5 else rng.uniform(0.1, 3, npts))
            c.mark("mask-of-numbers")
    shape = tuple(len(e) - 1 for e in edges)
    nb = int(np.prod(shape))
    inside = keep.copy()
    for k in bnum:
        inside &= k >= 0
    cells = np.full(npts, -1)
    cells[inside] = np.ravel_multi_index([k[inside] for k in bnum], shape)
    kw = {}
    if use_range:
        kw["range"] = ranges[0] if D == 1 and rng.random() < 0.5 else list(ranges)
    if mask is not None:
        kw["mask"] = mask
    kw["statistic"] = base
    if common is not None:
        obj = (c.call(bs.BinnedStatistic2D, xs[0], xs[1], bins=common, **kw) if D == 2
               else c.call(bs.BinnedStatisticDD, np.stack(xs, axis=1), bins=common, **kw))
    elif D == 1:
        obj = c.call(bs.BinnedStatistic1D, xs[0], bins=bins[0], **kw)
    elif D == 2:
        obj = c.call(bs.BinnedStatistic2D, xs[0], xs[1], bins=list(bins), **kw)
    else:
        obj = c.call(bs.BinnedStatisticDD, np.stack(xs, axis=1), bins=list(bins), **kw)
    ed = [obj.bin_edges] if D == 1 else obj.bin_edges
    ce = [obj.bin_centers] if D == 1 else obj.bin_centers
    for j, e in enumerate(edges):
        e = np.asarray(e, float)
        t = 1e-12 * np.abs(e).max()
        c.close(ed[j], e, "edges", rtol=1e-12, atol=t)
        c.close(ce[j], (e[1:] + e[:-1]) / 2, "centers", rtol=1e-12, atol=t)
    bm = np.asarray(obj.binmap)
    c.expect(bm.shape == (D, npts), "binmap-shape", str(bm.shape))
    for j in range(D):
        ok = keep & ~np.isnan(xs[j])
        want = np.where(bnum[j] >= 0, bnum[j] + 1, np.where(xs[j] < edges[j][0], 0, shape[j] + 1))
        c.equal(bm[j][ok], want[ok], "binmap", detail="dimension %d of %d" % (j, D))
    judge_stats(c, obj, cells, nb, shape, int(rng.integers(1, 5)), npts, base)


@workload("P05", quick=120)
def stat_polar(c):
    """Radial and radial-angular statistics of an image."""
    rng = c.rng
    shape = (int(rng.integers(1, 20)), int(rng.integers(1, 20)))
    if shape == (1, 1):
        shape = (2, 3)
    kw = {}
    origin = ((shape[0] - 1) / 2, (shape[1] - 1) / 2)
    if rng.random() < 0.6:
        origin = tuple(rng.uniform(-4, 22, size=2)) if rng.random() < 0.7 else \
            (int(rng.integers(0, shape[0])), int(rng.integers(0, shape[1])))
        kw["origin"] = origin
    yy, xx = np.mgrid[: shape[0], : shape[1]]
    dy, dx = yy - origin[0], xx - origin[1]
    r = np.hypot(dx, dy)
    phi = np.arctan2(dy, dx)
    if rng.random() < 0.25:
        r = rng.random(shape) * 10
        kw["r_map"] = r
    polar = rng.random() < 0.5
    r, phi = r.ravel(), phi.ravel()
    npts = r.size
    keep = np.ones(npts, bool)
    if rng.random() < 0.5:
        keep = rng.random(npts) < 0.8
    dims = [r, phi] if polar else [r]
    spec, rng_spec, edges, exact = [], [], [], []
    mode = int(rng.integers(0, 3))
    for x in dims:
        n = int(rng.integers(1, 9))
        s = span(x)
        if mode == 0:
            if np.ptp(x) == 0:
                e = x.min() - 0.5 + np.arange(n + 1) / n
            else:
                e = x.min() + s * np.arange(n + 1) / n
            spec.append(n)
        elif mode == 1:
            lo, hi = float(x.min() + s * rng.uniform(-.2, .3)), float(x.max() - s * rng.uniform(-.2, .3))
            hi = max(hi, lo + 0.1 * s)
            e = lo + (hi - lo) * np.arange(n + 1) / n
            spec.append(n)
            rng_spec.append((lo, hi))
        else:
            e = x.min() + s * np.sort(np.linspace(-.1, 1.1, n + 2) + rng.uniform(-.02, .02, n + 2))
            spec.append(e)
        edges.append(np.asarray(e, float))
    bnum = []
    for x, e in zip(dims, edges):
        k, a = bin_of(x, e, False)
        if mode == 0 and np.ptp(x):
            # the extreme values define the outer edges
            top, bot = np.abs(x - x.max()) < 1e-9 * (1 + s), np.abs(x - x.min()) < 1e-9 * (1 + s)
            k[top], k[bot] = len(e) - 2, 0
            a &= ~(top | bot)
        keep &= ~a
        bnum.append(k)
    if not keep.all():
        kw["mask"] = keep.reshape(shape).astype(pick(rng, int, int, bool, float, np.uint8))
    if rng_spec:
        kw["range"] = rng_spec if polar else rng_spec[0]
    base = gen_statistic(rng)
    kw["statistic"] = base
    nshape = tuple(len(e) - 1 for e in edges)
    inside = keep.copy()
    for k in bnum:
        inside &= k >= 0
    cells = np.full(npts, -1)
    cells[inside] = np.ravel_multi_index([k[inside] for k in bnum], nshape)
    if polar:
        obj = c.call(bs.RPhiBinnedStatistic, shape, bins=spec, **kw)
    else:
        obj = c.call(bs.RadialBinnedStatistic, shape, bins=spec[0], **kw)
    judge_stats(c, obj, cells, int(np.prod(nshape)), nshape, int(rng.integers(1, 4)), npts, base, shape)
    c.mark("polar" if polar else "radial", mode, "origin" in kw, "r_map" in kw)


@workload("P05", quick=60)
def stat_conserves(c):
    """Every point inside is in exactly one bin, masked ones in none."""
    rng = c.rng
    shape = (int(rng.integers(2, 30)), int(rng.integers(2, 30)))
    mask = (rng.random(shape) < 0.8).astype(int)
    img = rng.poisson(5, shape).astype(float)
    nb = int(rng.integers(1, 12))
    for cls, bins in ((bs.RadialBinnedStatistic, nb), (bs.RPhiBinnedStatistic, (nb, int(rng.integers(1, 9))))):
        obj = c.call(cls, shape, bins=bins, mask=mask)
        cnt = c.call(obj, img, "count")
        tot = c.call(obj, img, "sum")
        mean = c.call(obj, img, "mean")
        c.equal(np.sum(cnt), float(mask.sum()), "points-lost")
        c.close(np.sum(tot), (img * mask).sum(), "sum-lost", rtol=1e-12)
        with np.errstate(all="ignore"):
            c.close(mean, tot / cnt, "mean-is-not-sum-over-count", rtol=1e-12)
    c.mark("conserve")


@workload("P05", quick=16)
def stat_large(c):
    """more points than 16 bits hold, and two objects used in turn"""
    rng = c.rng
    n = int(rng.integers(66000, 80000))
    nb = int(pick(rng, 2, 7, 300))
    x = rng.integers(0, nb, n)
    y = rng.integers(0, 3, n)
    mask = (rng.random(n) < 0.9).astype(int)
    e, f = np.arange(nb + 1) - 0.5, np.arange(4) - 0.5
    a = c.call(bs.BinnedStatistic1D, x.astype(float), bins=e, statistic="sum")
    b = c.call(bs.BinnedStatistic1D, x.astype(float), bins=e, statistic="sum", mask=mask)
    d = c.call(bs.BinnedStatistic2D, x.astype(float), y.astype(float), bins=[e, f], statistic="count")
    c.equal(a.binmap[0], x + 1, "binmap-of-many")
    c.equal(d.binmap, np.stack([x, y]) + 1, "binmap-of-many")
    for _ in range(3):
        v = rng.integers(0, 1000, n).astype(pick(rng, float, np.int32, np.uint16))
        vf = v.astype(float)
        cnt = np.bincount(x, minlength=nb)
        c.equal(a(v), np.bincount(x, weights=vf, minlength=nb), "sum-of-many")
        c.equal(b(v), np.bincount(x, weights=vf * mask, minlength=nb), "masked-sum-of-many")
        c.equal(d(v), np.bincount(x * 3 + y, minlength=3 * nb).reshape(nb, 3), "count-of-many")
        c.close(a(v, "mean"), np.bincount(x, weights=vf, minlength=nb) / cnt, "mean-of-many", 1e-10)
        c.equal(b(v, "count"), np.bincount(x, weights=mask, minlength=nb), "masked-count-of-many")
        mx = np.zeros(nb)
        np.maximum.at(mx, x, vf)
        if nb < 50:
            c.equal(a(v, np.max), mx, "max-of-many")
    c.mark("large", nb)


@workload("P05", quick=10)
def stat_many_bins(c):
    """more bins than 15 or 16 bits hold, most of them empty"""
    rng = c.rng
    shape = pick(rng, (260, 260), (700, 120), (50, 1500), (45000,), (40, 50, 45), (12, 300, 20), (9, 14, 11, 30))
    n = 2000
    idx = [rng.integers(0, k, n) for k in shape]
    for j, k in enumerate(shape):
        idx[j][:200] = k - 1 - rng.integers(0, min(k, 3), 200)
    keep = rng.random(n) < 0.9
    edges = [np.arange(k + 1) - 0.5 for k in shape]
    if rng.random() < 0.5:
        kw = dict(bins=edges)
    else:
        kw = dict(bins=list(shape), range=[(-0.5, k - 0.5) for k in shape])
    if len(shape) == 1:
        kw = {k: v[0] for k, v in kw.items()}
    if rng.random() < 0.5:
        kw["mask"] = keep
    else:
        keep[:] = True
    xs = [i.astype(float) for i in idx]
    if len(shape) == 1:
        obj = c.call(bs.BinnedStatistic1D, xs[0], **kw)
    elif len(shape) == 2 and rng.random() < 0.5:
        obj = c.call(bs.BinnedStatistic2D, xs[0], xs[1], **kw)
    else:
        obj = c.call(bs.BinnedStatisticDD, np.stack(xs, axis=1), **kw)
    c.equal(np.asarray(obj.binmap)[:, keep], np.stack(idx)[:, keep] + 1, "binmap-of-many-bins")
    cell = np.ravel_multi_index([i[keep] for i in idx], shape)
    nb = int(np.prod(shape))
    cnt = np.bincount(cell, minlength=nb)
    for _ in range(2):
        v = rng.integers(0, 1000, n).astype(pick(rng, float, np.int32))
        tot = np.bincount(cell, weights=v[keep], minlength=nb)
        c.equal(c.call(obj, v, "sum"), tot.reshape(shape), "sum-of-many-bins")
        c.equal(c.call(obj, v, "count"), cnt.reshape(shape), "count-of-many-bins")
        with np.errstate(all="ignore"):
            c.close(c.call(obj, v), (tot / cnt).reshape(shape), "mean-of-many-bins", 1e-12)
        mx = np.full(nb, -np.inf)
        np.maximum.at(mx, cell, v[keep])
        mx[cnt == 0] = np.nan
        c.equal(c.call(obj, v, np.max), mx.reshape(shape), "max-of-many-bins")
    c.mark("many-bins", len(shape))


@workload("P05", quick=40)
def stat_defaults(c):
    """ten bins and the mean, when nothing is said"""
    rng = c.rng
    npts = int(rng.integers(2, 300))
    xs = [rng.normal(size=npts) * 10 ** rng.uniform(-2, 3) for _ in range(3)]
    v = rng.normal(5, 3, npts)
    k = int(rng.integers(0, 5))
    shape = (int(rng.integers(2, 20)), int(rng.integers(2, 20)))
    if k == 0:
        obj, dims = c.call(bs.BinnedStatistic1D, xs[0]), xs[:1]
    elif k == 1:
        obj, dims = c.call(bs.BinnedStatistic2D, xs[0], xs[1]), xs[:2]
    elif k == 2:
        D = int(rng.integers(1, 4))
        dims = xs[:D]
        obj = c.call(bs.BinnedStatisticDD, pick(rng, np.stack(dims, axis=1), list(dims), tuple(dims)))
    else:
        yy, xx = np.mgrid[: shape[0], : shape[1]]
        dy, dx = yy - (shape[0] - 1) / 2, xx - (shape[1] - 1) / 2
        dims = [np.hypot(dx, dy).ravel(), np.arctan2(dy, dx).ravel()][: k - 2]
        obj = c.call(bs.RadialBinnedStatistic if k == 3 else bs.RPhiBinnedStatistic, shape)
        v = rng.normal(5, 3, shape)
        npts = v.size
    D = len(dims)
    got = c.call(obj, v)
    c.expect(np.shape(got) == (10,) * D, "default-bins", lambda: str(np.shape(got)))
    cells = []
    for j, x in enumerate(dims):
        e = one_binning(x, 10)
        b, amb = bin_of(x, e, False)
        t = 1e-9 * (1 + np.abs(x).max())
        top, bot = np.abs(x - x.max()) < t, np.abs(x - x.min()) < t
        if np.ptp(x) < 100 * t:
            raise Skip
        b[top], b[bot] = 9, 0
        if np.any(amb & ~top & ~bot):
            raise Skip
        cells.append(b)
        c.close((obj.bin_edges if D == 1 and k != 2 else obj.bin_edges[j]), e, "default-edges", 1e-9, t)
    cells = np.ravel_multi_index(cells, (10,) * D)
    n = np.bincount(cells, minlength=10 ** D)
    s = np.bincount(cells, v.ravel(), minlength=10 ** D)
    with np.errstate(all="ignore"):
        c.close(np.asarray(got).ravel(), s / n, "default-mean", 1e-9, 1e-9)
    c.mark("defaults", k, D)


@workload("P05", quick=40)
def stat_rejects(c):
    rng = c.rng
    npts = int(rng.integers(3, 20))
    D = int(rng.integers(1, 4))
    wrong = D + int(pick(rng, 1, 2, -1))
    if wrong > 0:
        c.rejects((AttributeError, ValueError), bs.BinnedStatisticDD, rng.random((npts, D)), bins=[4] * wrong)
    o = c.call(bs.BinnedStatisticDD, rng.random((npts, D)), bins=3)
    for st in ("mean", "sum", "std"):
        c.rejects((ValueError,), o, np.ones(npts + int(pick(rng, -1, 1, 3))), st)
    for st in ("max", "variance", "", "Mean", 3):
        c.rejects((ValueError,), o, np.ones(npts), st)
    shape = (int(rng.integers(2, 12)), int(rng.integers(2, 12)))
    k = int(rng.integers(0, 4))
    cls = [bs.RadialBinnedStatistic, bs.RPhiBinnedStatistic][rng.integers(0, 2)]
    if k == 0:
        c.rejects((ValueError,), cls, shape, statistic="nosuch")
    elif k == 1:
        c.rejects((ValueError,), cls, shape, mask=np.ones((shape[0] + 1, shape[1])))
    elif k == 2:
        o = cls(shape)
        for bad in ((shape[0], shape[1] + 1), (shape[0] * shape[1] + 1,), (1,) + shape, (shape[0], 1, shape[1])):
            for st in ("mean", "count", "sum", "median", "std"):
                c.rejects((ValueError,), o, np.ones(bad), st)
    else:
        o = cls(shape)
        def setit():
            o.statistic = "variance"
        c.rejects((ValueError,), setit)
        c.expect(o.statistic == "mean", "statistic-changed-by-rejected-value")
    c.mark("rejects", k)
