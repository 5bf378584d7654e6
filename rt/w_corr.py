"""P08 one-time correlation, P09 two-time correlation, P10 spatial cross
correlation, P27 interrupted and resumed computations, P16 XSVS."""
import copy
import pickle

import numpy as np
from scipy.signal import correlate

from .core import Skip, finding, lazy, scramble_layout, workload
from .w_geom import pick

corr = lazy("skbeam.core.correlation")
utils = lazy("skbeam.core.utils")
speckle = lazy("skbeam.core.speckle")
maskm = lazy("skbeam.core.mask")


def gen_labels(rng, shape, top=4, many=True):
    """labels with gaps in the numbering, regions of any form"""
    n = int(rng.integers(1, top + 1))
    if rng.random() < 0.07:         # many regions
        n = max(1, min(int(rng.integers(5, 29)), int(np.prod(shape))))
    big = many and np.prod(shape) > 600 and rng.random() < 0.15
    if big:                         # more than fit into 8 bits
        n = int(rng.integers(257, 330))
    k = rng.random() if not big else rng.uniform(0.8, 1)
    top = 30 if k < 0.75 else 1000 if k < 0.92 else 70000
    ids = np.arange(1, n + 1) if k < 0.5 else np.sort(rng.choice(np.arange(1, top), n, replace=False))
    lab = np.zeros(shape, int)
    flat = rng.permutation(lab.size)
    if lab.size < n:
        raise Skip
    lab.ravel()[flat[:n]] = ids
    rest = flat[n:]
    k = int(rng.integers(0, len(rest) + 1))
    lab.ravel()[rest[:k]] = rng.choice(ids, k)
    return lab.astype(pick(rng, np.int64, np.int32, np.uint8 if top == 30 else np.int64)), ids


def gen_images(rng, n, shape, positive=False):
    kind = int(rng.integers(0, 4))
    if kind == 0:
        im = rng.poisson(rng.uniform(0.3, 20), (n,) + shape)
        if positive:
            im = im + 1
        im = im.astype(pick(rng, np.int64, np.uint16, np.int32, np.float32, np.uint8))
    elif kind == 1:
        im = rng.uniform(0.01, 1, (n,) + shape) * 10.0 ** rng.uniform(-3, 6)
    elif kind == 2:
        im = 1 + rng.uniform(-0.2, 0.2, (n,) + shape) + 0.3 * np.sin(np.arange(n) / 3.0)[:, None, None]
    else:
        im = rng.exponential(5.0, (n,) + shape) + 1e-3
    return im


def blocks(frames, level):
    """non overlapping means over 2**level frames"""
    f = frames
    for _ in range(level):
        m = len(f) // 2
        f = (f[0: 2 * m: 2] + f[1: 2 * m: 2]) / 2
    return f


def lag_table(levels, bufs):
    """(level, lag within the level, lag in frames)"""
    t = [(0, j, j) for j in range(bufs)]
    for lev in range(1, levels):
        t += [(lev, bufs // 2 + j, (bufs // 2 + j) * 2 ** lev) for j in range(bufs // 2)]
    return t


def g2_reference(images, lab, ids, levels, bufs):
    """g2 by its definition, and the lags; one row per lag which has data"""
    frames = np.array([np.asarray(im, float).ravel() for im in images])
    sel = [np.flatnonzero(lab.ravel() == i) for i in ids]
    anyroi = np.flatnonzero(lab.ravel() > 0)
    rows, lags = [], []
    for lev, k, lag in lag_table(levels, bufs):
        f = blocks(frames, lev)
        num, past, fut = [[] for _ in ids], [[] for _ in ids], [[] for _ in ids]
        for t in range(k, len(f)):
            p, q = f[t - k], f[t]
            if np.isnan(p[anyroi]).any() or np.isnan(q[anyroi]).any():
                continue
            for r, s in enumerate(sel):
                num[r].append(np.mean(p[s] * q[s]))
                past[r].append(np.mean(p[s]))
                fut[r].append(np.mean(q[s]))
        if any(len(x) == 0 or not np.any(x) for x in past):
            break
        with np.errstate(all="ignore"):
            rows.append([np.mean(a) / (np.mean(b) * np.mean(d)) for a, b, d in zip(num, past, fut)])
        lags.append(lag)
    return np.array(rows).reshape(len(lags), len(ids)), np.array(lags)


def gen_case(rng, bad=True, positive=False, cap=40):
    shape = (int(rng.integers(1, 7)), int(rng.integers(1, 7)))
    if rng.random() < 0.02:         # a real detector has more pixels
        shape = (int(rng.integers(20, 110)), int(rng.integers(20, 110)))
    lab, ids = gen_labels(rng, shape)
    levels = int(rng.integers(1, 5))
    bufs = 2 * int(rng.integers(1, 5))
    n = int(rng.integers(1, cap))
    im = gen_images(rng, n, shape, positive)
    if bad and rng.random() < 0.4:
        im = im.astype(float)
        for t in rng.choice(n, int(rng.integers(0, min(4, n) + 1)), replace=False):
            if rng.random() < 0.5:
                im[t] = np.nan
            else:
                im[t, int(rng.integers(0, shape[0])), int(rng.integers(0, shape[1]))] = np.nan
    return shape, lab, ids, levels, bufs, im


def as_stack(rng, im):
    """the images the way a user holds them"""
    return pick(rng, im, list(im), tuple(im), scramble_layout(rng, im), [np.asfortranarray(x) for x in im],
                [scramble_layout(rng, x) for x in im])


# ------------------------------------------------------------------ P08
@workload("P08", quick=200)
def one_time(c):
    rng = c.rng
    shape, lab, ids, levels, bufs, im = gen_case(rng)
    want, lags = g2_reference(im, lab, ids, levels, bufs)
    g2, steps = c.call(corr.multi_tau_auto_corr, levels, bufs, scramble_layout(rng, lab), as_stack(rng, im))
    c.equal(steps, lags.astype(int), "lag-steps")
    c.close(g2, want, "g2", 1e-9)
    if not np.isnan(im.astype(float)).any():
        # an autocorrelation does not depend on the unit of the intensity
        f = float(2.0 ** rng.integers(-8, 9))
        g2s, _ = c.call(corr.multi_tau_auto_corr, levels, bufs, lab, im * f)
        c.close(g2s, want, "g2-scaled", 1e-9)
    c.mark("g2", levels, bufs, len(lags))


@workload("P08", quick=40)
def one_time_long(c):
    """long series, where the buffers wrap around many times"""
    rng = c.rng
    shape, lab, ids, levels, bufs, _ = gen_case(rng)
    n = int(rng.integers(60, 260))
    if rng.random() < 0.5:
        levels, bufs = int(rng.integers(5, 9)), 2 * int(pick(rng, 1, 2, 3, 8, 16))
    im = gen_images(rng, n, shape)
    if rng.random() < 0.5:
        im = im.astype(float)
        im[rng.random(n) < 0.05] = np.nan
    want, lags = g2_reference(im, lab, ids, levels, bufs)
    g2, steps = c.call(corr.multi_tau_auto_corr, levels, bufs, lab, im)
    c.equal(steps, lags.astype(int), "lag-steps")
    c.close(g2, want, "g2-long", 1e-9)
    c.mark("long", levels, bufs, n // 50)


@workload("P08", quick=1, thorough=4)
def one_time_very_long(c):
    """more images than 15 bits count, and more buffers than 8 bits"""
    rng = c.rng
    if c.i % 12 == 0:
        n, levels, bufs = int(rng.integers(32800, 33500)), 1, 2
    elif c.i % 2:
        n, levels, bufs = int(rng.integers(4200, 5000)), int(rng.integers(1, 4)), 2 * int(rng.integers(1, 3))
    else:
        n, levels, bufs = int(rng.integers(300, 700)), int(rng.integers(1, 3)), 2 * int(rng.integers(65, 140))
    lab = np.array([[1, 2, 0, 1]])
    im = rng.poisson(4, (n, 1, 4)) + rng.uniform(0.2, 1) + np.linspace(0, 3, n)[:, None, None]
    bad = np.zeros(n, bool)
    if rng.random() < 0.5:
        bad = rng.random(n) < 0.01
        im[bad] = np.nan
    g2, steps = c.call(corr.multi_tau_auto_corr, levels, bufs, lab, im, _rep=False)
    rows, lags = [], []
    for lev, k, lag in lag_table(levels, bufs):
        f = blocks(im[:, 0, :], lev)
        p, q = f[: len(f) - k], f[k:]
        ok = ~(np.isnan(p[:, 0]) | np.isnan(q[:, 0]))
        if not ok.any():
            break
        p, q = p[ok], q[ok]
        rows.append([np.mean(p[:, s] * q[:, s]) / (np.mean(p[:, s]) * np.mean(q[:, s])) for s in ([0, 3], [1])])
        lags.append(lag)
    c.equal(steps, np.array(lags), "lag-steps")
    c.close(g2, np.array(rows), "g2-very-long", 1e-9)
    c.mark("very-long", levels, bufs > 100, n > 32767)


@workload("P08", quick=60)
def one_time_every_frame(c):
    """the result after each image is that of the images so far"""
    rng = c.rng
    shape, lab, ids, levels, bufs, im = gen_case(rng, cap=24)
    seen = []

    def run(images):
        return [(r.g2, r.lag_steps) for r in corr.lazy_one_time(iter(images), levels, bufs, lab)]

    out = c.call(run, im)
    c.expect(len(out) == len(im), "one-result-per-image", len(out))
    for k in sorted(set(rng.integers(0, len(im), 5).tolist())):
        want, lags = g2_reference(im[: k + 1], lab, ids, levels, bufs)
        c.equal(out[k][1], lags.astype(int), "lag-steps")
        c.close(out[k][0], want, "g2-of-the-images-so-far", 1e-9)
        seen.append(k)
    c.mark("prefix", levels, bufs, len(seen))


@workload("P08", quick=60)
def one_time_regions(c):
    """each region is correlated on its own, whatever the others are"""
    rng = c.rng
    shape, lab, ids, levels, bufs, im = gen_case(rng, bad=False, positive=True)
    if c.i % 10 == 0:       # many regions
        shape = (int(rng.integers(18, 30)), int(rng.integers(18, 30)))
        lab = rng.integers(0, int(rng.integers(100, 400)), shape)
        ids = np.unique(lab[lab > 0])
        im = gen_images(rng, int(rng.integers(2, 10)), shape, True)
    g2, _ = c.call(corr.multi_tau_auto_corr, levels, bufs, lab, im)
    few = range(len(ids)) if len(ids) < 9 else sorted(set(rng.integers(0, len(ids), 6).tolist()) | {len(ids) - 1})
    for k in few:
        i = ids[k]
        one, _ = c.call(corr.multi_tau_auto_corr, levels, bufs, (lab == i).astype(int), im)
        c.close(one[:, 0], g2[:, k], "g2-of-one-region", 1e-9)
    # pixels outside of the regions do not matter
    im2 = im.astype(float)
    im2[:, lab == 0] = pick(rng, np.nan, 1e30, -5.0)
    got, _ = c.call(corr.multi_tau_auto_corr, levels, bufs, lab, im2)
    c.close(got, g2, "g2-uses-the-background", 1e-9)
    c.mark("regions", len(ids))


@workload("P08", quick=40)
def lags_of_multi_tau(c):
    rng = c.rng
    levels, ch = int(rng.integers(1, 10)), 2 * int(rng.integers(1, 12))
    tot, steps, d = c.call(utils.multi_tau_lags, levels, ch)
    t = lag_table(levels, ch)
    c.expect(int(tot) == len(t) == len(steps), "number-of-lags", (tot, len(t)))
    c.equal(steps, np.array([x[2] for x in t]), "lag-steps")
    c.expect(sorted(d) == list(range(1, levels + 1)), "lag-levels")
    for lev in range(levels):
        c.equal(np.asarray(d[lev + 1]), np.array([x[2] for x in t if x[0] == lev]), "lags-of-level")
    c.rejects(ValueError, utils.multi_tau_lags, levels, ch - 1)
    lab = np.ones((2, 2), int)
    c.rejects(ValueError, corr.multi_tau_auto_corr, levels, ch + 1, lab, [np.ones((2, 2))])
    c.rejects(ValueError, corr.two_time_corr, lab, [np.ones((2, 2))], 1, ch + 1)
    c.mark("lags", levels, ch)


@workload("P08", quick=40)
def scattering_factor(c):
    rng = c.rng
    t = np.sort(rng.uniform(0, 50, int(rng.integers(1, 30))))
    if rng.random() < 0.4:          # lag steps
        t = np.rint(t).astype(pick(rng, np.int64, np.int32, float))
    beta, g, base = float(rng.uniform(0, 1)), float(10 ** rng.uniform(-4, 1)), float(rng.uniform(0.5, 2))
    c.close(c.call(corr.auto_corr_scat_factor, t, beta, g, base), base + beta * np.exp(-g * t) ** 2, "model", 1e-10)
    c.close(c.call(corr.auto_corr_scat_factor, t, beta, g), 1 + beta * np.exp(-g * t) ** 2, "model", 1e-10)


@workload("P08", quick=40)
def one_time_bad_images(c):
    """bad images through the generator of the mask module"""
    rng = c.rng
    shape, lab, ids, levels, bufs, im = gen_case(rng, bad=False, positive=True)
    n = len(im)
    bad = [int(v) for v in rng.choice(n, int(rng.integers(0, min(5, n))), replace=False)]
    f = im.astype(float)
    f[bad] = np.nan
    want, lags = g2_reference(f, lab, ids, levels, bufs)
    if not len(lags):
        raise Skip

    def run(images, bad_list):
        return corr.multi_tau_auto_corr(levels, bufs, lab, maskm.bad_to_nan_gen(images, bad_list))

    g2, steps = c.call(run, im, bad)
    c.equal(steps, lags.astype(int), "lag-steps")
    c.close(g2, want, "g2-without-bad-images", 1e-9)
    c.mark("bad", len(bad), levels)


# ------------------------------------------------------------------ P09
def two_time_reference(im, lab, ids, nf, levels, bufs):
    frames = np.array([np.asarray(x, float).ravel() for x in im])
    sel = [np.flatnonzero(lab.ravel() == i) for i in ids]
    g = np.zeros((len(ids), nf, nf))
    for lev, k, lag in lag_table(levels, bufs):
        f, w = blocks(frames, lev), 2 ** lev
        for t in range(k, len(f)):
            p, q = f[t - k], f[t]
            for r, s in enumerate(sel):
                with np.errstate(all="ignore"):
                    v = np.mean(p[s] * q[s]) / (np.mean(p[s]) * np.mean(q[s]))
                for j in range(w):
                    a, b = t * w + j, (t - k) * w + j
                    g[r, a, b] = g[r, b, a] = v
    return g


@workload("P09", quick=140)
def two_time(c):
    rng = c.rng
    shape, lab, ids, levels, bufs, im = gen_case(rng, bad=False, positive=True)
    n = len(im)
    nf = n if rng.random() < 0.7 else n + int(rng.integers(1, 6))
    want = two_time_reference(im, lab, ids, nf, levels, bufs)
    how = (bufs, levels) if levels > 1 else (bufs,)
    r = c.call(corr.two_time_corr, lab, as_stack(rng, im), nf, *how)
    c.close(r.g2, want, "two-time", 1e-9)
    c.equal(r.g2, np.swapaxes(r.g2, 1, 2), "two-time-symmetry")
    c.equal(r.lag_steps, np.array([x[2] for x in lag_table(levels, bufs)]), "lag-steps")
    c.rejects(ValueError, corr.two_time_corr, lab, im, n, bufs + 1, levels)
    c.mark("two-time", levels, bufs, n > 2 * bufs)


@workload("P09", quick=14)
def two_time_deep(c):
    """many levels, and buffers which wrap around many times"""
    rng = c.rng
    shape = (int(rng.integers(1, 4)), int(rng.integers(1, 4)))
    lab, ids = gen_labels(rng, shape)
    levels, bufs = int(rng.integers(4, 8)), 2 * int(pick(rng, 1, 2, 2, 3))
    n = int(rng.integers(40, 200))
    im = gen_images(rng, n, shape, True)
    want = two_time_reference(im, lab, ids, n, levels, bufs)
    r = c.call(corr.two_time_corr, lab, im, n, bufs, levels)
    c.close(r.g2, want, "two-time-deep", 1e-9)
    c.equal(r.lag_steps, np.array([x[2] for x in lag_table(levels, bufs)]), "lag-steps")
    c.mark("two-time-deep", levels, bufs, n // 50)


@workload("P09", quick=60)
def two_time_full(c):
    """one level with room for all frames: the definition for each pair"""
    rng = c.rng
    shape = (int(rng.integers(1, 7)), int(rng.integers(1, 7)))
    if c.i % 20 == 7:
        shape = (int(rng.integers(90, 140)), int(rng.integers(90, 140)))
    lab, ids = gen_labels(rng, shape)
    n = 2 * int(rng.integers(1, 10))
    im = gen_images(rng, n, shape, True)
    if rng.random() < 0.2:      # negative values, means well above zero
        im = rng.normal(0, 6, (n,) + shape)
        for i in ids:
            im[:, lab == i] += (1 - im[:, lab == i].mean(axis=1))[:, None]
    r = c.call(corr.two_time_corr, lab, im, n, n)
    for k, i in enumerate(ids):
        v = im[:, lab == i].astype(float)
        m = v.mean(axis=1)
        c.close(r.g2[k], (v @ v.T) / v.shape[1] / np.outer(m, m), "two-time-pairs", 1e-9)
    one = c.call(corr.one_time_from_two_time, r.g2)
    want = np.array([[np.mean(np.diagonal(g, j)) for j in range(n)] for g in r.g2])
    c.close(one, want, "one-time-from-two-time", 1e-9)
    # swapping the order of the images reverses both times
    b = c.call(corr.two_time_corr, lab, im[::-1], n, n)
    c.close(b.g2, r.g2[:, ::-1, ::-1], "two-time-reversed", 1e-9)
    c.mark("pairs", len(ids), n)


@workload("P09", quick=80)
def one_from_two(c):
    rng = c.rng
    k, n = c.n(1, 4, 12), c.n(1, 14, 90)
    g = rng.uniform(0.5, 2, (k, n, n))
    g = (g + np.swapaxes(g, 1, 2)) / 2
    if rng.random() < 0.3:          # pairs which never lit up
        z = rng.random((n, n)) < 0.2
        g[:, z | z.T] = 0.0
    if rng.random() < 0.4 and n > 2:
        a, b = int(rng.integers(0, n)), int(rng.integers(0, n))
        if a - b not in (n - 1, 1 - n):
            g[:, a, b] = g[:, b, a] = np.nan
    one, err = c.call(corr.one_time_from_two_time, g, True)
    want, we = np.zeros((k, n)), np.zeros((k, n))
    for r in range(k):
        for j in range(n):
            d = np.array([g[r, t, t + j] for t in range(n - j)])
            ok = d[~np.isnan(d)]
            if not len(ok):
                raise Skip
            want[r, j] = ok.mean()
            we[r, j] = np.std(ok) / np.sqrt(len(d))
    c.close(one, want, "one-time-from-two-time", 1e-9)
    if not np.isnan(g).any():
        c.close(err, we, "one-time-error", 1e-7, 1e-12)
    c.close(c.call(corr.one_time_from_two_time, g), one, "one-time-without-errors", 1e-12)
    c.mark("diag", n)


# ------------------------------------------------------------------ P10
def gen_region(rng, ndim):
    shape = tuple(int(v) for v in rng.integers(1, 13, ndim))
    if rng.random() < 0.03:         # wider than 8 bits
        shape = tuple(int(v) for v in rng.permutation([int(rng.integers(257, 400)), 3])[:ndim])
    elif rng.random() < 0.01 * (4 - ndim):
        shape = tuple(int(v) for v in rng.integers(30, 65 if ndim > 1 else 1500, ndim))
    kind = int(rng.integers(0, 4))
    if kind == 0:
        return shape, None, np.ones(shape, int)
    if kind == 1:
        m = (rng.random(shape) < rng.uniform(0.2, 1)).astype(int)
    else:
        m, _ = gen_labels(rng, shape, many=False)
        m = m.astype(int)
    if not m.any():
        m.ravel()[int(rng.integers(0, m.size))] = 1
    user = m.astype(pick(rng, np.int64, np.uint8 if m.max() < 256 else np.uint32, np.float64))
    if kind == 1 and rng.random() < 0.3:
        user = m.astype(bool)
    return shape, user, m


def corr_reference(m, a, b, i, norms, method="direct"):
    """(values, doubtful) of the correlation of region i"""
    sel = m == i
    box = tuple(slice(v.min(), v.max() + 1) for v in np.nonzero(sel))
    w = sel[box].astype(float)
    x = np.where(sel, a, 0)[box].astype(float)
    y = np.where(sel, b, 0)[box].astype(float)
    cc = correlate(x, y, method=method)
    n = np.rint(correlate(w, w, method=method))
    out = cc.copy()
    with np.errstate(all="ignore"):
        if "symavg" in norms:
            out = out * n / (correlate(x, w, method=method) * correlate(w, y, method=method))
        if "regular" in norms:
            out = out / (n * x[w > 0].mean() * y[w > 0].mean())
    out[n == 0] = np.nan
    return out, n


@workload("P10", quick=220)
def cross_correlation(c):
    rng = c.rng
    ndim = int(rng.integers(1, 3))
    shape, user, m = gen_region(rng, ndim)
    a = rng.uniform(0.5, 3, shape) * 10 ** rng.uniform(-6, 6)
    if rng.random() < 0.4:
        a = np.ceil(np.minimum(a, 6e4)).astype(pick(rng, np.int64, np.uint16, np.float32))
    b = None if rng.random() < 0.4 else rng.uniform(0.5, 3, shape) * 10 ** rng.uniform(-6, 6)
    norm = pick(rng, None, "regular", "symavg", ["regular"], ["symavg"], ["symavg", "regular"])
    names = ["regular"] if norm is None else [norm] if isinstance(norm, str) else norm
    if rng.random() < 0.5:
        cc = c.call(corr.CrossCorrelator, shape, mask=user, normalization=norm, _rep=False)
        got = c.call(cc, scramble_layout(rng, a), b)
    else:
        cc = c.call(corr.CrossCorrelator, shape, mask=user, _rep=False)
        got = c.call(cc, a, b, normalization=norm)
    ids = [i for i in np.unique(m) if i]
    pos, cen = cc.positions, cc.centers
    if len(ids) == 1:
        got, pos, cen = [got], [pos], [cen]
    c.expect(len(got) == len(ids) == cc.nids, "one-correlation-per-region", (len(got), len(ids)))
    for g, p, z, i in zip(got, pos, cen, ids):
        want, n = corr_reference(m, a, a if b is None else b, i, names)
        c.equal(np.isnan(g), np.isnan(want), "overlap")
        top = np.nanmax(np.abs(want))
        # round-off of a Fourier transform: absolute, over the number of pairs
        c.close(g, want, "correlation", 1e-7, 1e-9 * top * np.nanmax(n))
        ax = [p] if ndim == 1 else p
        for d in range(ndim):
            h = want.shape[d] // 2
            c.equal(np.asarray(ax[d]), np.arange(-h, h + 1), "positions")
            c.expect(int(np.asarray(z).ravel()[-ndim:][d]) == h, "center")
    c.mark("cc", ndim, b is None, len(ids), tuple(names))


@workload("P10", quick=1, thorough=6)
def cross_correlation_large(c):
    """as many pixels as a detector has"""
    rng = c.rng
    shape = (int(rng.integers(257, 330)), int(rng.integers(257, 330)))
    m = np.zeros(shape, int)
    for k in range(int(rng.integers(1, 5))):
        r = sorted(int(v) for v in rng.choice(shape[0] + 1, 2, replace=False))
        q = sorted(int(v) for v in rng.choice(shape[1] + 1, 2, replace=False))
        m[r[0]:r[1], q[0]:q[1]] = pick(rng, 1, 2, 300)
    m[m == 0] = pick(rng, 4, 7)
    a, b = rng.uniform(0.5, 3, shape), rng.uniform(0.5, 3, shape)
    cc = c.call(corr.CrossCorrelator, shape, mask=m, _rep=False)
    got = c.call(cc, a, b, _rep=False)
    ids = [i for i in np.unique(m) if i]
    got = [got] if len(ids) == 1 else got
    c.expect(len(got) == len(ids), "one-correlation-per-region", (len(got), len(ids)))
    for g, i in zip(got, ids):
        want, n = corr_reference(m, a, b, i, ["regular"], "fft")
        c.equal(np.isnan(g), np.isnan(want), "overlap-large")
        c.close(np.where(n > 50, g, 0), np.where(n > 50, want, 0), "correlation-large", 1e-6, 1e-6)
    c.mark("large", len(ids))


@workload("P10", quick=80)
def cross_correlation_shift(c):
    """the maximum is at the displacement between the two images"""
    rng = c.rng
    ndim = int(rng.integers(1, 3))
    shape = tuple(c.n(9, 30, 90) for _ in range(ndim))
    far = 3 if rng.random() < 0.8 else min(shape) // 2 - 1
    s = [int(rng.integers(-far, far + 1)) for _ in shape]
    a = np.zeros(shape)
    a[tuple(slice(far, n - far) for n in shape)] = rng.uniform(0, 1, tuple(n - 2 * far for n in shape)) + 0.1
    b = np.roll(a, s, tuple(range(ndim)))
    cc = c.call(corr.CrossCorrelator, shape, _rep=False)
    g = c.call(cc, b, a)
    n = correlate(np.ones(shape), np.ones(shape), method="direct")
    raw = np.where(np.isnan(g), -np.inf, g * np.rint(n))
    k = np.unravel_index(np.argmax(raw), g.shape)
    pos = [cc.positions] if ndim == 1 else cc.positions
    c.expect([int(p[j]) for p, j in zip(pos, k)] == s, "shift", lambda: (k, s))
    # the correlation of the swapped images is reversed
    r = c.call(cc, a, b)
    c.close(r, g[tuple(slice(None, None, -1) for _ in shape)], "swapped", 1e-7, 1e-9 * np.nanmax(g) * a.size)
    c.mark("shift", ndim, tuple(s))


@workload("P10", quick=40)
def cross_correlation_reuse(c):
    """one correlator for many images: the order of the calls does not matter"""
    rng = c.rng
    ndim = int(rng.integers(1, 3))
    shape, user, m = gen_region(rng, ndim)
    cc = c.call(corr.CrossCorrelator, shape, mask=user, _rep=False)
    ims = [rng.uniform(0.5, 3, shape) for _ in range(3)]
    first = [c.call(cc, x) for x in ims]
    c.call(cc, ims[0], ims[1], normalization="symavg")
    for x, f in list(zip(ims, first))[::-1]:
        again = c.call(cc, x)
        fresh = c.call(c.call(corr.CrossCorrelator, shape, mask=user, _rep=False), x)
        for u, v, w in zip(*[q if isinstance(q, list) else [q] for q in (f, again, fresh)]):
            c.equal(u, v, "reuse")
            c.equal(u, w, "reuse-fresh")
    bad = tuple(n + 1 for n in shape)
    c.rejects(ValueError, cc, np.ones(bad))
    c.rejects(ValueError, cc, np.ones(shape), np.ones(bad))
    c.mark("reuse", ndim)


@workload("P10", quick=10)
def cross_correlation_invalid(c):
    n = int(c.rng.integers(1, 99))
    c.note(n)
    c.rejects(ValueError, corr.CrossCorrelator, (3, 3, n))
    c.mark("invalid")


# ------------------------------------------------------------------ P16
def xsvs_reference(sets, lab, ids, levels, max_cts):
    """mean and standard deviation over the images of a set, then over sets"""
    P = [[[] for _ in ids] for _ in range(levels)]
    Q = [[[] for _ in ids] for _ in range(levels)]
    for ims in sets:
        f = np.array([np.asarray(x, float).ravel() for x in ims])
        for lev in range(levels):
            w = 2 ** lev
            edges = np.arange(max_cts * w)
            hs = [[] for _ in ids]
            for k in range(len(f) // w):
                s = f[k * w: (k + 1) * w].sum(axis=0)
                if np.isnan(s[lab.ravel() > 0]).any():
                    continue
                for r, i in enumerate(ids):
                    v = s[lab.ravel() == i]
                    n = len(edges) - 1
                    v = v[(v >= 0) & (v <= edges[-1])]
                    h = np.bincount(np.minimum(v.astype(int), n - 1), minlength=n).astype(float)
                    hs[r].append(h / h.sum() if h.sum() else h)
            for r in range(len(ids)):
                if not hs[r]:
                    raise Skip
                P[lev][r].append(np.mean(hs[r], axis=0))
                Q[lev][r].append(np.mean(np.square(hs[r]), axis=0))
    mean = [[np.mean(P[a][b], axis=0) for b in range(len(ids))] for a in range(levels)]
    std = [[np.sqrt(np.maximum(np.mean(Q[a][b], axis=0) - mean[a][b] ** 2, 0)) for b in range(len(ids))]
           for a in range(levels)]
    return mean, std


@workload("P16", quick=160)
def xsvs_distributions(c):
    rng = c.rng
    shape = (c.n(1, 7, 60), c.n(1, 7, 60)) if c.i % 6 else (int(rng.integers(8, 20)), int(rng.integers(8, 20)))
    lab, ids = gen_labels(rng, shape)
    n = int(rng.integers(2, 22)) if c.i % 15 else int(rng.integers(120, 300))
    nsets = int(rng.integers(1, 4)) if rng.random() < 0.8 else int(rng.integers(4, 10))
    sets = [rng.poisson(rng.uniform(0.3, 4), (n,) + shape).astype(pick(rng, float, np.int64, float))
            for _ in range(nsets)]
    if rng.random() < 0.12:         # bright images of narrow types
        sets = [rng.integers(60, 250, (n,) + shape).astype(np.uint8) for _ in range(nsets)]
        n = min(n, 9)
        sets = [s[:n] for s in sets]
    elif rng.random() < 0.04:       # counts of several thousand
        n = min(n, 5)
        sets = [rng.integers(1, 5000, (n,) + shape).astype(pick(rng, np.uint16, np.int64, float)) for _ in range(nsets)]
    elif rng.random() < 0.35:
        sets = [s.astype(float) for s in sets]
        for s in sets:
            s[rng.choice(n, int(rng.integers(0, min(5, n))), replace=False)] = np.nan
        if rng.random() < 0.5:      # only some of the pixels are bad
            s = sets[int(rng.integers(0, nsets))]
            s[int(rng.integers(0, n)), int(rng.integers(0, shape[0])), int(rng.integers(0, shape[1]))] = np.nan
    nimg = int(rng.integers(2, n + 1))
    if any(np.isnan(s[:, lab > 0]).all() for s in sets):
        raise Skip
    top = int(max(np.nanmax(s[:, lab > 0]) for s in sets))
    auto = rng.random() < 0.5 and not any(np.isnan(s).any() for s in sets)
    mc = top if auto else int(rng.integers(2, top + 6))
    if mc < 2:
        raise Skip
    levels = len([k for k in range(12) if 2 ** k < nimg])
    if 2 ** levels == nimg:
        # equality: whether the last integration time is included
        pass
    user = list(sets) if rng.random() < 0.5 else tuple(sets)
    mean, std = c.call(speckle.xsvs, user, lab, nimg, **({} if auto else {"max_cts": mc}))
    if mean.shape[0] > levels and 2 ** levels == nimg:
        levels += 1
    c.expect(mean.shape == (levels, len(ids)), "number-of-times", lambda: (mean.shape, levels, nimg))
    wm, ws = xsvs_reference(sets, lab, ids, levels, mc)
    for a in range(levels):
        for b in range(len(ids)):
            c.close(np.asarray(mean[a, b], float), wm[a][b], "photon-distribution", 1e-9, 1e-12)
            c.close(np.asarray(std[a, b], float), ws[a][b], "photon-distribution-std", 1e-6, 1e-7)
    c.mark("xsvs", levels, nsets, len(ids), auto)


@workload("P16", quick=60)
def xsvs_bins(c):
    rng = c.rng
    nt, nr, mc = int(rng.integers(1, 6)), int(rng.integers(1, 5)), int(rng.integers(2, 20))
    m = rng.uniform(0.2, 9, nr) if rng.random() < 0.7 else 10 ** rng.uniform(-6, 5, nr)
    e, z = c.call(speckle.normalize_bin_edges, nt, nr, m, mc)
    c.expect(e.shape == z.shape == (nt, nr), "bins-shape")
    for i in range(nt):
        for j in range(nr):
            k = np.arange(mc * 2 ** i) / (m[j] * 2 ** i)
            c.close(np.asarray(e[i, j], float), k, "normalized-edges", 1e-12)
            c.close(np.asarray(z[i, j], float), (k[1:] + k[:-1]) / 2, "normalized-centers", 1e-12)
    c.mark("bins", nt)


@workload("P16", quick=60)
def integration_times(c):
    rng = c.rng
    ratio, n = int(rng.integers(2, 6)), int(rng.integers(2, 3000))
    first = int(rng.integers(1, 4))
    if first >= n:
        raise Skip
    got = list(c.call(utils.geometric_series, ratio, n, first))
    want = [first * ratio ** k for k in range(40) if first * ratio ** k <= n]
    if want[-1] == n:       # documented as included, the code leaves it out; either
        c.expect(got in (want, want[:-1]), "geometric-series", got)
    else:
        c.expect(got == want, "geometric-series", got)
    c.mark("series", ratio)


@finding("P16", "timebin-not-two")
def xsvs_timebin():
    im = np.zeros((9, 1, 2))
    im[:, 0, 0] = 1
    m, _ = speckle.xsvs([im], np.ones((1, 2), int), 9, timebin_num=3, max_cts=5)
    # three frames of one count: 3 photons in half of the pixels
    return float(np.asarray(m[1, 0])[3]) != 0.5


# ------------------------------------------------------------------ P27
def split(rng, n):
    k = int(rng.integers(1, 5))
    cuts = sorted(rng.integers(0, n + 1, k - 1).tolist()) if k > 1 else []
    b = [0] + cuts + [n]
    return [(x, y) for x, y in zip(b[:-1], b[1:])]


def clone(rng, s):
    """the state as it was handed over, or as it was stored and loaded"""
    k = int(rng.integers(0, 3))
    if k == 0:
        return s
    if k == 1:
        return copy.deepcopy(s)
    try:
        return pickle.loads(pickle.dumps(s))
    except Exception:
        return copy.deepcopy(s)


@workload("P27", quick=160, pure=False)
def resume_one_time(c):
    rng = c.rng
    shape, lab, ids, levels, bufs, im = gen_case(rng, cap=40)
    c.note(im, lab, levels, bufs)
    whole = [r for r in c.call(lambda: [(r.g2, r.lag_steps) for r in corr.lazy_one_time(im, levels, bufs, lab)])]
    state, got = None, []
    for a, b in split(rng, len(im)):
        g = corr.lazy_one_time(iter(im[a:b]), levels, bufs, lab, internal_state=state)
        kept = None
        for r in g:
            got.append((r.g2, r.lag_steps))
            kept = r.internal_state
        if kept is not None:
            state = clone(rng, kept)
    c.expect(len(got) == len(whole), "results-after-resuming", (len(got), len(whole)))
    for (u, v), (w, z) in zip(got, whole):
        c.equal(v, z, "resumed-lags")
        c.close(u, w, "resumed-g2", 1e-10)
    want, lags = g2_reference(im, lab, ids, levels, bufs)
    c.close(got[-1][0], want, "resumed-g2-definition", 1e-9)
    c.mark("one-time", levels, bufs)


@workload("P27", quick=100, pure=False)
def resume_two_time(c):
    rng = c.rng
    shape, lab, ids, levels, bufs, im = gen_case(rng, bad=False, positive=True)
    c.note(im, lab, levels, bufs)
    n = len(im)
    want = two_time_reference(im, lab, ids, n, levels, bufs)
    state = None
    for a, b in split(rng, n):
        for s in c.call(lambda: list(corr.lazy_two_time(lab, im[a:b], n, bufs, levels,
                                                       two_time_internal_state=state)), _rep=False):
            kept = s
        if b > a:
            state = clone(rng, kept)
            if rng.random() < 0.4:      # look at the result half way
                half = corr.two_time_state_to_results(clone(rng, state))
                w = two_time_reference(im[:b], lab, ids, n, levels, bufs)
                c.close(half.g2, w, "two-time-half-way", 1e-9)
    r = corr.two_time_state_to_results(state)
    c.close(r.g2, want, "resumed-two-time", 1e-9)
    c.mark("two-time", levels, bufs)


@workload("P27", quick=60, pure=False)
def interleaved(c):
    """computations which run at the same time do not see each other"""
    rng = c.rng
    cases = [gen_case(rng, bad=k == 0, positive=True, cap=20) for k in range(3)]
    for x in cases:
        c.note(x[5], x[1], x[3], x[4])
    gens = [corr.lazy_one_time(iter(x[5]), x[3], x[4], x[1]) for x in cases]
    last, live = [None] * 3, [0, 1, 2]
    while live:
        k = int(rng.choice(live))
        try:
            r = next(gens[k])
            last[k] = (r.g2, r.lag_steps)
        except StopIteration:
            live.remove(k)
    c.calls += 3
    for k, (shape, lab, ids, levels, bufs, im) in enumerate(cases):
        want, lags = g2_reference(im, lab, ids, levels, bufs)
        c.equal(last[k][1], lags.astype(int), "interleaved-lags")
        c.close(last[k][0], want, "interleaved-g2", 1e-9)
    c.mark("interleaved")


@workload("P27", quick=60, pure=False)
def results_stay(c):
    """a result which was handed out stays as it is while the run goes on"""
    rng = c.rng
    shape, lab, ids, levels, bufs, im = gen_case(rng, cap=30)
    c.note(im, lab, levels, bufs)
    kept = []
    for r in corr.lazy_one_time(im, levels, bufs, lab):
        kept.append((r.g2, r.g2.copy(), r.lag_steps, r.lag_steps.copy()))
    c.calls += 1
    for g, h, s, t in kept:
        c.equal(g, h, "result-overwritten")
        c.equal(s, t, "result-overwritten")
    c.mark("stay", levels)
