"""P01 memory safety of the compiled code (q conversion and gridder),
P02 independence of the number and timing of threads,
P03 gridding, P06 conversion to reciprocal space."""
import gc
import sys
import threading
import tracemalloc

import numpy as np

from . import core, native
from .core import Skip, Violation, lazy, scramble_layout, workload

utils = lazy("skbeam.core.utils")
recip = lazy("skbeam.core.recip")


def gridded(a, b):
    """two runs of the gridder, which may add in another order"""
    if not isinstance(a, (tuple, list)):
        return core._alike(a, b)
    top = float(np.nanmax(np.abs(a[0]), initial=0))
    return core._alike(a[:2], b[:2]) and core._alike(a[3:], b[3:]) and np.shape(a[2]) == np.shape(b[2]) \
        and bool(np.allclose(a[2], b[2], rtol=1e-3, atol=1e-6 * top, equal_nan=True))


EPS = np.finfo(float).eps


# --------------------------------------------------------------- oracles
def grid_oracle(q, I, keep, lo, hi, n):
    """Occupancy, mean and standard error, point by point; None when a point is
    too close to a voxel face to say where it belongs."""
    q = np.asarray(q, dtype=float)
    I = np.asarray(I, dtype=float).ravel()
    lo, hi, n = (np.asarray(v) for v in (lo, hi, n))
    n = n.astype(int)
    rel = (q.astype(np.longdouble) - lo) / (hi.astype(np.longdouble) - lo) * n
    near = np.rint(rel)
    exact = (q - lo) / (hi - lo) * n
    fuzzy = (np.abs(rel - near) < 1e-7) & (rel != near)
    # points exactly on a face are fine when the arithmetic is exact
    fuzzy |= (rel == near) & (exact != rel.astype(float))
    idx = np.floor(rel).astype(np.int64)
    inside = np.all((rel >= 0) & (rel < n), axis=1)
    ok = keep & ~np.isnan(I) & np.all(np.isfinite(q), axis=1)
    inside &= ok
    amb = np.any(fuzzy, axis=1) & ok & np.all((rel > -0.5) & (rel < n + 0.5), axis=1)
    if np.any(amb):
        return None
    flat = np.ravel_multi_index(idx[inside].T, n)
    size = int(np.prod(n))
    occ = np.bincount(flat, minlength=size)
    v = I[inside]
    total = np.zeros(size)
    mag = np.zeros(size)
    np.add.at(total, flat, v)
    np.add.at(mag, flat, np.abs(v))
    with np.errstate(all="ignore"):
        mean = total / occ
        dev = np.zeros(size)
        np.add.at(dev, flat, (v - mean[flat]) ** 2)
        sq = np.zeros(size)
        np.add.at(sq, flat, v ** 2)
        se = np.where(occ > 0, np.sqrt(dev / occ) / np.sqrt(occ), 0.0)
        # the error of computing the variance from sums
        se_tol = np.where(occ > 0, np.sqrt(64 * EPS * (occ + 8) * sq / occ) / np.sqrt(occ), 0.0)
        mean_tol = np.where(occ > 0, 16 * EPS * mag, 0.0)
    r = lambda a: a.reshape(n)
    return r(occ), r(mean), r(se), r(mean_tol), r(se_tol), int(inside.sum())


def q_oracle(angles, size, pix, cen, dist, lam, ub, mode):
    ang = np.deg2rad(np.atleast_2d(np.asarray(angles, dtype=float)))
    ncol, nrow = size
    out = []
    ubinv = np.linalg.inv(np.asarray(ub, dtype=float))
    col, row = np.meshgrid(np.arange(ncol), np.arange(nrow))
    k = 2 * np.pi / lam
    for delta, theta, chi, phi, mu, gamma in ang:
        de = delta - np.arctan((row - cen[1]) * pix[1] / dist)
        ga = gamma - np.arctan((col - cen[0]) * pix[0] / dist)
        q = np.stack([-np.sin(ga) - np.sin(mu),
                      np.cos(de - theta) * np.cos(ga) - np.cos(theta) * np.cos(mu),
                      np.sin(de - theta) * np.cos(ga) + np.sin(theta) * np.cos(mu)], axis=-1) * k
        q = q.reshape(-1, 3)
        if mode != "theta":
            cc, sc, cp, sp = np.cos(chi), np.sin(chi), np.cos(phi), np.sin(phi)
            r = np.array([[cc, 0, -sc], [sp * sc, cp, sp * cc], [cp * sc, -sp, cp * cc]])
            q = q @ r.T
        if mode == "hkl":
            m = np.stack([-ubinv[:, 2], ubinv[:, 1], ubinv[:, 0]], axis=1)
            q = q @ m.T
        out.append(q)
    return np.concatenate(out) if out else np.zeros((0, 3)), k, ubinv


# ------------------------------------------------------------ generators
def gen_stack(rng, big=False):
    shape = tuple(rng.integers(1, (9, 40, 40)[0] if not big else 30, size=3))
    return shape


def gen_grid(rng, max_pts=6000):
    shape = (int(rng.integers(1, 6)), int(rng.integers(1, 35)), int(rng.integers(1, 35)))
    npts = int(np.prod(shape))
    n = tuple(int(v) for v in rng.integers(1, 13, size=3))
    if rng.random() < 0.15:
        n = (1, 1, 1)
    elif rng.random() < 0.05:       # many voxels
        n = tuple(int(v) for v in rng.permutation([int(rng.integers(1, 4)), int(rng.integers(30, 200)),
                                                   int(rng.integers(1, 40 if rng.random() < 0.7 else 400))]))
    scale = 10.0 ** rng.uniform(-3, 4, size=3)
    off = rng.normal(size=3) * scale * rng.choice([0, 1, 50])
    kind = rng.choice(["uniform", "normal", "shell", "lattice", "cluster"])
    if kind == "uniform":
        q = rng.random((npts, 3))
    elif kind == "normal":
        q = rng.normal(size=(npts, 3))
    elif kind == "shell":
        q = rng.normal(size=(npts, 3))
        q /= np.linalg.norm(q, axis=1, keepdims=True)
    elif kind == "lattice":
        q = rng.integers(0, 9, size=(npts, 3)) + 0.1 + 0.01 * rng.random((npts, 3))
    else:
        q = np.repeat(rng.random((1 + npts // 20, 3)), 20, axis=0)[:npts]
    q = q * scale + off
    inten = gen_intensity(rng, npts).reshape(shape)
    return q, inten, n, kind


def gen_intensity(rng, npts):
    k = rng.integers(0, 6)
    if k == 0:
        v = rng.poisson(3, npts).astype(float)
    elif k == 1:
        v = rng.normal(size=npts) * 10.0 ** rng.uniform(-6, 6)
    elif k == 2:
        v = np.full(npts, 0.1 * rng.integers(1, 9))
    elif k == 3:
        v = 1e6 + rng.normal(size=npts)
    elif k == 4:
        v = rng.integers(0, 65535, npts).astype(float)
    else:
        v = rng.random(npts)
    if rng.random() < 0.4:
        v[rng.random(npts) < rng.choice([0.02, 0.3, 1.0], p=[0.6, 0.35, 0.05])] = np.nan
    return v


def make_bounds(rng, q, n):
    """kwargs for the bounds, and the (lo, hi) meant, None where defaulted."""
    kw, lo, hi = {}, [None] * 3, [None] * 3
    for j, a in enumerate("xyz"):
        span = np.ptp(q[:, j]) or 1.0
        if rng.random() < 0.6:
            lo[j] = kw[a + "min"] = float(q[:, j].min() + span * rng.uniform(-0.3, 0.4))
        if rng.random() < 0.6:
            base = q[:, j].min() if lo[j] is None else lo[j]
            hi[j] = kw[a + "max"] = float(max(base + span * 0.05, q[:, j].max() - span * rng.uniform(-0.3, 0.4)))
    return kw, lo, hi


def gen_mask(rng, shape):
    k = rng.integers(0, 5)
    if k == 0:
        return None, np.ones(int(np.prod(shape)), bool), "none"
    if k in (1, 2):
        m = rng.random(shape[1:]) < rng.random()
        full = np.tile(m.ravel(), shape[0])
    else:
        m = rng.random(shape) < rng.random()
        full = m.ravel()
    dt = [bool, np.int64, np.uint8, float][rng.integers(0, 4)]
    return m.astype(dt), full, "%dd-%s" % (m.ndim, np.dtype(dt))


def judge_grid(c, ret, q, inten, keep, kw, lo, hi, n):
    mean, occ, se, bounds = ret
    bounds = np.asarray(bounds, dtype=float)
    c.expect(bounds.shape == (3, 3), "bounds-shape", str(bounds.shape))
    c.equal(bounds[:, 2].astype(int), n, "grid-steps")
    blo, bhi = bounds[:, 0], bounds[:, 1]
    for j in range(3):
        if lo[j] is not None:
            c.expect(blo[j] == lo[j], "bound-ignored", "axis %d: %r for %r" % (j, blo[j], lo[j]))
        else:
            c.expect(blo[j] == q[:, j].min(), "default-bound", "axis %d" % j)
        if hi[j] is not None:
            c.expect(bhi[j] == hi[j], "bound-ignored", "axis %d: %r for %r" % (j, bhi[j], hi[j]))
        else:
            m = q[:, j].max()
            c.expect(m <= bhi[j] <= m + 1e-9 * (abs(m) + np.ptp(q[:, j])) + 1e-300, "default-bound",
                     "axis %d: %r for %r" % (j, bhi[j], m))
    lo = blo
    if all(v is None for v in hi) and all(k[1:] != "min" for k in kw):
        want = int((keep & ~np.isnan(np.ravel(inten))).sum())
        c.expect(int(np.sum(occ)) == want, "points-lost",
                 lambda: "%d of %d points are in the grid which spans the data" % (np.sum(occ), want))
    o = grid_oracle(q, inten, keep, lo, bhi, n)
    if o is None:
        return False
    wocc, wmean, wse, mt, st, nin = o
    c.equal(np.asarray(occ).astype(np.int64), wocc, "occupancy")
    c.close(mean, wmean, "mean", rtol=1e-9, atol=mt)
    c.close(se, wse, "standard-error", rtol=1e-6, atol=st)
    v = np.ravel(inten)
    with np.errstate(all="ignore"):
        got = np.nansum(np.asarray(mean) * np.asarray(occ))
    # total intensity in = total intensity out
    c.close(got, np.nansum(wmean * wocc), "intensity-conservation", rtol=1e-9,
            atol=64 * EPS * np.nansum(np.abs(v)) + 1e-300)
    return nin


# -------------------------------------------------------------------- P03
@workload("P03", quick=260, needs=["ctrans"])
def grid_random(c):
    rng = c.rng
    q, inten, n, kind = gen_grid(rng)
    kw, lo, hi = make_bounds(rng, q, n)
    mask, keep, mkind = gen_mask(rng, inten.shape)
    dt = [float, float, np.float32][rng.integers(0, 3)]
    inten = inten.astype(dt)
    if not np.isnan(inten).any() and rng.random() < 0.3 and np.all(np.abs(inten) < 60000):
        inten = inten.astype(np.int64 if np.any(inten < 0) else rng.choice([np.uint16, np.int32, np.int64]))
    args = dict(kw, nx=n[0], ny=n[1], nz=n[2])
    if mask is not None:
        args["binary_mask"] = mask
    native.set_threads(int(rng.integers(1, 6)))
    ret = c.call(utils.grid3d, scramble_layout(rng, q), scramble_layout(rng, inten), **args, _rep=gridded)
    nin = judge_grid(c, ret, q, inten, keep, kw, lo, hi, n)
    c.mark(kind, mkind, str(inten.dtype), "in" if nin else "none-in", len(kw))


@workload("P03", quick=120, needs=["ctrans"])
def grid_faces(c):
    """Points exactly on voxel faces, on both bounds and next to them, where
    the arithmetic is exact: a voxel holds its lower face, not its upper one."""
    rng = c.rng
    n = tuple(int(2 ** v) for v in rng.integers(0, 4, size=3))
    width = 2.0 ** rng.integers(-3, 4, size=3)
    lo = rng.integers(-8, 8, size=3) * 1.0
    hi = lo + width
    shape = (int(rng.integers(1, 4)), int(rng.integers(1, 12)), int(rng.integers(1, 12)))
    npts = int(np.prod(shape))
    k = np.stack([rng.integers(-1, m + 2, size=npts) for m in n], axis=1)
    q = lo + k * (width / np.array(n))
    half = rng.random((npts, 3)) < 0.3
    q = q + half * width / np.array(n) / 2
    inten = gen_intensity(rng, npts).reshape(shape)
    kw = dict(xmin=lo[0], ymin=lo[1], zmin=lo[2], xmax=hi[0], ymax=hi[1], zmax=hi[2])
    ret = c.call(utils.grid3d, q, inten, nx=n[0], ny=n[1], nz=n[2], **kw, _rep=gridded)
    nin = judge_grid(c, ret, q, inten, np.ones(npts, bool), kw, lo, hi, n)
    c.mark("faces", bool(nin))


@workload("P03", quick=60, needs=["ctrans"])
def grid_additive(c):
    """Gridding two stacks together = the weighted union of gridding them."""
    rng = c.rng
    q, inten, n, kind = gen_grid(rng)
    inten = np.nan_to_num(inten)
    lo, hi = q.min(axis=0) - 0.5, q.max(axis=0) + 0.5
    kw = dict(xmin=lo[0], ymin=lo[1], zmin=lo[2], xmax=hi[0], ymax=hi[1], zmax=hi[2], nx=n[0], ny=n[1], nz=n[2])
    npts = inten.size
    m1, o1, _, _ = c.call(utils.grid3d, q, inten, **kw, _rep=gridded)
    m2, o2, _, _ = c.call(utils.grid3d, q, inten * 2 + 1, **kw, _rep=gridded)
    qq = np.concatenate([q, q])
    both = np.concatenate([inten, inten * 2 + 1])
    m, o, _, _ = c.call(utils.grid3d, qq, both, **kw, _rep=gridded)
    c.equal(o, o1 + o2, "occupancy-not-additive")
    c.expect(int(np.sum(o)) == 2 * npts, "points-lost", "%d of %d" % (np.sum(o), 2 * npts))
    with np.errstate(all="ignore"):
        want = (np.nan_to_num(m1) * o1 + np.nan_to_num(m2) * o2) / o
    c.close(m, want, "mean-not-additive", rtol=1e-9, atol=1e-12 * np.max(np.abs(both)))
    c.mark(kind)


@workload("P03", quick=3, thorough=60, needs=["ctrans"])
def grid_crowded(c):
    """more points in a voxel than fit into 16 bits"""
    rng = c.rng
    shape = (int(rng.integers(2, 6)), int(rng.integers(180, 300)), int(rng.integers(180, 300)))
    npts = int(np.prod(shape))
    n = tuple(int(v) for v in rng.integers(1, 3, size=3))
    q = rng.normal(size=(npts, 3)) * 10.0 ** rng.uniform(-3, 4, size=3)
    inten = gen_intensity(rng, npts).reshape(shape)
    native.set_threads(int(rng.integers(1, 9)))
    ret = c.call(utils.grid3d, q, inten, nx=n[0], ny=n[1], nz=n[2], _rep=gridded)
    judge_grid(c, ret, q, inten, np.ones(npts, bool), {}, [None] * 3, [None] * 3, n)
    c.mark("crowded", n)


@workload("P03", quick=60, needs=["ctrans"])
def grid_odd_points(c):
    """coordinates which are not numbers or far away are outside, infinite values are values"""
    rng = c.rng
    q, inten, n, kind = gen_grid(rng)
    npts = inten.size
    lo, hi = q.min(axis=0), q.max(axis=0)
    w = hi - lo
    lo, hi = lo - 0.3 * w - 0.01, hi + 0.2 * w + 0.01
    kw = dict(xmin=lo[0], ymin=lo[1], zmin=lo[2], xmax=hi[0], ymax=hi[1], zmax=hi[2])
    odd = rng.random(npts) < rng.choice([0.02, 0.3])
    q[odd, rng.integers(0, 3, int(odd.sum()))] = rng.choice([np.nan, np.inf, -np.inf, 1e300, -1e300, 1.7e308], int(odd.sum()))
    flat = np.array(inten, float)
    inf = rng.random(flat.shape) < rng.choice([0, 0.01, 0.2])
    flat[inf] = rng.choice([np.inf, -np.inf], int(inf.sum()))
    with np.errstate(all="ignore"):
        got = c.call(utils.grid3d, q, flat, nx=n[0], ny=n[1], nz=n[2], **kw, _rep=gridded)
        finite = np.where(inf, 0.0, flat)
        o = grid_oracle(np.where(odd[:, None], lo - 1, q), finite, np.ones(npts, bool), lo, hi, n)
        if o is None:
            return
        m = grid_oracle(np.where(odd[:, None], lo - 1, q), np.where(inf, flat, np.nan), np.ones(npts, bool), lo, hi, n)
    c.equal(np.asarray(got[1]).astype(np.int64), o[0], "occupancy")
    c.close(got[0], np.where(m[0] > 0, m[1], o[1]), "mean", rtol=1e-9, atol=o[3])
    c.close(np.where(m[0] > 0, 0, got[2]), np.where(m[0] > 0, 0, o[2]), "standard-error", rtol=1e-6, atol=o[4])
    c.mark("odd", bool(odd.any()), bool(inf.any()))


@workload("P03", quick=60, needs=["ctrans"])
def grid_in_pieces(c):
    """the outputs given to the compiled gridder add up over the calls"""
    rng = c.rng
    from skbeam.ext import ctrans
    q, inten, n, kind = gen_grid(rng)
    lo, hi = q.min(axis=0) - 0.5, q.max(axis=0) + 0.5
    d = np.hstack([q, inten.reshape(-1, 1)])
    native.set_threads(int(rng.integers(1, 6)))
    cuts = np.sort(rng.integers(0, len(d) + 1, int(rng.integers(0, 4))))
    out = []
    for part in np.split(d, cuts):
        out = ctrans.grid3d(part, tuple(lo), tuple(hi), n, 0, *out[:3])
    o = grid_oracle(q, inten, np.ones(len(d), bool), lo, hi, n)
    if o is None:
        return
    c.equal(out[2].astype(np.int64), o[0], "occupancy-in-pieces")
    tot = np.where(o[0] > 0, np.nan_to_num(o[1]) * o[0], 0)
    c.close(out[0], tot, "sum-in-pieces", rtol=1e-9, atol=o[3] * np.maximum(o[0], 1))
    c.close(out[3], o[2], "standard-error-in-pieces", rtol=1e-6, atol=o[4])
    c.mark("pieces", len(cuts))


@workload("P03", quick=40, needs=["ctrans"])
def grid_rejects(c):
    rng = c.rng
    q, inten, n, _ = gen_grid(rng)
    k = int(rng.integers(0, 4))
    s = inten.shape
    if k == 3 and (s[0] != s[1] or s[1] != s[2]):
        # as many pixels, but somewhere else
        m = np.ones(s, bool).transpose(*((1, 0, 2) if s[0] != s[1] else (0, 2, 1)))
        if m.shape == s[1:]:
            raise Skip
        c.rejects((ValueError,), utils.grid3d, q, inten, binary_mask=m)
        c.rejects((ValueError,), utils.grid3d, q, inten, binary_mask=m.ravel())
    elif k == 0:
        c.rejects((ValueError,), utils.grid3d, q[:, :2], inten)
    elif k == 1:
        c.rejects((ValueError,), utils.grid3d, q, inten,
                  binary_mask=np.ones((inten.shape[1] + 1, inten.shape[2] + 2), bool))
    else:
        c.rejects((ValueError,), utils.grid3d, np.hstack([q, q]), inten)
    c.mark("rejects", k)


# -------------------------------------------------------------------- P02
@workload("P02", quick=120, needs=["ctrans"], pure=False)
def threads_grid(c):
    rng = c.rng
    q, inten, n, kind = gen_grid(rng)
    keep = np.ones(inten.size, bool)
    kw, lo, hi = make_bounds(rng, q, n)
    native.set_threads(1)
    ref = c.call(utils.grid3d, q, inten, nx=n[0], ny=n[1], nz=n[2], **kw, _rep=gridded)
    with np.errstate(all="ignore"):
        mag = np.nanmax(np.abs(inten), initial=0) * 1e-12
        setol = np.sqrt(1e-12) * np.nanmax(np.abs(inten), initial=0)
    for t in sorted({int(v) for v in rng.choice([2, 3, 4, 5, 7, 8, 13, 16, 24], size=4)}):
        native.set_threads(t)
        got = c.call(utils.grid3d, q, inten, nx=n[0], ny=n[1], nz=n[2], **kw, _rep=gridded)
        c.equal(got[1], ref[1], "occupancy-depends-on-threads", detail="%d threads" % t)
        c.close(got[0], ref[0], "mean-depends-on-threads", rtol=1e-9, atol=mag, detail="%d threads" % t)
        c.close(got[2], ref[2], "error-depends-on-threads", rtol=1e-6, atol=setol, detail="%d threads" % t)
        c.mark("threads", t, "more-threads-than-points" if t > inten.size else "")
    native.set_threads(4)


def large_case(rng, npts, lo, hi):
    """points which fill a grid of lo to hi voxels"""
    a, b = int(rng.integers(20, 60)), int(rng.integers(20, 60))
    n = tuple(int(v) for v in rng.permutation([a, b, int(rng.integers(lo, hi) // (a * b)) + 1]))
    q = rng.uniform(-1, 1, (npts, 3)) * 10.0 ** rng.uniform(-2, 2, 3)
    return q, gen_intensity(rng, npts).reshape(1, 1, -1), n


@workload("P02", quick=4, thorough=60, needs=["ctrans"], pure=False)
def threads_volume(c):
    """volumes and data of a real measurement"""
    rng = c.rng
    q, inten, n = large_case(rng, int(rng.integers(100000, 400000)), 70000, 400000)
    native.set_threads(1)
    ref = utils.grid3d(q, inten, nx=n[0], ny=n[1], nz=n[2])
    mag = np.nanmax(np.abs(inten), initial=0)
    for t in (2, 3, 4, 8, 16):
        native.set_threads(t)
        got = c.call(utils.grid3d, q, inten, nx=n[0], ny=n[1], nz=n[2], _rep=False)
        c.equal(got[1], ref[1], "occupancy-depends-on-threads", detail="%d threads" % t)
        c.close(got[0], ref[0], "mean-depends-on-threads", rtol=1e-9, atol=1e-12 * mag, detail="%d threads" % t)
        c.close(got[2], ref[2], "error-depends-on-threads", rtol=1e-6, atol=1e-6 * mag, detail="%d threads" % t)
    native.set_threads(4)
    c.mark("volume", int(np.log2(np.prod(n))))


@workload("P02", quick=60, needs=["ctrans"], pure=False)
def threads_q(c):
    rng = c.rng
    a = gen_q(rng)
    native.set_threads(1)
    ref = c.call(recip.process_to_q, *a[:-1], frame_mode=a[-1], _rep=gridded)
    for t in sorted({int(v) for v in rng.choice([2, 3, 5, 8, 16, 24], size=3)}):
        native.set_threads(t)
        got = c.call(recip.process_to_q, *a[:-1], frame_mode=a[-1], _rep=gridded)
        c.close(got, ref, "q-depends-on-threads", rtol=1e-12, atol=1e-12 * np.max(np.abs(ref), initial=0))
        c.mark("threads", t)
    native.set_threads(4)


@workload("P02", quick=40, needs=["ctrans"], pure=False)
def threads_dynamic(c):
    """The run time grants fewer threads than it announced."""
    import ctypes
    rng = c.rng
    lib = ctypes.CDLL("libgomp.so.1")
    q, inten, n, kind = gen_grid(rng)
    kw, lo, hi = make_bounds(rng, q, n)
    lib.omp_set_dynamic(1)
    native.set_threads(24)
    try:
        got = c.call(utils.grid3d, q, inten, nx=n[0], ny=n[1], nz=n[2], **kw, _rep=gridded)
    finally:
        lib.omp_set_dynamic(0)
        native.set_threads(4)
    judge_grid(c, got, q, inten, np.ones(inten.size, bool), kw, lo, hi, n)
    c.mark("dynamic")


@workload("P02", quick=24, needs=["ctrans"], pure=False)
def threads_callers(c):
    """Several Python threads call in at the same time: the compiled code
    releases the interpreter lock."""
    rng = c.rng
    jobs, refs = [], []
    for _ in range(int(rng.integers(3, 7))):
        if rng.random() < 0.6:
            q, inten, n, _k = gen_grid(rng)
            kw = dict(nx=n[0], ny=n[1], nz=n[2])
            jobs.append((utils.grid3d, (q, inten), kw))
        else:
            a = gen_q(rng)
            jobs.append((recip.process_to_q, a[:-1], dict(frame_mode=a[-1])))
    native.set_threads(2)
    refs = [c.call(f, *a, **k, _rep=gridded) for f, a, k in jobs]
    got = [[None] * 6 for _ in jobs]
    gate = threading.Barrier(len(jobs))

    def work(i):
        native.set_threads(int(2 + i % 3))
        f, a, k = jobs[i]
        for r in range(6):
            gate.wait()
            try:
                got[i][r] = f(*a, **k)
            except Exception as e:     # judged below
                got[i][r] = e
    ts = [threading.Thread(target=work, args=(i,)) for i in range(len(jobs))]
    for t in ts:
        t.start()
    for t in ts:
        t.join()
    for i, ref in enumerate(refs):
        for g in got[i]:
            if isinstance(g, Exception):
                raise Violation("raises-when-concurrent", repr(g))
            if jobs[i][0] is utils.grid3d:
                c.equal(g[1], ref[1], "occupancy-depends-on-other-callers")
                m = np.nanmax(np.abs(jobs[i][1][1]), initial=0)
                c.close(g[0], ref[0], "mean-depends-on-other-callers", rtol=1e-9, atol=1e-12 * m)
            else:
                c.close(g, ref, "q-depends-on-other-callers", rtol=1e-12,
                        atol=1e-12 * np.max(np.abs(ref), initial=0))
    c.mark("callers", len(jobs))
    native.set_threads(4)


def _no_race(c, mon, what):
    s = mon.stats()
    native.count("race_checked_calls")
    c.expect(s["races"] == 0, "data-race", lambda: "%s: %d racing accesses: %s" % (what, s["races"], mon.describe()))


@workload("P02", quick=45, mode="race", needs=["ctrans"], pure=False)
def race_grid(c):
    rng = c.rng
    mon = native.Race()
    q, inten, n, kind = gen_grid(rng)
    k = max(1, min(inten.shape[0], int(2000 / (inten.shape[1] * inten.shape[2]))))
    inten = inten[:k]
    q = q[:inten.size]
    kw, lo, hi = make_bounds(rng, q, n)
    t = int(rng.choice([2, 3, 4, 5, 8, 16]))
    mon.config(t, int(rng.choice([0, 40, 400, 4000])), int(rng.integers(1, 1 << 30)))
    ret = c.call(utils.grid3d, q, inten, nx=n[0], ny=n[1], nz=n[2], **kw, _rep=gridded)
    _no_race(c, mon, "gridding with %d threads" % t)
    judge_grid(c, ret, q, inten, np.ones(inten.size, bool), kw, lo, hi, n)
    c.mark("race", t)


@workload("P02", quick=2, thorough=12, mode="race", needs=["ctrans"], pure=False)
def race_volume(c):
    rng = c.rng
    mon = native.Race()
    q, inten, n = large_case(rng, 500, 66000, 90000)
    kw, lo, hi = make_bounds(rng, q, n)
    t = int(rng.choice([3, 4, 8]))
    mon.config(t, 0, int(rng.integers(1, 1 << 30)))
    ret = c.call(utils.grid3d, q, inten, nx=n[0], ny=n[1], nz=n[2], **kw, _rep=False)
    _no_race(c, mon, "gridding with %d threads" % t)
    judge_grid(c, ret, q, inten, np.ones(inten.size, bool), kw, lo, hi, n)
    c.mark("race-volume", t)


@workload("P02", quick=30, mode="race", needs=["ctrans"], pure=False)
def race_q(c):
    rng = c.rng
    mon = native.Race()
    a = gen_q(rng, small=True)
    t = int(rng.choice([2, 3, 4, 8, 16]))
    mon.config(t, int(rng.choice([0, 40, 400])), int(rng.integers(1, 1 << 30)))
    ret = c.call(recip.process_to_q, *a[:-1], frame_mode=a[-1], _rep=gridded)
    _no_race(c, mon, "q conversion with %d threads" % t)
    judge_q(c, ret, a)
    c.mark("race", t)


@workload("P02", quick=30, mode="race", needs=["ctrans"], pure=False)
def race_nomem(c):
    """Threads which get no memory must not leave the others behind."""
    rng = c.rng
    mon = native.Race()
    lib = mon.lib
    q, inten, n, kind = gen_grid(rng)
    inten = inten[:1]
    q = q[:inten.size]
    t = int(rng.choice([2, 3, 4, 8]))
    mon.config(t, int(rng.choice([0, 400])), int(rng.integers(1, 1 << 30)))
    lib.vm_heap_reset(-1, 0)
    utils.grid3d(q, inten, nx=n[0], ny=n[1], nz=n[2])
    total = lib.vm_heap_allocs()
    at = int(rng.integers(0, max(total, 1)))
    lib.vm_heap_reset(at, int(rng.integers(0, 2)))
    try:
        utils.grid3d(q, inten, nx=n[0], ny=n[1], nz=n[2])
        res = "ok"
    except MemoryError:
        res = "MemoryError"
    except Exception as e:
        res = type(e).__name__
    failed = lib.vm_heap_failed()
    lib.vm_heap_reset(-1, 0)
    native.count("injected_allocation_failures", int(failed))
    _no_race(c, mon, "gridding without memory")
    if failed:
        c.expect(res == "MemoryError", "failure-not-reported", "allocation %d of %d failed: %s" % (at, total, res))
    ret = c.call(utils.grid3d, q, inten, nx=n[0], ny=n[1], nz=n[2], _rep=gridded)
    judge_grid(c, ret, q, inten, np.ones(inten.size, bool), {}, [None] * 3, [None] * 3, n)
    c.mark("nomem", t, res)


# -------------------------------------------------------------------- P06
def pick(rng, *v):
    return v[int(rng.integers(0, len(v)))]


def gen_q(rng, small=False):
    nimg = int(rng.integers(1, 6))
    size = (int(rng.integers(1, 9 if small else 40)), int(rng.integers(1, 9 if small else 40)))
    ang = rng.uniform(-180, 180, size=(nimg, 6))
    if rng.random() < 0.3:
        ang[:, rng.integers(0, 6)] = 0
    if rng.random() < 0.1:
        ang[:] = 0
    if rng.random() < 0.15:
        ang = np.rint(ang).astype(int)
    elif rng.random() < 0.15:       # right angles, and full turns
        ang = rng.integers(-4, 5, ang.shape) * pick(rng, 45.0, 90.0, 180.0)
    elif rng.random() < 0.1:
        ang = ang + 360.0 * rng.integers(-5, 6, ang.shape)
    if not small and rng.random() < 0.03:
        size = (int(rng.integers(100, 400)), int(rng.integers(100, 400)))
    elif not small and rng.random() < 0.02:
        size = tuple(int(v) for v in rng.permutation([int(rng.integers(1, 4)), int(rng.integers(33000, 70000))]))
        ang = ang[:2]
    elif not small and rng.random() < 0.05:
        ang = rng.uniform(-180, 180, size=(int(rng.integers(20, 200)), 6))
        size = (int(rng.integers(1, 9)), int(rng.integers(1, 9)))
    pix = tuple(10.0 ** rng.uniform(-3, 0, size=2))
    cen = tuple(rng.uniform(-5, 45, size=2))
    dist = float(10.0 ** rng.uniform(1, 3.5))
    lam = float(rng.uniform(0.1, 5))
    if rng.random() < 0.15:
        lam, dist = float(10.0 ** rng.uniform(-3, 3)), float(10.0 ** rng.uniform(-1, 6))
    if rng.random() < 0.1:
        pix, cen, dist = (1, 2), tuple(int(v) for v in cen), int(np.ceil(dist))
    k = rng.integers(0, 5)
    if k == 4:      # a lattice: the reciprocal axes, turned or not
        al, be, ga = np.radians(rng.uniform(60, 115, 3))
        v = np.array([[1, 0, 0], [np.cos(ga), np.sin(ga), 0], [0, 0, 0]])
        v[2, 0], v[2, 1] = np.cos(be), (np.cos(al) - np.cos(be) * np.cos(ga)) / np.sin(ga)
        v[2, 2] = np.sqrt(max(1 - v[2, 0] ** 2 - v[2, 1] ** 2, 0.05))
        ub = 2 * np.pi * np.linalg.inv(v * rng.uniform(2, 20, 3)[:, None])
        if rng.random() < 0.5:
            ub = ub.T
        if rng.random() < 0.5:
            ub = np.linalg.qr(rng.normal(size=(3, 3)))[0] @ ub
    elif k == 3:    # exchanged axes, of integers
        ub = np.eye(3, dtype=int)[rng.permutation(3)] * rng.integers(1, 4, 3) * pick(rng, -1, 1)
    elif k == 0:
        ub = np.eye(3) * rng.uniform(0.2, 3)
    elif k == 1:
        ub = np.diag(rng.uniform(0.2, 3, size=3))
    else:
        while True:
            ub = rng.normal(size=(3, 3))
            if np.linalg.cond(ub) < 100:
                break
    if rng.random() < 0.3:
        ub = np.asfortranarray(ub)
    mode = [None, "theta", "phi", "cart", "hkl"][rng.integers(0, 5)]
    return ang, size, pix, cen, dist, lam, ub, mode


def judge_q(c, ret, a):
    mode = a[-1] or "hkl"
    want, k, ubinv = q_oracle(*a[:-1], mode)
    c.expect(ret.shape == want.shape, "q-shape", "%s instead of %s" % (ret.shape, want.shape))
    scale = 4 * k * (np.abs(ubinv).max() * 3 if mode == "hkl" else 1)
    c.close(ret, want, "q-value", rtol=1e-9, atol=1e-11 * scale, detail=str((a[1], mode)))
    return want


@workload("P06", quick=260, needs=["ctrans"])
def q_random(c):
    rng = c.rng
    a = gen_q(rng)
    native.set_threads(int(rng.integers(1, 6)))
    kw = {} if a[-1] is None else {"frame_mode": a[-1]}
    args = list(a[:-1])
    if rng.random() < 0.2:
        args[-1] = args[-1].tolist()
    if rng.random() < 0.2:
        args[0] = args[0].tolist()
    else:
        args[0] = scramble_layout(rng, args[0])
    ret = c.call(recip.process_to_q, *args, **kw)
    judge_q(c, ret, a)
    c.mark(a[-1], len(a[0]), a[1][0] > a[1][1], a[1][0] < a[1][1])


@workload("P06", quick=80, needs=["ctrans"])
def q_physics(c):
    """Laws which hold whatever the orientation convention: the length of q is
    fixed by the scattering angle, rotations keep it, and the frames differ by
    the orientation matrix only."""
    rng = c.rng
    ang, size, pix, cen, dist, lam, ub, _ = gen_q(rng)
    k = 2 * np.pi / lam
    args = (ang, size, pix, cen, dist, lam, ub)
    qt = c.call(recip.process_to_q, *args, frame_mode="theta")
    qp = c.call(recip.process_to_q, *args, frame_mode="phi")
    qc = c.call(recip.process_to_q, *args, frame_mode="cart")
    qh = c.call(recip.process_to_q, *args)
    nt, nphi = c.call(recip.hkl_to_q, qt), c.call(recip.hkl_to_q, qp)
    n = int(rng.integers(1, 9))
    h = rng.integers(-9, 10, (n, 3)) if rng.random() < 0.5 else 10.0 ** rng.uniform(-9, 9) * rng.normal(size=(n, 3))
    c.close(c.call(recip.hkl_to_q, scramble_layout(rng, h)), [np.sqrt(sum(float(v) ** 2 for v in w)) for w in h],
            "q-norm", rtol=1e-12)
    c.close(nt, np.linalg.norm(qt, axis=1), "q-norm", rtol=1e-12)
    c.close(nphi, nt, "rotation-changes-length", rtol=1e-9, atol=1e-11 * k)
    c.equal(qc, qp, "cart-frame")
    c.expect(bool(np.all(nt <= 2 * k * (1 + 1e-9))), "q-too-long")
    # no rotation of the sample, incoming beam in the horizontal plane
    zero = np.zeros((1, 6))
    q0 = c.call(recip.process_to_q, zero, size, pix, cen, dist, lam, np.eye(3), frame_mode="theta")
    col, row = np.meshgrid(np.arange(size[0]), np.arange(size[1]))
    de = np.arctan((row - cen[1]) * pix[1] / dist).ravel()
    ga = np.arctan((col - cen[0]) * pix[0] / dist).ravel()
    c.close(np.linalg.norm(q0, axis=1), 2 * k * np.sqrt(np.clip((1 - np.cos(de) * np.cos(ga)) / 2, 0, 1)), "q-of-angle",
            rtol=1e-6, atol=1e-7 * k)
    # hkl <-> cart by the orientation matrix
    m = np.linalg.inv(ub)
    back = qp @ np.stack([-m[:, 2], m[:, 1], m[:, 0]], axis=1).T
    c.close(qh, back, "hkl-frame", rtol=1e-9, atol=1e-10 * k * np.abs(m).max())
    # doubling the wavelength halves q
    q2 = c.call(recip.process_to_q, ang, size, pix, cen, dist, lam * 2, ub, frame_mode="phi")
    c.close(2 * q2, qp, "wavelength", rtol=1e-9, atol=1e-11 * k)
    # image by image
    one = np.concatenate([recip.process_to_q(ang[i], size, pix, cen, dist, lam, ub) for i in range(len(ang))])
    c.close(one, qh, "images-not-independent", rtol=1e-12, atol=1e-12 * k * np.abs(m).max())
    c.mark("physics", len(ang))


@workload("P06", quick=60, needs=["ctrans"])
def q_rejects(c):
    rng = c.rng
    ang, size, pix, cen, dist, lam, ub, _ = gen_q(rng)
    k = int(rng.integers(0, 3))
    if k == 0:
        c.rejects((ValueError,), recip.process_to_q, ang[:, :5], size, pix, cen, dist, lam, ub)
    elif k == 1:
        c.rejects((KeyError,), recip.process_to_q, ang, size, pix, cen, dist, lam, ub, frame_mode="nosuch")
    else:
        c.rejects((ValueError,), recip.process_to_q, ang[None], size, pix, cen, dist, lam, ub)
    c.mark("rejects", k)


# -------------------------------------------------------------------- P01
LEGAL = (ValueError, TypeError, MemoryError, OverflowError, RuntimeError, IndexError, ZeroDivisionError,
         np.linalg.LinAlgError, NotImplementedError, BufferError, SystemError)


def hostile_array(rng, *shapes):
    shape = shapes[rng.integers(0, len(shapes))]
    k = rng.integers(0, 9)
    a = rng.normal(size=shape) * 10.0 ** rng.uniform(-2, 2)
    if k == 1:
        a = a.astype(np.float32)
    elif k == 2:
        a = np.rint(a).astype(rng.choice([np.int8, np.int64, np.uint16]))
    elif k == 3 and a.size:
        a.flat[rng.integers(0, a.size, size=max(1, a.size // 5))] = rng.choice([np.nan, np.inf, -np.inf, 1e308, 5e-324])
    elif k == 4:
        a = a.astype(complex)
    elif k == 5:
        return a.tolist()
    elif k == 6:
        a = a.astype(">f8")
    elif k == 7:
        a = a.astype(object)
    return scramble_layout(rng, a) if isinstance(a, np.ndarray) else a


def _attempt(fn, *a, **k):
    try:
        return "ok", fn(*a, **k)
    except LEGAL as e:
        if isinstance(e, SystemError):
            raise Violation("interpreter-corrupted", repr(e))
        return type(e).__name__, None


def _leak_guard(c, lib, before):
    live = lib.vm_heap_live()
    c.expect(live == before, "heap-leak", "%d blocks are still allocated after the call" % (live - before))
    c.expect(lib.vm_heap_badfree() == 0, "bad-free", "a block was freed twice or was never allocated")


def _native_grid(c):
    from skbeam.ext import ctrans
    rng = c.rng
    lib = native.LOADED["ctrans"]
    npts = int(rng.choice([0, 1, 2, 7, 50, 400]))
    data = hostile_array(rng, (npts, 4), (npts, 4), (npts, 4), (npts, 4), (npts, 3), (npts, 5), (4,), (4, npts),
                         (2, npts, 4), ())
    n = [int(v) for v in rng.choice([1, 1, 2, 3, 5, 9], size=3)]
    r = rng.random()
    if r < 0.08:
        n[rng.integers(0, 3)] = int(rng.choice([0, -1, -(1 << 62), 1 << 61]))
    lo = rng.normal(size=3) * 10.0 ** rng.uniform(-3, 3)
    hi = lo + np.abs(rng.normal(size=3)) * 10.0 ** rng.uniform(-12, 3, size=3)
    if rng.random() < 0.15:
        hi[rng.integers(0, 3)] = rng.choice([np.nan, np.inf, -np.inf, 0.0])
    if rng.random() < 0.1:
        lo, hi = hi, lo
    if rng.random() < 0.1:
        hi = lo.copy()
    if isinstance(data, np.ndarray) and data.ndim == 2 and data.shape[1] == 4 and data.dtype == float \
            and data.flags.writeable and npts and rng.random() < 0.7:
        # aim at the upper face, where an index could reach the end
        for j in range(3):
            pick = rng.random(npts) < 0.6
            frac = rng.choice([0.0, 0.5, 1.0, np.nextafter(1, 0), np.nextafter(1, 2), -EPS, 1 - 1e-16, 1 - 1e-12],
                              size=npts)
            tgt = lo[j] + (hi[j] - lo[j]) * frac
            tgt = np.where(rng.random(npts) < 0.3, np.nextafter(hi[j], lo[j]), tgt)
            data[pick, j] = tgt[pick]
    kw = {}
    if rng.random() < 0.3:
        kw["ignore_nan"] = int(rng.integers(-1, 3))
    if rng.random() < 0.35:
        sh = tuple(max(v, 0) if v < 100 else 1 for v in n)
        if rng.random() < 0.4:
            sh = tuple(max(0, v + int(rng.integers(-1, 2))) for v in sh)
        for key, dt in (("gridout", float), ("grid2out", float), ("nout", np.uint64)):
            if rng.random() < 0.7:
                kw[key] = np.zeros(sh if rng.random() < 0.8 else sh[:2], rng.choice([dt, dt, dt, np.int32]))
                if rng.random() < 0.15:
                    kw[key].flags.writeable = False
    c.digest.update(repr((np.shape(data), lo, hi, n, sorted(kw))).encode())
    before = lib.vm_heap_live()
    refs = sys.getrefcount(data)
    what, ret = _attempt(ctrans.grid3d, data, tuple(lo), tuple(hi), tuple(n), **kw)
    c.calls += 1
    _leak_guard(c, lib, before)
    del kw
    if what != "ok":
        gc.collect()
        c.expect(sys.getrefcount(data) <= refs, "reference-leak", "the input array is kept after " + what)
    else:
        c.expect(len(ret) == 4 and all(tuple(r.shape) == tuple(n) for r in ret), "result-shape")
        tot = int(np.asarray(ret[2], dtype=np.uint64).sum())
        c.expect(tot <= npts + 10 ** 9, "occupancy-garbage")
    native.count("native_calls")
    native.count("native_outcome_" + what)
    c.mark("grid", what, tuple(sorted(n))[:1], np.ndim(data))


def _native_q(c):
    from skbeam.ext import ctrans
    rng = c.rng
    lib = native.LOADED["ctrans"]
    nimg = int(rng.choice([0, 1, 2, 5, 9]))
    ang = hostile_array(rng, (nimg, 6), (nimg, 6), (nimg, 6), (nimg, 6), (nimg, 5), (nimg, 7), (6,), (1, nimg, 6))
    ub = hostile_array(rng, (3, 3), (3, 3), (3, 3), (3, 3), (2, 3), (3, 2), (9,), (0, 0), (4, 4))
    size = tuple(int(v) for v in rng.choice([0, 1, 2, 7, 20], size=2))
    if rng.random() < 0.08:
        size = (int(rng.choice([-1, -7, 1])), int(rng.choice([-1, -(1 << 31), 3])))
    mode = int(rng.choice([1, 2, 3, 4, 4, 4, 0, -3, 77]))
    pix = tuple(float(v) for v in rng.choice([1e-3, 1.0, 0.0, -1.0, np.nan, np.inf], size=2, p=[.4, .4, .05, .05, .05, .05]))
    c.digest.update(repr((np.shape(ang), np.shape(ub), size, mode, pix, np.ravel(ub)[:3])).encode())
    before = lib.vm_heap_live()
    refs = (sys.getrefcount(ang), sys.getrefcount(ub))
    what, ret = _attempt(ctrans.ccdToQ, angles=ang, mode=mode, ccd_size=size, ccd_pixsize=pix,
                         ccd_cen=(float(rng.normal()), 1e300 if rng.random() < .05 else 2.0),
                         dist=float(rng.choice([0.0, 1.0, 1e-300, 1e3])), wavelength=float(rng.choice([0.0, 1.0, -2.0])),
                         UBinv=ub)
    c.calls += 1
    _leak_guard(c, lib, before)
    if what == "ok":
        c.expect(ret.shape == (np.shape(ang)[0] * size[0] * size[1], 3), "result-shape")
    else:
        gc.collect()
        c.expect((sys.getrefcount(ang), sys.getrefcount(ub)) <= refs, "reference-leak")
    native.count("native_calls")
    native.count("native_outcome_" + what)
    c.mark("q", what, mode, size == (0, 0))


def _native_nomem(c):
    from skbeam.ext import ctrans
    rng = c.rng
    lib = native.LOADED["ctrans"]
    which = int(rng.integers(0, 2))
    data = rng.random((int(rng.choice([1, 40, 300])), 4))

    def go():
        if which:
            return ctrans.grid3d(data, (0., 0., 0.), (1., 1., 1.), (3, 4, 5))
        return ctrans.ccdToQ(angles=data[:, [0, 1, 2, 3, 0, 1]], mode=4, ccd_size=(5, 4), ccd_pixsize=(.1, .1),
                             ccd_cen=(2., 2.), dist=10., wavelength=1., UBinv=np.eye(3))
    lib.vm_heap_reset(-1, 0)
    ref = go()
    total = lib.vm_heap_allocs()
    c.expect(total > 0, "no-allocation-seen") if total else None
    for at in range(int(total)):
        for rest in (0, 1):
            before = lib.vm_heap_live()
            lib.vm_heap_reset(at, rest)
            what, ret = _attempt(go)
            failed = lib.vm_heap_failed()
            lib.vm_heap_reset(-1, 0)
            native.count("injected_allocation_failures", int(failed))
            if failed:
                c.expect(what == "MemoryError", "failure-not-reported", "allocation %d: %s" % (at, what))
            _leak_guard(c, lib, before)
            again = go()
            a, b = (ref[2], again[2]) if which else (ref, again)
            c.equal(b, a, "state-after-failure")
    c.mark("nomem", which, int(total))


def _native_leak(c):
    """Memory does not grow with the number of calls, good or bad."""
    from skbeam.ext import ctrans
    rng = c.rng
    data = rng.random((2000, 4))
    good = lambda: ctrans.grid3d(data, (0., 0., 0.), (1., 1., 1.), (20, 20, 20))
    bad = [
        lambda: ctrans.grid3d(data[:, :3], (0., 0., 0.), (1., 1., 1.), (20, 20, 20)),
        lambda: ctrans.grid3d(data, (0., 0., 0.), (1., 1., 1.), (20, 20, 20), 0, np.zeros((20, 20, 20)),
                              np.zeros((20, 20, 3))),
        lambda: ctrans.ccdToQ(angles=data[:, [0, 1, 2, 3, 0, 1]], mode=4, ccd_size=(5, 4), ccd_pixsize=(.1, .1),
                              ccd_cen=(2., 2.), dist=10., wavelength=1., UBinv=np.eye(2)),
        lambda: ctrans.ccdToQ(angles=data[:, [0, 1, 2, 3, 0, 1]], mode=4, ccd_size=(5, 4), ccd_pixsize=(.1, .1),
                              ccd_cen=(2., 2.), dist=10., wavelength=1., UBinv=np.eye(3)),
        lambda: ctrans.grid3d(data.astype(np.float32)[::2], (0., 0., 0.), (1., 1., 1.), (20, 20, 20)),
        good,
    ][rng.integers(0, 6)]
    tracemalloc.start()
    try:
        for _ in range(3):
            _attempt(bad)
        gc.collect()
        m0 = tracemalloc.get_traced_memory()[0]
        for _ in range(12):
            _attempt(bad)
        gc.collect()
        m1 = tracemalloc.get_traced_memory()[0]
    finally:
        tracemalloc.stop()
    c.calls += 15
    c.expect(m1 - m0 < 100000, "object-leak", "%d bytes more after 12 calls" % (m1 - m0))
    c.mark("leak")


workload("P01", quick=700, mode="asan", needs=["ctrans"], pure=False)(_native_grid)
workload("P01", quick=350, mode="asan", needs=["ctrans"], pure=False)(_native_q)
workload("P01", quick=10, mode="asan", needs=["ctrans"], pure=False)(_native_nomem)
workload("P01", quick=16, mode="asan", needs=["ctrans"], pure=False)(_native_leak)


def native_grid_noomp(c):
    _native_grid(c)


def native_q_noomp(c):
    _native_q(c)


def native_nomem_noomp(c):
    _native_nomem(c)


workload("P01", quick=250, mode="asan_noomp", needs=["ctrans"], pure=False)(native_grid_noomp)
workload("P01", quick=120, mode="asan_noomp", needs=["ctrans"], pure=False)(native_q_noomp)
workload("P01", quick=4, mode="asan_noomp", needs=["ctrans"], pure=False)(native_nomem_noomp)


@workload("P01", quick=80, mode="asan", needs=["ctrans"], pure=False)
def api_asan(c):
    """The documented calls, with the sanitizers attached."""
    rng = c.rng
    if rng.random() < 0.5:
        q, inten, n, kind = gen_grid(rng)
        kw, lo, hi = make_bounds(rng, q, n)
        mask, keep, _ = gen_mask(rng, inten.shape)
        if mask is not None:
            ret = c.call(utils.grid3d, q, inten, nx=n[0], ny=n[1], nz=n[2], binary_mask=mask, **kw)
        else:
            ret = c.call(utils.grid3d, q, inten, nx=n[0], ny=n[1], nz=n[2], **kw)
        judge_grid(c, ret, q, inten, keep, kw, lo, hi, n)
    else:
        a = gen_q(rng)
        judge_q(c, c.call(recip.process_to_q, *a[:-1], frame_mode=a[-1]), a)
    native.count("native_calls")


@workload("P01", quick=40, mode="asan_noomp", needs=["ctrans"], pure=False)
def api_asan_noomp(c):
    api_asan(c)
