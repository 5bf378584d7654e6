"""P07 geometry, P13 masks, P14 binning helpers, P15 images and centers,
P28 nested dictionaries."""
import numpy as np

from .core import Skip, detector_image, finding, lazy, scramble_layout, workload

utils = lazy("skbeam.core.utils")
recip = lazy("skbeam.core.recip")
mask_ = lazy("skbeam.core.mask")
image = lazy("skbeam.core.image")
calib = lazy("skbeam.core.calibration")
roi = lazy("skbeam.core.roi")
xrs = lazy("skbeam.core.constants.xrs")


def pick(rng, *v):
    return v[rng.integers(0, len(v))]


# ------------------------------------------------------------------ P07
@workload("P07", quick=160)
def grids(c):
    rng = c.rng
    shape = (c.n(1, 30, 600), c.n(1, 30, 600))
    center = pick(rng, tuple(rng.uniform(-10, 40, 2)), (int(rng.integers(0, shape[0])), int(rng.integers(0, shape[1]))))
    kw, px = {}, (1.0, 1.0)
    if rng.random() < 0.6:
        px = kw["pixel_size"] = tuple(10.0 ** rng.uniform(-3, 2, 2))
    r = c.call(utils.radial_grid, center, shape, **kw)
    a = c.call(utils.angle_grid, center, shape, **kw)
    yy, xx = np.mgrid[: shape[0], : shape[1]]
    dy, dx = (yy - center[0]) * px[0], (xx - center[1]) * px[1]
    c.close(r, np.hypot(dx, dy), "radius", rtol=1e-12)
    # compare directions as vectors, so that -pi and pi are the same
    ok = np.hypot(dx, dy) > 0
    c.expect(np.shape(a) == shape, "angle-shape")
    c.close(np.cos(a)[ok], (dx / np.hypot(dx, dy))[ok], "angle", rtol=1e-9, atol=1e-12)
    c.close(np.sin(a)[ok], (dy / np.hypot(dx, dy))[ok], "angle", rtol=1e-9, atol=1e-12)
    c.expect(bool(np.all(np.abs(a) <= np.pi + 1e-12)), "angle-range")
    c.mark("pixel_size" in kw, shape[0] == shape[1], isinstance(center[0], int))


@workload("P07", quick=120)
def conversions(c):
    """q, d and two-theta: their definitions, and there and back."""
    rng = c.rng
    n = c.n(1, 40, 80000)
    lam = pick(rng, float(10.0 ** rng.uniform(-2, 1)), 1, np.float32(0.5))
    tt = rng.uniform(1e-4, np.pi - 1e-3, n)
    shape = pick(rng, (n,), (1, n), (n, 1))
    tt = tt.reshape(shape)
    wrap = pick(rng, lambda a: a, lambda a: a.tolist(), lambda a: scramble_layout(rng, a))
    q = c.call(utils.twotheta_to_q, wrap(tt), lam)
    c.close(q, 4 * np.pi * np.sin(tt / 2) / float(lam), "q-of-angle", rtol=1e-12)
    back = c.call(utils.q_to_twotheta, wrap(np.asarray(q)), lam)
    c.close(back, tt, "angle-round-trip", rtol=1e-6, atol=1e-7)
    # the sign of an angle is that of q, and there is no angle beyond 4 pi / lambda
    c.close(c.call(utils.twotheta_to_q, wrap(-tt), lam), -q, "q-of-angle", rtol=1e-12)
    c.close(c.call(utils.q_to_twotheta, wrap(-np.asarray(q)), lam), -np.asarray(back), "angle-of-q", rtol=1e-12)
    far = 4 * np.pi / float(lam) * rng.uniform(1.001, 3, n)
    with np.errstate(all="ignore"):
        c.expect(bool(np.all(np.isnan(c.call(utils.q_to_twotheta, far, lam)))), "angle-beyond-the-limit")
    small = q[tt < 3.0]
    c.close(c.call(utils.q_to_twotheta, small, lam), tt[tt < 3.0], "angle-round-trip", rtol=1e-9, atol=1e-10)
    d = c.call(utils.q_to_d, wrap(np.asarray(q)))
    c.close(d, 2 * np.pi / q, "d-of-q", rtol=1e-12)
    c.close(c.call(utils.d_to_q, wrap(np.asarray(d))), q, "q-round-trip", rtol=1e-12)
    # Bragg: lambda = 2 d sin(theta)
    c.close(2 * d * np.sin(tt / 2), np.full(shape, float(lam)), "bragg", rtol=1e-9)
    dist = float(10.0 ** rng.uniform(-2, 4))
    rad = dist * np.tan(rng.uniform(0, 1.5, n))
    t2 = c.call(utils.radius_to_twotheta, dist, rad)
    c.close(np.tan(t2) * dist, rad, "angle-of-radius", rtol=1e-9)
    c.mark(len(shape), type(lam).__name__)


@workload("P07", quick=100)
def grazing(c):
    rng = c.rng
    size = (c.n(1, 25, 500), c.n(1, 25, 500))
    inc = (float(rng.uniform(-3, 25)), float(rng.uniform(-3, 25)))
    ref = (float(inc[0] + rng.uniform(-4, 4)), float(inc[1] + rng.uniform(0.5, 20)))
    k = rng.random()
    if k < 0.15:        # the other way up
        ref = (ref[0], float(inc[1] - rng.uniform(0.5, 20)))
    elif k < 0.25:      # along a row
        ref = (ref[0], inc[1])
    elif k < 0.35:
        inc, ref = tuple(int(v) for v in inc), tuple(int(v) for v in ref)
    px = tuple(10.0 ** rng.uniform(0, 3, 2))
    dist = float(10.0 ** rng.uniform(-1, 1))
    lam = float(rng.uniform(0.3, 4))
    kw, ti = {}, 0.0
    if rng.random() < 0.5:
        ti = kw["theta_i"] = float(rng.uniform(-0.3, 0.3))
    g = c.call(recip.gisaxs, inc, ref, px, size, dist, lam, **kw)
    k = 2 * np.pi / lam
    p = (px[0] * 1e-6, px[1] * 1e-6)
    y, x = np.mgrid[: size[0], : size[1]]
    ai = 0.5 * np.arctan((ref[1] - inc[1]) * p[1] / dist)
    tilt = np.arctan2((ref[0] - inc[0]) * p[0], (ref[1] - inc[1]) * p[1])
    af = np.arctan((y - inc[1]) * p[1] / dist) - ai
    tf = 0.5 * np.arctan((x - inc[0]) * p[0] / dist) - ti
    c.close(g.alpha_i, ai, "incident-angle", rtol=1e-9)
    c.close(g.tilt_angle, tilt, "tilt-angle", rtol=1e-9, atol=1e-12)
    c.close(g.alpha_f, af, "exit-angle", rtol=1e-9, atol=1e-12)
    c.close(g.theta_f, tf, "out-of-plane-angle", rtol=1e-9, atol=1e-12)
    qx = k * (np.cos(af) * np.cos(2 * tf) - np.cos(ai) * np.cos(2 * ti))
    a = np.cos(af) * np.sin(2 * tf) - np.cos(ai) * np.sin(2 * ti)
    b = np.sin(af) + np.sin(ai)
    rot = np.array([[np.cos(tilt), np.sin(tilt)], [-np.sin(tilt), np.cos(tilt)]])
    qy = k * (rot[0, 0] * a + rot[0, 1] * b)
    qz = k * (rot[1, 0] * a + rot[1, 1] * b)
    for got, want, nm in ((g.qx, qx, "qx"), (g.qy, qy, "qy"), (g.qz, qz, "qz"), (g.qr, np.hypot(qx, qy), "qr")):
        c.close(got, want, nm, rtol=1e-9, atol=1e-10 * k)
    # the length of q does not depend on the tilt of the sample
    c.close(np.asarray(g.qx) ** 2 + np.asarray(g.qy) ** 2 + np.asarray(g.qz) ** 2, qx ** 2 + k * k * (a * a + b * b),
            "q-length", rtol=1e-9, atol=1e-10 * k * k)
    c.mark("theta_i" in kw, size[0] == size[1])


@workload("P07", quick=10, thorough=200)
def calibrated(c):
    rng = c.rng
    shape = (int(rng.integers(3, 20)), int(rng.integers(3, 20)))
    px = (float(10.0 ** rng.uniform(-5, -3.5)), float(10.0 ** rng.uniform(-5, -3.5)))
    dist, lam = float(rng.uniform(0.05, 3)), float(10.0 ** rng.uniform(-11, -9.5))
    poni = (float(rng.uniform(0, shape[0]) * px[0]), float(rng.uniform(0, shape[1]) * px[1]))
    q = c.call(recip.calibrated_pixels_to_q, shape, dict(dist=dist, poni1=poni[0], poni2=poni[1], pixel1=px[0],
                                                         pixel2=px[1], wavelength=lam))
    y, x = np.mgrid[: shape[0], : shape[1]]
    r = np.hypot((y + 0.5) * px[0] - poni[0], (x + 0.5) * px[1] - poni[1])
    want = 4 * np.pi * np.sin(np.arctan(r / dist) / 2) / (lam * 1e9)
    c.close(q, want, "calibrated-q", rtol=1e-4, atol=1e-5 * want.max())
    c.mark("pyfai")


@workload("P07", quick=60)
def relative_xyi(c):
    """Square images; the other ones are a recorded finding."""
    rng = c.rng
    n = c.n(1, 20, 400)
    img = rng.random((n, n))
    cx, cy = float(rng.uniform(-5, 25)), float(rng.uniform(-5, 25))
    kw, px, py = {}, 1.0, 1.0
    if rng.random() < 0.6:
        px, py = (float(v) for v in 10.0 ** rng.uniform(-2, 2, 2))
        kw = dict(pixel_size_x=px, pixel_size_y=py)
    x, y, i = c.call(utils.img_to_relative_xyi, img, cx, cy, **kw)
    c.equal(np.sort(i), np.sort(img.ravel()), "intensities-lost")
    row, col = np.mgrid[:n, :n]
    c.close(x, ((col - cx) * px).ravel(), "x", rtol=1e-12, atol=1e-12)
    c.close(y, ((row - cy) * py).ravel(), "y", rtol=1e-12, atol=1e-12)
    c.equal(i, img.ravel(), "pairing")
    if rng.random() < 0.3:
        c.rejects((ValueError,), utils.img_to_relative_xyi, img, cx, cy, pixel_size_x=1.0)
        c.rejects((ValueError,), utils.img_to_relative_xyi, img, cx, cy, pixel_size_x=-1.0, pixel_size_y=1.0)
        c.rejects((ValueError,), utils.img_to_relative_xyi, img, cx, cy, pixel_size_x=1.0, pixel_size_y=0)
        c.rejects((ValueError,), utils.img_to_relative_xyi, img, cx, cy, pixel_size_x=0, pixel_size_y=1.0)
        c.rejects((ValueError,), utils.img_to_relative_xyi, img, cx, cy, pixel_size_y=1.0)
    c.mark("xyi", bool(kw))


@finding("P07", "xyi-nonsquare")
def f_xyi():
    img = np.arange(6.0).reshape(2, 3)
    x, y, i = utils.img_to_relative_xyi(img, 0, 0)
    row, col = np.mgrid[:2, :3]
    ok = all(np.any((x == cc) & (y == rr) & (i == v)) for rr, cc, v in zip(row.ravel(), col.ravel(), img.ravel()))
    return not ok


# ------------------------------------------------------------------ P13
@workload("P13", quick=120)
def mask_margin(c):
    rng = c.rng
    shape = tuple(c.n(1, 14, 100) for _ in range(pick(rng, 2, 2, 2, 3)))
    e = c.n(0, 9, 40)
    m = c.call(mask_.margin, shape, e)
    inside = np.ones(shape, bool)
    for ax, n in enumerate(shape):
        k = np.arange(n)
        keep = (k >= e) & (k < n - e)
        inside &= keep.reshape([-1 if a == ax else 1 for a in range(len(shape))])
    c.equal(np.asarray(m).astype(bool), inside, "margin")
    c.expect(np.asarray(m).dtype == bool, "mask-type")
    c.mark("margin", e == 0, bool(inside.any()))


@workload("P13", quick=120)
def mask_threshold(c):
    """A pixel which was hot once stays out, for the rest of the series."""
    rng = c.rng
    shape = (c.n(1, 12, 60), c.n(1, 12, 60))
    n = c.n(1, 8, 150)
    imgs = rng.integers(0, 60, (n,) + shape)
    th = int(rng.integers(20, 62))
    if rng.random() < 0.5:
        imgs = imgs.astype(pick(rng, np.uint16, np.int32, float))
        if rng.random() < 0.3:
            th = th + 0.5
    elif rng.random() < 0.5:        # after a dark image is taken off
        sub = int(rng.integers(1, 70))
        imgs, th = imgs - sub, th - sub
    kw = {}
    start = np.ones(shape, bool)
    if rng.random() < 0.5:
        start = rng.random(shape) < 0.7
        kw["mask"] = start.astype(pick(rng, bool, int, float))
    arg = imgs if rng.random() < 0.5 else list(imgs)
    # taken one after the other, and kept
    got = c.call(mask_.threshold, arg, th, **kw, _mat=list)
    c.expect(len(got) == n, "number-of-masks", str(len(got)))
    ok = start.copy()
    for k in range(n):
        ok &= imgs[k] < th
        c.equal(np.asarray(got[k]) != 0, ok, "threshold", detail="image %d" % k)
        c.equal(np.asarray(got[k]).astype(float), ok.astype(float), "mask-values")
    c.mark("threshold", "mask" in kw, n)


@workload("P13", quick=60)
def mask_bad(c):
    rng = c.rng
    shape = tuple(int(v) for v in rng.integers(1, 9, size=2))
    n = int(rng.integers(1, 8)) if c.i % 10 else int(rng.integers(80, 300))
    imgs = [rng.integers(0, 9, shape) for _ in range(n)]
    if rng.random() < 0.4:
        t = pick(rng, np.uint8, np.uint16, np.int32, np.float32, bool)
        imgs = [im.astype(t) for im in imgs]
    bad = [int(v) for v in rng.permutation(n + 2)[: rng.integers(0, n + 1)]]
    src = pick(rng, lambda: imgs, lambda: iter(imgs), lambda: np.array(imgs))
    got = c.call(mask_.bad_to_nan_gen, src(), bad, _mat=list, _rep=False)
    c.expect(len(got) == n, "number-of-images")
    for k in range(n):
        if k in bad:
            c.expect(np.shape(got[k]) == shape and bool(np.all(np.isnan(got[k]))), "bad-image-not-nan")
        else:
            c.equal(got[k], imgs[k], "good-image-changed")
    # the user fills in the bad images as they come
    for k, im in enumerate(mask_.bad_to_nan_gen(src(), bad)):
        if k in bad:
            c.expect(bool(np.all(np.isnan(im))), "bad-image-not-nan", k)
            im[:] = k
    c.mark("bad", len(bad))


@workload("P13", quick=120)
def mask_outlier(c):
    rng = c.rng
    shape = (c.n(2, 25, 300), c.n(2, 25, 300))
    nb = int(rng.integers(1, 7)) if rng.random() < 0.8 else int(rng.integers(7, 20))
    bins = np.cumsum(np.r_[0, rng.uniform(0.5, 2, nb)])
    r = rng.uniform(0, bins[-1], shape)
    if rng.random() < 0.3:      # radii on the edges of the bins belong to the bin above
        bins = np.cumsum(np.r_[0, rng.integers(1, 4, nb)]).astype(float)
        r = rng.integers(0, int(bins[-1]) + 1, shape).astype(float)
    img = rng.normal(pick(rng, 10, 10, 0, -10, -1000), 1 + rng.random() * 3, shape)
    img[rng.random(shape) < 0.03] = pick(rng, 1000, 1000, -1000)
    if rng.random() < 0.2:
        img = np.rint(img).astype(int)
    start = np.ones(shape, bool)
    kw = {}
    if rng.random() < 0.5:
        start = rng.random(shape) < 0.8
        kw["mask"] = start if rng.random() < 0.5 else start.ravel()
        if rng.random() < 0.5:
            kw["mask"] = kw["mask"].astype(pick(rng, np.uint8, np.int64, float))
    if rng.random() < 0.4:
        r.ravel()[rng.integers(0, r.size, 3)] = bins[-1]     # the last bin has its upper edge
    b = np.minimum(np.searchsorted(bins, r, side="right") - 1, nb - 1)
    flat = int(rng.integers(0, nb)) if rng.random() < 0.4 else -1
    if flat >= 0:
        img[b == flat] = int(rng.integers(0, 50))            # no spread: nothing deviates
    k = int(rng.integers(0, 3))
    if k == 0:
        alpha = float(rng.uniform(0.5, 4))
        al = np.full(nb, alpha)
    elif k == 1:
        alpha = (float(rng.uniform(0.5, 4)), float(rng.uniform(0.5, 4)))
        if rng.random() < 0.2:
            alpha = alpha[:1] * 2
        al = np.linspace(alpha[0], alpha[1], nb)
    else:
        al = alpha = rng.uniform(0.5, 4, nb)
    want = start.copy()
    for j in range(nb):
        v = img[start & (b == j)].astype(float)
        if not v.size:
            continue
        m, s = v.mean(), v.std()
        sel = b == j
        if j == flat:
            want[sel] = start[sel]
            continue
        dev = np.abs(img - m)
        if np.any(np.abs(dev[sel & start] - al[j] * s) < 1e-8 * (1 + abs(m))):
            raise Skip()      # on the limit
        want[sel & (dev > al[j] * s)] = False
    m = c.call(mask_.binned_outlier, scramble_layout(rng, img), r, alpha, pick(rng, list(bins), bins), **kw)
    c.expect(np.asarray(m).dtype == bool, "mask-type")
    c.equal(m, want, "outlier", detail="alpha %d" % k)
    c.mark("outlier", k, "mask" in kw, bool((want != start).any()))


# ------------------------------------------------------------------ P14
@workload("P14", quick=200)
def edges(c):
    rng = c.rng
    k = int(rng.integers(0, 4))
    lo = float(rng.normal() * 10.0 ** rng.uniform(-2, 3))
    width = float(10.0 ** rng.uniform(-3, 3))
    n = c.n(1, 60, 20000)
    at = int(rng.integers(0, 8))
    if at == 0:
        lo = pick(rng, 0.0, 0)
    elif at == 1:       # the upper limit at zero
        width = pick(rng, float(abs(lo)) + 0.5, int(abs(lo)) + 1)
        lo = -width
    elif at == 2:
        lo, width = int(lo), int(width) + 1
    tol = 1e-11 * (abs(lo) + width)
    if k == 0:
        e = c.call(utils.bin_edges, range_min=lo, range_max=lo + width, nbins=n)
        want = lo + width * np.arange(n + 1) / n
        c.close(e, want, "edges", rtol=1e-11, atol=tol)
        c.expect(e[0] >= lo and e[-1] <= lo + width, "edge-outside-range")
    elif k == 1:
        step = width / n
        e = c.call(utils.bin_edges, range_min=lo, nbins=n, step=step)
        c.close(e, lo + step * np.arange(n + 1), "edges", rtol=1e-11, atol=tol)
        c.expect(bool(np.all(e >= lo)), "edge-outside-range")
    elif k == 2:
        step = width / n
        e = c.call(utils.bin_edges, range_max=lo, nbins=n, step=step)
        c.close(e, lo - step * np.arange(n, -1, -1), "edges", rtol=1e-11, atol=tol)
        c.expect(bool(np.all(e <= lo)), "edge-outside-range")
    else:
        if rng.random() < 0.5:
            step = float(rng.integers(1, 9)) / 8
            lo = float(rng.integers(-9, 9))
            width = step * n
        else:
            step = width / (n + float(rng.random()))
        hi = lo + width
        e = c.call(utils.bin_edges, range_min=lo, range_max=hi, step=step)
        c.expect(e[0] == lo, "first-edge")
        c.expect(bool(np.all(e <= hi)), "edge-outside-range")
        c.expect(hi - e[-1] <= step * (1 + 1e-6) + tol, "range-not-covered", lambda: "%r left of step %r" % (hi - e[-1], step))
        c.close(np.diff(e), np.full(len(e) - 1, step), "step", rtol=1e-6, atol=1e-10 * (abs(lo) + width))
        c.expect(len(e) >= 2, "no-bin")
    if rng.random() < 0.4:
        e = np.cumsum(rng.uniform(0.01, 3, int(rng.integers(2, 90)))) * pick(rng, 1, -1, 1e5) + rng.uniform(-50, 50)
        tol = 1e-12 * np.abs(e).max()
        if rng.random() < 0.3:
            e = np.rint(e).astype(int)
    cen = c.call(utils.bin_edges_to_centers, e if rng.random() < 0.5 else list(e))
    e = np.asarray(e)
    c.close(cen, (e[1:] + e[:-1]) / 2, "centers", rtol=1e-12, atol=tol)
    c.mark("edges", k)


@workload("P14", quick=40)
def edges_rejects(c):
    rng = c.rng
    full = dict(range_min=0.0, range_max=10.0, nbins=5, step=2.0)
    keys = list(full)
    n = int(pick(rng, 0, 1, 2, 4))
    sel = [keys[k] for k in rng.permutation(4)[:n]]
    c.rejects((ValueError,), utils.bin_edges, **{k: full[k] for k in sel})
    c.rejects((ValueError,), utils.bin_edges, range_min=1.0, range_max=float(rng.uniform(-5, 1)), nbins=3)
    lo = float(rng.normal())
    c.rejects((ValueError,), utils.bin_edges, range_min=lo, range_max=lo, nbins=3)
    c.rejects((ValueError,), utils.bin_edges, range_min=lo, range_max=lo - float(rng.uniform(0.1, 3)), step=0.5)
    one = c.call(utils.bin_edges, range_min=1.0, range_max=3.0, step=2.0)
    c.equal(one, [1.0, 3.0], "one-step")
    c.rejects((ValueError,), utils.bin_edges, range_min=1.0, range_max=2.0, step=float(rng.uniform(1.01, 9)))
    c.rejects((ValueError,), utils.bin_edges, range_min=1.0, nbins=int(rng.integers(-4, 1)), step=1.0)
    c.mark("rejects", n)


@workload("P14", quick=120)
def bin1d(c):
    """Every point in range is in one bin, its value counts once."""
    rng = c.rng
    n = c.n(1, 400, 400000)
    x = rng.normal(size=n) * 10 + pick(rng, 0, 100)
    if rng.random() < 0.15:
        x = np.rint(x).astype(pick(rng, np.int64, np.int32))
    y = pick(rng, rng.normal(size=n), rng.poisson(4, n), detector_image(rng, (n,)))
    kw = {}
    lo, hi = x.min(), x.max()
    if rng.random() < 0.5:
        lo = kw["min_x"] = float(lo + rng.uniform(-4, 2))
    if rng.random() < 0.5:
        hi = kw["max_x"] = float(hi + rng.uniform(-2, 4))
    if rng.random() < 0.3:      # a limit of exactly zero
        d = float(rng.uniform(-2, 4))
        x = x - (x.min() + d if rng.random() < 0.5 else x.max() - d)
        kw = {}
        lo, hi = x.min(), x.max()
        if abs(lo) < abs(hi):
            lo = kw["min_x"] = pick(rng, 0.0, 0)
        else:
            hi = kw["max_x"] = pick(rng, 0.0, 0)
    if hi - lo < 1.5:
        raise Skip()
    if rng.random() < 0.7 or n > 20000:
        nx = kw["nx"] = c.n(1, 30, 300) if n < 20000 else pick(rng, 1, 1, 2, 50)
    else:
        nx = int(hi - lo)
    e, v, k = c.call(utils.bin_1D, scramble_layout(rng, x), y, **kw)
    want_e = lo + (hi - lo) * np.arange(nx + 1) / nx
    c.close(e, want_e, "edges", rtol=1e-12, atol=1e-11 * (abs(lo) + abs(hi)))
    e = np.asarray(e)
    b = np.searchsorted(e, x, side="right") - 1
    b[x == e[-1]] = nx - 1
    ok = (x >= e[0]) & (x <= e[-1])
    near = np.abs(x - e[1:-1][np.clip(np.searchsorted((e[1:-1] + e[2:]) / 2, x), 0, nx - 2)]) if nx > 1 else x[:0]
    if near.size and near.min() < 1e-9:
        raise Skip()
    c.equal(k, np.bincount(b[ok], minlength=nx), "count")
    c.close(v, np.bincount(b[ok], weights=y[ok], minlength=nx), "sum", rtol=1e-9,
            atol=1e-12 * np.abs(y.astype(float)).sum())
    if "min_x" not in kw and "max_x" not in kw:
        c.expect(int(np.sum(k)) == n, "points-lost")
    c.mark("bin1d", tuple(sorted(kw)))


@workload("P14", quick=80)
def grid_bins(c):
    rng = c.rng
    shape = (c.n(2, 25, 200), c.n(2, 25, 200))
    px = tuple(rng.uniform(0.1, 2, 2))
    yy, xx = np.mgrid[: shape[0], : shape[1]]
    r = np.hypot((yy - rng.uniform(0, 25)) * px[0], (xx - rng.uniform(0, 25)) * px[1])
    img = rng.normal(5, 2, shape) if rng.random() < 0.7 else detector_image(rng, shape)
    kw = {}
    keep = np.ones(shape, bool)
    if rng.random() < 0.6:
        keep = kw["mask"] = rng.random(shape) < 0.7
        if not keep.any():
            raise Skip()
    st = "mean"
    if rng.random() < 0.6:
        st = kw["statistic"] = pick(rng, "mean", "sum", "median", np.max)
        if st == "median":          # SciPy's own is wrong for narrow integers
            img = img.astype(float)
    if rng.random() < 0.6:
        nb = int(rng.integers(1, 12))
        e = np.cumsum(np.r_[r.min() * rng.uniform(0.5, 1.5), rng.uniform(0.2, 3, nb)])
        kw["bins"] = e
    else:
        res = np.hypot(*px)
        e = None
    cen, val = c.call(utils.bin_grid, img, r, px, **kw)
    cen = np.asarray(cen)
    if e is None:
        # the default bins are as wide as a pixel is across, from the smallest radius on
        c.expect(len(cen) >= 1, "no-bin")
        c.close(cen[0], r.min(), "first-center", rtol=1e-9, atol=1e-9)
        c.close(np.diff(cen), np.full(len(cen) - 1, res), "default-width", rtol=1e-6)
        c.expect(cen[-1] + res >= r.max() - 1e-9 and cen[-1] <= r.max() + 1e-9, "range-not-covered")
        e = np.r_[cen - res / 2, cen[-1] + res / 2]
    else:
        c.close(cen, (e[1:] + e[:-1]) / 2, "centers", rtol=1e-12)
    rk, ik = r[keep], img[keep].astype(float)
    if np.abs(rk[:, None] - e[None]).min() < 1e-9:
        raise Skip()
    b = np.searchsorted(e, rk, side="right") - 1
    f = {"mean": np.mean, "sum": np.sum, "median": np.median}.get(st, st) if isinstance(st, str) else st
    want = np.array([f(ik[b == j]) if (b == j).any() else (0.0 if st == "sum" else np.nan) for j in range(len(cen))])
    if callable(st):
        got = np.asarray(val)
        has = ~np.isnan(want)
        c.close(got[has], want[has], "statistic", rtol=1e-12)
    else:
        c.close(val, want, "statistic", rtol=1e-9, atol=1e-10 + 1e-12 * np.abs(ik).sum())
    c.mark("bin_grid", tuple(sorted(kw)))


@workload("P14", quick=80)
def reference_images(c):
    """Each measured image minus the last reference before it, in order."""
    rng = c.rng
    n = c.n(1, 12, 300)
    shape = (c.n(1, 8, 30), c.n(1, 8, 30))
    imgs = pick(rng, rng.normal(size=(n,) + shape), rng.integers(-50, 500, (n,) + shape),
                rng.integers(0, 256, (n,) + shape).astype(pick(rng, np.uint8, np.uint16, np.uint32)))
    is_ref = rng.random(n) < rng.choice([0.1, 0.5, 0.9])
    is_ref[0] = True
    arg = imgs if rng.random() < 0.5 else list(imgs)
    if rng.random() < 0.3:      # the references, or the images, in another type
        kind = pick(rng, np.float64, np.float32, np.int32)
        imgs = arg = [(np.rint(im).astype(kind) if f == is_ref[-1] else im) for im, f in zip(imgs, is_ref)]
    flags = is_ref if rng.random() < 0.5 else is_ref.tolist()
    got = c.call(utils.subtract_reference_images, arg, flags)
    want, ref = [], None
    for im, f in zip(imgs, is_ref):
        if f:
            ref = im
        else:
            want.append(im.astype(float) - ref)
    c.expect(len(got) == len(want), "number-of-images", "%d instead of %d" % (len(got), len(want)))
    for a, b in zip(got, want):
        c.equal(a, b, "difference")
    if n > 1:
        bad = is_ref.copy()
        bad[0] = False
        c.rejects((ValueError,), utils.subtract_reference_images, imgs, bad)
    c.mark("reference", n, int(is_ref.sum()))


@workload("P14", quick=40)
def series(c):
    rng = c.rng
    n = int(rng.integers(2, 500))
    r = pick(rng, 2, 3, 5, 1.5, 10)
    first = pick(rng, 1, 1, 2, 0.5)
    kw = {} if first == 1 else {"first_term": first}
    got = c.call(utils.geometric_series, r, n, **kw)
    want = [first]
    while want[-1] * r < n:
        want.append(want[-1] * r)
    if want[-1] * r == n:
        raise Skip()
    c.close(got, want, "series", rtol=1e-12)
    it = list(rng.integers(0, 9, int(rng.integers(0, 7))))
    c.expect(list(utils.pairwise(iter(it))) == list(zip(it, it[1:])), "pairwise")
    c.mark("series", r)


# ------------------------------------------------------------------ P15
@workload("P15", quick=100)
def circ_image(c):
    rng = c.rng
    n = c.n(2, 20, 100)
    radii = np.cumsum(rng.uniform(0.2, 2, n)) + pick(rng, 0, 3)
    if rng.random() < 0.3:
        radii[0] = 0
    inten = rng.normal(5, 3, n)
    if rng.random() < 0.3:
        inten = np.rint(inten * 20).astype(pick(rng, np.int16, np.int64, np.float32)) / pick(rng, 1, np.float32(3))
    kw = {}
    px = (1, 1)
    if rng.random() < 0.5:
        px = kw["pixel_size"] = tuple(float(v) for v in rng.uniform(0.4, 2, 2))
    if rng.random() < 0.6:
        dims = kw["dims"] = (c.n(1, 30, 150), c.n(1, 30, 150))
        if rng.random() < 0.6:
            cen = kw["center"] = tuple(float(v) for v in rng.uniform(-3, 30, 2))
        else:
            cen = ((dims[0] - 1) / 2, (dims[1] - 1) / 2)
    else:
        dims, cen = None, None
    left, right = inten[0], 0.0
    if rng.random() < 0.3:
        left = kw["left"] = pick(rng, float(rng.normal()), 0, 0.0)
    if rng.random() < 0.3:
        right = kw["right"] = pick(rng, float(rng.normal()), None, 0)
        if right is None:
            right = inten[-1]
    got = c.call(image.construct_circ_avg_image, radii, inten, **kw)
    if dims is None:
        dims = got.shape
        for j in range(2):
            m = radii.max() / px[j]
            c.expect(dims[j] % 2 == 1 and abs((dims[j] - 1) / 2 - m) <= 0.5 + 1e-9, "default-size",
                     lambda: "%s for radius %s" % (dims, m))
        cen = ((dims[0] - 1) / 2, (dims[1] - 1) / 2)
    yy, xx = np.mgrid[: dims[0], : dims[1]]
    r = np.hypot((yy - cen[0]) * px[0], (xx - cen[1]) * px[1])
    want = np.empty(dims)
    edge = np.zeros(dims, bool)
    for p in np.ndindex(*dims):
        v = r[p]
        if v < radii[0]:
            want[p] = left
        elif v > radii[-1]:
            want[p] = right
        else:
            j = min(int(np.searchsorted(radii, v, side="right")) - 1, n - 2)
            t = (v - radii[j]) / (radii[j + 1] - radii[j])
            want[p] = inten[j] * (1 - t) + inten[j + 1] * t
        edge[p] = min(abs(v - radii[0]), abs(v - radii[-1])) < 1e-9
    c.close(np.where(edge, 0, got), np.where(edge, 0, want), "interpolation", rtol=1e-9, atol=1e-10)
    if rng.random() < 0.2:
        c.rejects((ValueError,), image.construct_circ_avg_image, radii, inten, center=(3.0, 4.0))
    c.mark("circ", tuple(sorted(kw)))


@workload("P15", quick=80)
def rphi_image(c):
    """Bilinear in radius and angle, periodic in the angle, NaN outside and
    next to masked points."""
    rng = c.rng
    nr, na = c.n(2, 9, 40), min(c.n(2, 14, 60), 40)
    radii = np.cumsum(rng.uniform(0.5, 2, nr)) - (0.5 if rng.random() < 0.5 else 0)
    a0 = float(rng.uniform(-4, 4))
    ang = a0 + np.sort(rng.choice(np.linspace(0, 2 * np.pi, 40, endpoint=False), na, replace=False))
    ang = ang - ang[0] + a0
    pol = rng.normal(3, 2, (nr, na))
    if rng.random() < 0.3:
        pol = np.rint(pol * 7).astype(pick(rng, int, np.int16, np.float32))
    kw = {}
    px = (1.0, 1.0)
    if rng.random() < 0.4:
        px = kw["pixel_size"] = tuple(float(v) for v in rng.uniform(0.5, 2, 2))
    m = None
    if rng.random() < 0.5:
        m = rng.random((nr, na)) < 0.85
        if rng.random() < 0.3:      # a whole ring
            m[pick(rng, 0, nr - 1, int(rng.integers(nr)))] = 0
        if rng.random() < 0.3:      # a whole sector
            m[:, pick(rng, 0, na - 1, int(rng.integers(na)))] = 0
        m = kw["mask"] = m.astype(pick(rng, int, bool, float))
    if rng.random() < 0.7:
        shape = kw["shape"] = (c.n(2, 22, 90), c.n(2, 22, 90))
        if rng.random() < 0.6:
            kw["center"] = tuple(float(v) for v in rng.uniform(-2, 22, 2))
    got = c.call(image.construct_rphi_avg_image, radii, ang, pol, **kw)
    if "shape" not in kw:
        shape = got.shape
        for j in range(2):
            v = radii.max() / px[j]
            c.expect(shape[j] % 2 == 1 and abs((shape[j] - 1) / 2 - v) <= 0.5 + 1e-9, "default-size")
    cen = kw.get("center", ((shape[0] - 1) / 2, (shape[1] - 1) / 2))
    c.expect(got.shape == tuple(shape), "image-shape", str(got.shape))
    v = pol.astype(float).copy()
    if m is not None:
        v[m == 0] = np.nan
    want = np.full(shape, np.nan)
    skip = np.zeros(shape, bool)
    ext = np.r_[ang, ang[0] + 2 * np.pi]
    for p in np.ndindex(*shape):
        dy, dx = (p[0] - cen[0]) * px[0], (p[1] - cen[1]) * px[1]
        r = np.hypot(dx, dy)
        a = ang[0] + (np.arctan2(dy, dx) - ang[0]) % (2 * np.pi)
        if np.min(np.abs(r - radii)) < 1e-9 or np.min(np.abs(a - ext)) < 1e-9:
            skip[p] = True
            continue
        if r < radii[0] or r > radii[-1]:
            continue
        j = int(np.searchsorted(radii, r)) - 1
        k = int(np.searchsorted(ext, a)) - 1
        t = (r - radii[j]) / (radii[j + 1] - radii[j])
        u = (a - ext[k]) / (ext[k + 1] - ext[k])
        k2 = (k + 1) % na
        want[p] = (v[j, k] * (1 - t) * (1 - u) + v[j + 1, k] * t * (1 - u) + v[j, k2] * (1 - t) * u
                   + v[j + 1, k2] * t * u)
    c.close(np.where(skip, 0, got), np.where(skip, 0, want), "interpolation", rtol=1e-8, atol=1e-9)
    if rng.random() < 0.3:
        f = image.construct_rphi_avg_image
        c.rejects((ValueError,), f, radii, ang, pol, center=(3.0, 4.0))
        c.rejects((ValueError,), f, radii, np.r_[ang, ang[0] + 2 * np.pi + 1e-9], np.c_[pol, pol[:, 0]])
        c.rejects((ValueError,), f, radii, np.linspace(0, 2 * np.pi, na), pol)
        bad = pick(rng, np.ones((nr, na + 1)), np.ones((nr + 1, na)), np.ones(nr), np.ones((nr, na, 1)))
        c.rejects((ValueError,), f, radii, ang, pol, mask=bad)
    c.mark("rphi", tuple(sorted(kw)), bool(np.isfinite(want).any()))


def ring_image(shape, cen, radii, width, px=(1.0, 1.0), amp=100.0):
    yy, xx = np.mgrid[: shape[0], : shape[1]]
    r = np.hypot((yy - cen[0]) * px[0], (xx - cen[1]) * px[1])
    img = np.zeros(shape)
    for k, rr in enumerate(radii):
        img += amp / (1 + 0.2 * k) * np.exp(-((r - rr) ** 2) / (2 * width ** 2))
    return img


@workload("P15", quick=60)
def mirror_center(c):
    """The center of a centrosymmetric image, to the pixel."""
    rng = c.rng
    shape = (int(rng.integers(41, 90)), int(rng.integers(41, 90)))
    cen = tuple(int(n // 2 + rng.integers(-4, 5)) for n in shape)
    if c.i % 12 == 0:               # more pixels than 8 bits count, the center beyond the middle
        shape = (int(rng.integers(41, 90)), int(rng.integers(330, 520)))
        cen = (int(shape[0] // 2), int(rng.integers(262, shape[1] - 60)))
        if rng.random() < 0.5:
            shape, cen = shape[::-1], cen[::-1]
    yy, xx = np.mgrid[: shape[0], : shape[1]]
    r = np.hypot(yy - cen[0], xx - cen[1])
    w = min(shape) / 6
    prof = rng.random(max(shape)) ** 2
    img = np.interp(r, np.arange(len(prof)), prof) * np.exp(-(r / w) ** 2 / 2)
    if max(shape) > 300:            # no part of the long side without signal
        tex = rng.random(shape) ** 2
        img = tex[np.abs(yy - cen[0]), np.abs(xx - cen[1])] * np.exp(-((yy - cen[0]) / (min(cen[0], shape[0] - cen[0]) / 3)) ** 2 / 2
                                                                - ((xx - cen[1]) / (min(cen[1], shape[1] - cen[1]) / 3)) ** 2 / 2)
    dt = float
    if rng.random() < 0.4:          # counts, as a detector delivers them
        dt = pick(rng, np.uint8, np.uint16, np.int32, np.float32)
        top = {np.uint8: 255, np.uint16: 65535}.get(dt, 10 ** 6)
        img = np.floor(img / img.max() * top)
    # the center has to be decisive: most rows and columns agree on it clearly
    for a, k in ((img, cen[1]), (img.T, cen[0])):
        n = a.shape[1]
        score = np.stack([np.correlate(v, v[::-1], mode="full") / np.correlate(np.ones(n), np.ones(n), mode="full")
                          for v in a])
        best = score[:, 2 * k].copy()
        score[:, 2 * k] = 0
        if np.mean(best > 1.02 * score.max(axis=1)) < 0.6:
            raise Skip()
    img = img.astype(dt)
    got = c.call(image.find_ring_center_acorr_1D, img)
    c.expect(tuple(int(v) for v in got) == cen, "center", lambda: "%s instead of %s" % (got, cen))
    # shifting the image shifts the center
    got2 = c.call(image.find_ring_center_acorr_1D, img.T)
    c.expect(tuple(int(v) for v in got2) == cen[::-1], "center-of-transpose", lambda: "%s" % (got2,))
    c.mark("mirror", dt.__name__, cen[0] > shape[0] // 2, cen[1] > shape[1] // 2)


@workload("P15", quick=24, thorough=500)
def refined_center(c):
    rng = c.rng
    shape = (int(rng.integers(180, 260)), int(rng.integers(180, 260)))
    cen = tuple(n / 2 + rng.uniform(-15, 15) for n in shape)
    px = pick(rng, (1.0, 1.0), (0.5, 0.5), (1.0, 1.3))
    rmax = min(min(cn, n - cn) * p for cn, n, p in zip(cen, shape, px)) - 8 * max(px)
    rad = np.linspace(0.35, 0.9, 3) * rmax
    rmax0, top = rmax, rmax + 6 * max(px)
    if rng.random() < 0.4:      # another ring which only some directions see
        far = max(max(cn, n - cn) * p for cn, n, p in zip(cen, shape, px)) - 8 * max(px)
        if far > rmax + 16 * max(px):
            rad, top = np.r_[rad, far], far + 6 * max(px)
    img = ring_image(shape, cen, rad, 2.0 * max(px), px, amp=1000.0) + 20
    guess = tuple(cn + rng.uniform(-1.2, 1.2) for cn in cen)
    kw = dict(nx=int(rmax0 / min(px) * top / (rmax0 + 6 * max(px))), min_x=0, max_x=top)
    win = 4
    if rng.random() < 0.4:      # bins of the function itself: about a third of a pixel
        win = int(rng.integers(10, 18))
        kw = {}
    elif rng.random() < 0.3:    # a part of the radii: without the innermost ring
        kw["min_x"] = rad[:2].mean()
    mp = int(pick(rng, 1, 3, 9))
    # rings narrower than a bin or two are found with the noise of the bins, and fewer rings average less
    tol = 0.35 if not kw else 0.6 if kw.get("min_x") else 1.0 if mp == 1 else 0.8
    got = c.call(calib.refine_center, img, guess, px, phi_steps=int(pick(rng, 16, 20, 25)), max_peaks=mp,
                 thresh=0.1, window_size=win, **kw)
    err = np.hypot(got[0] - cen[0], got[1] - cen[1])
    err0 = np.hypot(guess[0] - cen[0], guess[1] - cen[1])
    c.expect(len(got) == 2 and bool(np.isfinite(err)), "center-shape")
    c.expect(err < tol + 0.15 * err0, "center-not-refined", lambda: "%.3f pixels off, the guess was %.3f off" % (err, err0))
    c.mark("refine", px)


@workload("P15", quick=16, thorough=300)
def refined_center_oblong(c):
    """pixels which are much longer than wide, or wider than long"""
    rng = c.rng
    f = float(rng.uniform(1.8, 4))
    u = float(10.0 ** rng.uniform(-2, 1))
    px = pick(rng, (u, f * u), (f * u, u))
    size = rng.uniform(170, 230, 2) * max(px)
    if c.i % 3 == 0:
        size = size * 1.5
    shape = tuple(int(v / p) for v, p in zip(size, px))
    if shape[0] * shape[1] > 500000:
        shape = tuple(min(n, 700) for n in shape)
    cen = tuple(n / 2 + rng.uniform(-6, 6) for n in shape)
    rmax = min(min(cn, n - cn) * p for cn, n, p in zip(cen, shape, px)) - 8 * max(px)
    if rmax < 60 * max(px):
        raise Skip()
    rad = np.linspace(0.35, 0.9, 3) * rmax
    img = ring_image(shape, cen, rad, 2.0 * max(px), px, amp=1000.0) + 20
    ang, off = rng.uniform(0, 2 * np.pi), rng.uniform(1, 3) * max(px)
    guess = (cen[0] + off * np.sin(ang) / px[0], cen[1] + off * np.cos(ang) / px[1])
    lim = rmax + 6 * max(px)
    nx = int(rmax / max(px))
    got = c.call(calib.refine_center, img, guess, px, phi_steps=int(pick(rng, 16, 20, 25, 37)), max_peaks=3, thresh=0.1,
                 window_size=4, nx=nx, min_x=0, max_x=lim)
    err = np.hypot((got[0] - cen[0]) * px[0], (got[1] - cen[1]) * px[1]) / (lim / nx)
    c.expect(err < 0.45, "center-not-refined", lambda: "%.3f bins off, the guess was %.3f off" % (err, off * nx / lim))
    c.mark("oblong", px[0] > px[1], round(f))


@workload("P15", quick=24, thorough=500)
def blind_distance(c):
    rng = c.rng
    name = pick(rng, "Si", "CeO2", "LaB6", "Ni")
    cal = None
    from skbeam.core.constants import calibration_standards
    cal = calibration_standards[name]
    d0 = float(10.0 ** rng.uniform(1.5, 2.6))
    tt = None
    lam = float(rng.uniform(0.015, 0.03))
    # the two-theta of the first rings, from their spacings: sin(theta) = lam / 2d
    ds = np.array([r.d for r in cal])[: int(rng.integers(3, 6))]
    unit = 10.0 if False else 1.0
    s = lam / (2 * ds / unit)
    if np.any(s > 0.6):
        raise Skip()
    tt = 2 * np.arcsin(s)
    rr = np.sort(d0 * np.tan(tt))
    gap = np.diff(rr).min() if len(rr) > 1 else rr[0]
    w = gap / 8
    x = np.linspace(0, rr[-1] + 6 * w, int((rr[-1] + 6 * w) / w * 5))
    y = sum(100.0 * np.exp(-((x - v) ** 2) / (2 * w * w)) for v in rr) + 1e-3
    got, std = c.call(calib.estimate_d_blind, name, lam, x, y, 4, len(rr), 0.05)
    c.close(got, d0, "distance", rtol=5e-3)
    c.expect(std < 5e-3 * d0, "spread", lambda: "%r of %r" % (std, d0))
    c.mark("blind", name)


@workload("P15", quick=60, thorough=2000)
def blind_distance_of_peaks(c):
    """mean and spread of the estimates of exactly the peaks which count"""
    rng = c.rng
    from skbeam.core.constants import calibration_standards
    name = pick(rng, *sorted(calibration_standards))
    lam = float(rng.uniform(0.005, 0.02))
    ds = np.array([r.d for r in calibration_standards[name]])
    s = lam / (2 * ds)
    if len(ds) < 2 or np.any(s > 0.6):
        raise Skip()
    tan = np.tan(2 * np.arcsin(s))
    # peaks of any distance, in a scan of evenly spaced bins; a Gaussian is refined exactly
    n = int(rng.integers(2, 8)) if rng.random() < 0.8 else int(rng.integers(8, 16))
    sig = float(rng.uniform(2, 5))
    gap = rng.uniform(16, 40, n) * sig
    at = np.cumsum(gap)
    h = rng.uniform(20, 100, n)
    x = np.arange(int(at[-1] + 20 * sig))
    win = int(rng.integers(2, int(3 * sig) + 1))
    thresh = float(pick(rng, 0.05, 0.3, 0.6))
    if rng.random() < 0.5:
        h[rng.random(n) < 0.4] *= 0.02
    if not (h > 1).any():
        h[0] = 50
    y = sum(a * np.exp(-((x - p) ** 2) / (2 * sig ** 2)) for a, p in zip(h, at))
    size = float(10.0 ** rng.uniform(-2, 1))
    off = float(rng.uniform(0, 50))
    used = []
    for p in at:
        k = int(np.rint(p))
        near = y[max(0, k - win):k + win + 1]
        lim = thresh * y.max()
        if abs(np.ptp(near) - lim) < 1e-3 * lim or abs(p - np.floor(p) - 0.5) < 1e-6:
            raise Skip()
        if np.ptp(near) > lim:
            used.append(off + size * p)
    if not used:
        raise Skip()
    top = int(pick(rng, 1, 2, 3, 7, 10, 20))
    m = min(len(used), top, len(tan))
    est = np.array(used[:m]) / tan[:m]
    got, std = c.call(calib.estimate_d_blind, name, lam, scramble_layout(rng, off + size * x), scramble_layout(rng, y),
                      win, top, thresh)
    c.close(got, est.mean(), "distance", rtol=1e-6)
    c.close(std, est.std(), "spread", rtol=1e-4, atol=1e-6 * est.mean())
    c.mark("peaks", len(used) < n, m == top, m == len(tan))


@workload("P15", quick=8, thorough=120)
def ring_centers(c):
    rng = c.rng
    shape = (100, 110)
    cen = (50 + int(rng.integers(-4, 5)), 55 + int(rng.integers(-4, 5)))
    rad = [16, 26, 36]
    yy, xx = np.mgrid[: shape[0], : shape[1]]
    r = np.hypot(yy - cen[0], xx - cen[1])
    img = np.zeros(shape)
    for v in rad:
        img[np.abs(r - v) < 2.5] = 10
    got, im, radii = c.call(roi.auto_find_center_rings, img, sigma=1, no_rings=2, _rep=False)
    # (x, y)
    c.expect(abs(got[1] - cen[0]) < 1.5 and abs(got[0] - cen[1]) < 1.5, "center", lambda: "%s instead of %s" % (got, cen))
    c.expect(np.shape(im)[:2] == shape, "image-shape")
    known = np.array([v + s for v in rad for s in (-2.5, 2.5)])
    c.expect(len(radii) == 2 and all(np.min(np.abs(known - v)) < 1.5 for v in radii), "radii", lambda: "%s" % (radii,))
    c.mark("rings", cen[0] > 50, cen[1] > 55)
    # the rings are drawn into a copy of the image, the later over the earlier ones
    from skimage.draw import circle_perimeter
    nr = int(rng.integers(1, 5))
    user = np.repeat(img[:, :, None] / 10, 3, axis=2) if rng.random() < 0.4 else img / 10
    got, im, radii = c.call(roi.auto_find_center_rings, user, sigma=1, no_rings=nr, _rep=False)
    c.expect(abs(got[1] - cen[0]) < 1.5 and abs(got[0] - cen[1]) < 1.5, "center", lambda: "%s instead of %s" % (got, cen))
    want = img / 10
    for k, v in enumerate(radii):
        rr, cc = circle_perimeter(got[1], got[0], int(v), shape=shape)
        want[rr, cc] = k + 1
    c.close(im, want, "rings-drawn", 1e-9, 1e-9)
    c.expect(len(radii) == nr and all(np.min(np.abs(known - v)) < 1.5 for v in radii)
             and (nr < 2 or np.min(np.diff(np.sort(radii))) > 2), "radii", lambda: "%s" % (radii,))


# ------------------------------------------------------------------ P28
NAMES = ["a", "b", "cc", "d1", "x_y"]
ODD = NAMES[:3] + ["A", "Cc", "a ", " b", "0", "1", "\xe4", "a-b", "keys", "items", "value", ""]
MANY = NAMES + ["n%d" % k for k in range(40)]


def rand_key(rng, names=NAMES):
    return ".".join(names[k] for k in rng.integers(0, len(names), int(rng.integers(1, 4 if rng.random() < 0.9 else 9))))


def rand_length(rng):
    """the names of a history and the number of its steps"""
    return pick(rng, (NAMES, 3, 25), (NAMES, 3, 25), (ODD, 3, 30), (MANY, 60, 120) if rng.random() < 0.3 else (NAMES, 25, 60))


def rand_val(rng):
    return pick(rng, 1, 2.5, "text", (5, "mm"), (7, None), [1, 2, 3], (1, 2), None, [4], {"k": 1}, (1,), "", (0, None), (0, "s"),
                (None, None), (False, ""), ("", "mm"), 0, False, (), (1, 2, 3), ("a", "b", "c"))


def below(key):
    return {".".join(key.split(".")[:n]) for n in range(1, key.count(".") + 1)}


@workload("P28", quick=400)
def md_history(c):
    """Sets, gets and deletes by dotted path, against a flat dictionary."""
    rng = c.rng
    MD = utils.md_value
    d = utils.MD_dict()
    if rng.random() < 0.2:
        d = utils.MD_dict({})
    ref = {}
    dead = set()        # branches which were emptied by deletions
    names, lo, hi = rand_length(rng)
    for _ in range(int(rng.integers(lo, hi))):
        op = rng.random()
        key = rand_key(rng, names) if not ref or rng.random() < 0.6 else pick(rng, *sorted(ref))
        br = set().union(*[below(k) for k in ref]) | dead
        leaf_above = any(p in ref for p in below(key))
        if op < 0.5:
            v = rand_val(rng)
            if rng.random() < 0.2:
                v = MD(pick(rng, 3, "name", None, [1, "mm"], (4, "m")), pick(rng, None, "mm", "text"))
            c.digest.update(repr((key, v)).encode())
            if leaf_above:
                # the parents above the leaf exist already
                c.rejects((KeyError,), d.__setitem__, key, v)
                c.mark("leaf-as-branch")
            else:
                c.call(d.__setitem__, key, v, _rep=False)
                if isinstance(v, MD):
                    want = v
                elif isinstance(v, str):
                    want = MD(v, "text")
                elif isinstance(v, tuple) and len(v) == 2 and (v[1] is None or isinstance(v[1], str)):
                    want = MD(*v)
                else:
                    want = MD(v, None)
                for k in [k for k in ref if key in below(k)]:
                    del ref[k]          # a value took the place of the branch
                dead = {k for k in dead if k != key and key not in below(k)}
                ref[key] = want
                c.mark("set", type(v).__name__)
        elif op < 0.8:
            if leaf_above:
                c.rejects((KeyError,), d.__getitem__, key)
                continue
            got = d[key]
            if key in ref:
                c.expect(isinstance(got, MD) and got == ref[key] and got.units == ref[key].units
                         and got.value == ref[key].value, "value", lambda: "%s: %r instead of %r" % (key, got, ref[key]))
                c.nontrivial = True
            elif key not in br:
                c.expect(got is None, "value-of-missing-key", lambda: "%s: %r" % (key, got))
            else:
                sub = {k[len(key) + 1:]: v for k, v in ref.items() if key in below(k)}
                if sub or got is not None:      # an emptied branch may be gone or empty
                    c.expect(hasattr(got, "items") and dict(got.items()) == sub, "branch", lambda: "%s: %r instead of %r" % (key, got, sub))
                c.mark("branch")
        elif ref and rng.random() < 0.8:
            key = pick(rng, *sorted(ref))
            c.call(d.__delitem__, key, _rep=False)
            dead |= below(key)
            del ref[key]
            c.mark("delete")
        elif key not in ref and key not in br:
            c.rejects((KeyError, AttributeError) if leaf_above else (KeyError,), d.__delitem__, key)
            c.mark("delete-missing", leaf_above)
        c.expect(sorted(d) == sorted(ref) and len(d) == len(ref), "keys", lambda: "%s instead of %s" % (sorted(d), sorted(ref)))
        for k in ref:
            c.expect(type(d[k]) is type(ref[k]) and d[k] == ref[k] and type(d[k].value) is type(ref[k].value), "value",
                     lambda: "%s: %r instead of %r" % (k, d[k], ref[k]))


def rc_text(tree, level=0):
    """The content as documented by the examples of the class: own values first, then the groups."""
    out = []
    for k in sorted(k for k, v in tree.items() if not isinstance(v, Group)):
        out.append("    " * level + "%s: %s" % (k, tree[k]))
    for k in sorted(k for k, v in tree.items() if isinstance(v, Group)):
        out.append("    " * level + "%s:" % k)
        out += rc_text(tree[k], level + 1)
    return out


class Group(dict):
    pass


@workload("P28", quick=400)
def rc_history(c):
    rng = c.rng
    d = utils.RCParamDict()
    ref = {}
    dead = set()
    checks = {}
    names, lo, hi = rand_length(rng)
    for _ in range(int(rng.integers(lo, hi))):
        op = rng.random()
        key = rand_key(rng, names) if not ref or rng.random() < 0.6 else pick(rng, *sorted(ref))
        br = set().union(*[below(k) for k in ref]) | dead
        leaf_above = any(p in ref for p in below(key))
        if op < 0.5:
            v = rand_val(rng)
            c.digest.update(repr((key, v)).encode())
            if leaf_above:
                c.rejects((KeyError,), d.__setitem__, key, v)
                c.mark("leaf-as-branch")
            elif key in checks and not checks[key](v):
                c.rejects((ValueError,), d.__setitem__, key, v)
                c.mark("refused-by-validator")
            else:
                c.call(d.__setitem__, key, v, _rep=False)
                for k in [k for k in ref if key in below(k)]:
                    del ref[k]
                dead = {k for k in dead if k != key and key not in below(k)}
                ref[key] = v
                c.mark("set")
        elif op < 0.55 and hasattr(d, "_validators") and "." not in key:
            checks[key] = d._validators[key] = pick(rng, lambda v: isinstance(v, str), lambda v: v is not None,
                                                    lambda v: not isinstance(v, tuple))
        elif op < 0.8:
            if key in ref:
                c.expect(d[key] == ref[key] and type(d[key]) is type(ref[key]) and d.get(key, "no") == ref[key], "value")
                c.expect(key in d, "contains")
            elif key not in br:
                c.rejects((KeyError,), d.__getitem__, key)
                c.expect(key not in d and d.get(key, "no") == "no", "contains")
                c.rejects((KeyError,), d.__delitem__, key)
            else:
                sub = {k[len(key) + 1:]: v for k, v in ref.items() if key in below(k)}
                got = d.get(key) if not sub else d[key]
                if sub or got is not None:
                    c.expect(hasattr(got, "items") and dict(got.items()) == sub, "branch", lambda: "%s: %r instead of %r" % (key, got, sub))
        elif ref:
            key = pick(rng, *sorted(ref))
            c.call(d.__delitem__, key, _rep=False)
            dead |= below(key)
            del ref[key]
            if key not in {b for b in dead}:
                c.rejects((KeyError,), d.__delitem__, key)
            c.mark("delete")
        c.expect(sorted(d) == sorted(ref) and len(d) == len(ref), "keys")
        c.expect(dict(d.items()) == ref, "items")
        if not dead and rng.random() < 0.4:
            tree = Group()
            for k in sorted(ref):
                t = tree
                for part in k.split(".")[:-1]:
                    t = t.setdefault(part, Group())
                t.setdefault(k.split(".")[-1], ref.get(k, Group()))
            text = repr(d)
            c.expect(text == "\n".join(rc_text(tree)), "repr", lambda: "%r instead of %r" % (text, rc_text(tree)))


@workload("P28", quick=60)
def verbose_history(c):
    rng = c.rng
    n = int(rng.integers(0, 40))
    src = {"k%d" % k: int(rng.integers(0, 99)) for k in range(n)}
    d = utils.verbosedict(src)
    for k, v in src.items():
        c.expect(d[k] == v, "value")
    c.expect(dict(d) == src and len(d) == n, "items")
    try:
        d["missing"]
        c.expect(False, "accepts-missing")
    except KeyError as e:
        c.expect("missing" in str(e), "message")
        if 0 < n < 25:
            c.expect(all(k in str(e) for k in src), "message")
        if n >= 25:
            c.expect(str(n) in str(e), "message", lambda: str(e))
    c.calls += 1
    c.digest.update(repr(src).encode())
    c.mark("verbose", n < 25)
