"""P11 regions of interest, P12 statistics of regions of interest."""
import numpy as np

from .core import Skip, detector_image, finding, lazy, scramble_layout, workload
from .w_geom import pick

roi = lazy("skbeam.core.roi")


def gen_shape(rng, top=26):
    if rng.random() < 0.03:         # a line detector
        n = int(rng.integers(200, 900))
        return pick(rng, (1, n), (2, n), (n, 1))
    if rng.random() < 0.04:         # large in both directions
        return (int(rng.integers(60, 350)), int(rng.integers(60, 350)))
    return (int(rng.integers(1, top)), int(rng.integers(1, top)))


def gen_center(rng, shape):
    if rng.random() < 0.4:
        return (int(rng.integers(-3, shape[0] + 3)), int(rng.integers(-3, shape[1] + 3)))
    return tuple(float(v) for v in rng.uniform(-5, 30, 2))


def gen_edges(rng, integer):
    n = int(rng.integers(1, 6))
    if rng.random() < 0.03:         # very many thin ones
        n = int(rng.integers(120, 300))
        e = np.cumsum(rng.uniform(0.01, 0.12, 2 * n)) if not integer else rng.integers(0, 2, 2 * n).cumsum()
        return e.reshape(-1, 2)
    e = rng.integers(0, 4, 2 * n).cumsum() if integer else np.cumsum(rng.uniform(0.05, 3, 2 * n))
    if rng.random() < 0.3:          # touching regions
        e[2::2] = e[1:-1:2]
    e = np.sort(e)
    return e.reshape(-1, 2)


def near(rng, e, v):
    """some of the edges just beside the value of a pixel"""
    e = np.array(e, float)
    f = e.ravel()
    for k in rng.integers(0, len(f), int(rng.integers(1, 4))):
        lo, hi = (f[k - 1] if k else -np.inf), (f[k + 1] if k + 1 < len(f) else np.inf)
        t = v.ravel()[int(rng.integers(0, v.size))] + pick(rng, -1, 1) * 10.0 ** rng.uniform(-7.5, -3)
        if lo < t < hi and t > 0:
            f[k] = t
    return e


def as_user(rng, e):
    return pick(rng, e, [tuple(v) for v in e.tolist()], e.tolist())


def label_by_edges(v, edges, exact):
    """label per value, and where it is in doubt"""
    want = np.zeros(v.shape, int)
    for k, (a, b) in enumerate(edges):
        want[(v >= a) & (v < b)] = k + 1
    amb = np.zeros(v.shape, bool)
    if not exact:
        for a in np.ravel(edges):
            amb |= np.abs(v - a) < 1e-9
    return want, amb


# ------------------------------------------------------------------ P11
@workload("P11", quick=160)
def label_rings(c):
    rng = c.rng
    shape, integer = gen_shape(rng), rng.random() < 0.5
    cen = gen_center(rng, shape)
    e = gen_edges(rng, integer)
    yy, xx = np.mgrid[: shape[0], : shape[1]]
    r = np.hypot(yy - cen[0], xx - cen[1])
    exact = integer and isinstance(cen[0], int)
    if exact:
        r = np.sqrt((yy - cen[0]) ** 2 + (xx - cen[1]) ** 2)
    elif not integer and rng.random() < 0.3:
        e = near(rng, e, r)
    want, amb = label_by_edges(r, e, exact)
    got = c.call(roi.rings, as_user(rng, e), cen, shape)
    c.expect(np.asarray(got).dtype.kind in "iu", "label-type")
    c.equal(np.where(amb, 0, got), np.where(amb, 0, want), "rings")
    c.mark("rings", exact, bool(want.any()))


@workload("P11", quick=120)
def edges_of_rings(c):
    rng = c.rng
    n = c.n(1, 8, 200)
    inner = float(rng.uniform(0, 9))
    wl, sl = rng.random() < 0.5, rng.random() < 0.5
    width = rng.uniform(0.1, 5, n) if wl else float(rng.uniform(0.1, 5))
    spacing = rng.uniform(0, 3, n - 1) if sl else float(rng.uniform(0, 3))
    if rng.random() < 0.4:          # whole numbers, in any of the arguments
        ints = rng.random(3) < 0.6
        if ints[0]:
            inner = int(rng.integers(0, 9))
        if ints[1]:
            width = rng.integers(1, 6, n) if wl else int(rng.integers(1, 6))
        if ints[2]:
            spacing = rng.integers(0, 4, n - 1) if sl else int(rng.integers(0, 4))
    kw = {}
    if not (wl or sl) or rng.random() < 0.4:
        kw["num_rings"] = n
    if sl or rng.random() < 0.7:
        kw["spacing"] = spacing if not sl or rng.random() < 0.5 else list(spacing)
    else:
        spacing = 0.0
    got = c.call(roi.ring_edges, inner, width if not wl or rng.random() < 0.5 else tuple(width), **kw)
    W, S = np.broadcast_to(width, n), np.broadcast_to(spacing, max(n - 1, 0))
    want, r = [], inner
    for k in range(n):
        want.append((r, r + W[k]))
        r += W[k] + (S[k] if k < n - 1 else 0)
    c.close(got, np.array(want), "ring-edges", rtol=1e-12)
    if wl and n > 1:
        c.rejects((ValueError,), roi.ring_edges, inner, list(width), spacing=[0.5] * (n + 1))
        c.rejects((ValueError,), roi.ring_edges, inner, list(width), spacing=[0.5] * n)
        c.rejects((ValueError,), roi.ring_edges, inner, list(width), spacing=[0.5] * (n - 2))
        c.rejects((ValueError,), roi.ring_edges, inner, list(width), num_rings=n + 1)
        c.rejects((ValueError,), roi.ring_edges, inner, list(width), num_rings=n - 1)
        c.rejects((ValueError,), roi.ring_edges, inner, 1.0, spacing=[0.5] * n, num_rings=n)
        c.rejects((ValueError,), roi.ring_edges, inner, 1.0, spacing=[0.5] * (n - 1), num_rings=n - 1)
        c.rejects((ValueError,), roi.ring_edges, inner, 1.0, spacing=[0.5] * (n - 1), num_rings=n + 1)
    c.rejects((ValueError,), roi.ring_edges, inner, 1.0)
    c.mark("edges", wl, sl, "num_rings" in kw)


@workload("P11", quick=160)
def label_segments(c):
    rng = c.rng
    shape = gen_shape(rng)
    cen = gen_center(rng, shape)
    integer = rng.random() < 0.3
    e = gen_edges(rng, integer)
    off = 0.0
    kw = {}
    if rng.random() < 0.6:
        off = kw["offset_angle"] = float(rng.uniform(-7, 7))
        if rng.random() < 0.25:
            off = kw["offset_angle"] = pick(rng, 1e-17, -1e-17, 2 * np.pi, -2 * np.pi, np.pi / 2, -np.pi, 4 * np.pi, -1e-16)
    if rng.random() < 0.5:
        seg = n = int(pick(rng, rng.integers(1, 9), rng.integers(1, 9), rng.integers(50, 300)))
        bounds = 2 * np.pi * np.arange(n + 1) / n
        start = off
    else:
        n = int(rng.integers(1, 6))
        tot = rng.uniform(0.5, 2 * np.pi) if rng.random() < 0.7 else 2 * np.pi
        bounds = np.r_[0, np.cumsum(rng.uniform(0.3, 1, n))]
        bounds *= tot / bounds[-1]
        bounds[-1] = tot
        first = float(rng.uniform(-3, 3))
        seg = bounds + first
        start = first + off
        if rng.random() < 0.5:
            seg = seg.tolist()
    yy, xx = np.mgrid[: shape[0], : shape[1]]
    r = np.hypot(yy - cen[0], xx - cen[1])
    a = np.mod(np.arctan2(yy - cen[0], xx - cen[1]) - start, 2 * np.pi)
    if not integer and rng.random() < 0.3:
        e = near(rng, e, r)
    if not isinstance(seg, int) and n > 1 and rng.random() < 0.5:
        b = np.r_[0, near(rng, bounds[1:], a)]
        if b[-1] <= 2 * np.pi:
            bounds = b
            seg = bounds + first
    exact = integer and isinstance(cen[0], int)
    if exact:
        r = np.sqrt((yy - cen[0]) ** 2 + (xx - cen[1]) ** 2)
    ring, amb = label_by_edges(r, e, exact)
    sector = np.searchsorted(bounds, a, side="right")
    amb |= (np.abs(a[..., None] - np.r_[bounds, 2 * np.pi]) < 1e-9).any(axis=-1)
    amb |= r < 1e-9
    want = np.where((ring > 0) & (sector <= n), sector + n * (ring - 1), 0)
    got = c.call(roi.segmented_rings, as_user(rng, e), seg, cen, shape, **kw)
    c.equal(np.where(amb, 0, got), np.where(amb, 0, want), "segments")
    # equal slices of the full circle leave no gap in a ring, not even on the boundaries
    if isinstance(seg, int):
        ok = exact | (np.min(np.abs(r[..., None] - e.ravel()), axis=-1) > 1e-9)
        c.equal((np.asarray(got) > 0)[ok], (ring > 0)[ok], "gap-in-ring")
        c.expect(int(np.max(got)) <= n * len(e), "label-range")
    c.mark("segments", isinstance(seg, int), bool(kw), bool(want.any()))


@workload("P11", quick=160)
def label_rectangles(c):
    rng = c.rng
    shape = gen_shape(rng)
    n = c.n(1, 6, 40)
    co = [(int(rng.integers(-6, shape[0] + 5)), int(rng.integers(-6, shape[1] + 5)), int(rng.integers(0, 9)),
           int(rng.integers(0, 9))) for _ in range(n)]
    want = np.zeros(shape, int)
    overlap = False
    for k, (x, y, w, h) in enumerate(co):
        for i in range(max(x, 0), min(x + w, shape[0])):
            for j in range(max(y, 0), min(y + h, shape[1])):
                overlap |= want[i, j] != 0
                want[i, j] = k + 1
    if overlap:
        c.rejects((ValueError,), roi.rectangles, co, shape)
        c.mark("overlap")
        return
    got = c.call(roi.rectangles, pick(rng, co, np.array(co)), shape)
    c.equal(got, want, "rectangles")
    c.mark("rectangles", n, bool(want.any()))


@workload("P11", quick=160)
def label_bars(c):
    rng = c.rng
    shape = gen_shape(rng)
    e = gen_edges(rng, rng.random() < 0.6)
    horiz = bool(rng.random() < 0.5)
    kw = {}
    exact = True
    if rng.random() < 0.3:
        v = rng.normal(8, 6, shape)
        kw["values"] = v.ravel()
        want, amb = label_by_edges(v, e, False)
    else:
        yy, xx = np.mgrid[: shape[0], : shape[1]]
        want, amb = label_by_edges((yy if horiz else xx).astype(float), e, True)
    got = c.call(roi.bar, as_user(rng, e), shape, horizontal=horiz, **kw)
    c.equal(np.where(amb, 0, got), np.where(amb, 0, want), "bars", detail="horizontal=%s" % horiz)
    c.mark("bar", horiz, bool(kw), bool(want.any()))


@workload("P11", quick=100)
def label_boxes(c):
    rng = c.rng
    shape = gen_shape(rng)
    v = gen_edges(rng, True)
    kw = {}
    h = v
    if rng.random() < 0.7:
        h = gen_edges(rng, True)
        if len(h) * len(v) > 3000:
            h = h[: 3000 // len(v)]
        kw["h_edges"] = as_user(rng, h)
    elif len(v) > 60:
        v = h = v[:60]
    want = np.zeros(shape, int)
    n = 0
    for a in h:
        for b in v:
            n += 1
            want[a[0]:max(a[1], 0), b[0]:max(b[1], 0)] = n
    got = c.call(roi.box, shape, as_user(rng, v), **kw)
    c.equal(got, want, "boxes")
    if rng.random() < 0.3:
        c.rejects((ValueError,), roi.box, shape, v, h_values=np.zeros(shape), v_values=np.zeros((shape[0] + 1, shape[1])))
    c.mark("box", "h_edges" in kw, bool(want.any()))


@finding("P11", "box-values")
def f_box():
    # the region 0.0 <= h < 0.2, 0.0 <= v < 0.2 of a grid with steps of 0.1 has four pixels
    v, h = np.mgrid[:6, :6] * 10.0
    got = roi.box((6, 6), [(0, 20)], [(0, 20)], h_values=h, v_values=v)
    return not np.array_equal(got > 0, (h < 20) & (v < 20))


@workload("P11", quick=120)
def label_lines(c):
    rng = c.rng
    shape = gen_shape(rng)
    n = int(pick(rng, rng.integers(1, 5), rng.integers(5, 12)))
    pts = [tuple(int(v) for v in (rng.integers(-5, shape[0] + 5), rng.integers(-5, shape[1] + 5),
                                  rng.integers(-5, shape[0] + 5), rng.integers(-5, shape[1] + 5))) for _ in range(n)]
    got = np.asarray(c.call(roi.lines, pts, shape))
    c.expect(got.shape == shape, "label-shape")
    clip = lambda p: (min(max(p[0], 0), shape[0] - 1), min(max(p[1], 0), shape[1] - 1))
    allowed = np.zeros((n + 1,) + shape, bool)
    yy, xx = np.mgrid[: shape[0], : shape[1]]
    for k, p in enumerate(pts):
        a, b = clip(p[:2]), clip(p[2:])
        d = np.array(b) - np.array(a)
        m = max(abs(int(d[0])), abs(int(d[1])))
        if m == 0:
            near = (yy == a[0]) & (xx == a[1])
        else:
            # within half a pixel of the segment along the minor axis
            ax = 0 if abs(d[0]) >= abs(d[1]) else 1
            major, minor = (yy, xx) if ax == 0 else (xx, yy)
            t = (major - a[ax]) / d[ax]
            near = (t >= 0) & (t <= 1) & (np.abs(minor - (a[1 - ax] + t * d[1 - ax])) <= 0.5 + 1e-9)
        allowed[k + 1] = near
        own = (got == k + 1)
        c.expect(not np.any(own & ~near), "line-pixel-off", lambda: "line %d %s" % (k + 1, p))
        if k == n - 1:      # nothing was drawn over the last one
            c.expect(bool(own[a] and own[b]), "line-end-missing")
            c.expect(int(own.sum()) == m + 1, "line-length", lambda: "%d pixels instead of %d" % (own.sum(), m + 1))
    c.expect(not np.any((got > 0) & ~allowed[1:].any(axis=0)), "line-pixel-off")
    c.expect(bool(got.min() >= 0 and got.max() <= n), "label-range")
    c.rejects((ValueError,), roi.lines, [(0, 0, 1)], shape)
    c.mark("lines", n)


@workload("P11", quick=60)
def label_rejects(c):
    rng = c.rng
    shape = gen_shape(rng)
    cen = gen_center(rng, shape)
    e = gen_edges(rng, False).ravel()
    odd = e[:-1].tolist()
    c.rejects((ValueError,), roi.rings, odd, cen, shape)
    c.rejects((ValueError,), roi.segmented_rings, odd, 3, cen, shape)
    c.rejects((ValueError,), roi.bar, odd, shape)
    k = int(rng.integers(0, len(e) - 1))
    e[k], e[k + 1] = e[k + 1] + 1, e[k]
    c.rejects((ValueError,), roi.rings, e.reshape(-1, 2), cen, shape)
    c.rejects((ValueError,), roi.segmented_rings, e.reshape(-1, 2), 3, cen, shape)
    c.rejects((ValueError,), roi.bar, e.reshape(-1, 2), shape)
    # one pair out of order among many
    up = np.sort(rng.uniform(1, 40, 2 * int(rng.integers(2, 5)))) + np.arange(1)
    k = int(rng.integers(0, len(up) - 1))
    up[k], up[k + 1] = up[k + 1] + 0.5, up[k]
    c.rejects((ValueError,), roi.rings, up, cen, shape)
    c.rejects((ValueError,), roi.segmented_rings, up, 3, cen, shape)
    c.rejects((ValueError,), roi.bar, up, shape)
    down = np.sort(rng.integers(1, 40, 2 * int(rng.integers(1, 4))))[::-1].astype(float)
    down[-1] -= 0.5
    down[:2] = down[0]
    if len(down) > 2:
        c.rejects((ValueError,), roi.rings, down, cen, shape)
        c.rejects((ValueError,), roi.segmented_rings, down, 3, cen, shape)
        c.rejects((ValueError,), roi.bar, down, shape)
    c.rejects((ValueError,), roi.box, shape, up[:3])
    c.rejects((ValueError,), roi.box, shape, [1, 3], h_edges=up[:3])
    c.mark("rejects", len(e))


@workload("P11", quick=12)
def wide_images(c):
    """more columns, rows and regions than fit in 16 bits"""
    rng = c.rng
    n = int(rng.integers(66000, 70000))
    shape = pick(rng, (1, n), (n, 1), (2, n))
    ax = int(shape[1] == n)
    a = int(rng.integers(32768, n - 20))
    w = int(rng.integers(1, 15))
    lab = np.zeros(n, int)
    lab[a:a + w] = 1
    lab[n - 3:] = 2
    shown = np.broadcast_to(lab, shape) if ax else lab[:, None]
    co = [(0, a, shape[0], w), (0, n - 3, shape[0], 9)] if ax else [(a, 0, w, 1), (n - 3, 0, 9, 1)]
    if a + w <= n - 3:
        c.equal(c.call(roi.rectangles, co, shape), shown, "wide-rectangles")
        c.equal(c.call(roi.bar, [(a, a + w), (n - 3, n)], shape, horizontal=not ax), shown, "wide-bars")
        got = c.call(roi.rings, [(a, a + w), (n - 3, n + 9)], (0, 0), (1, n) if ax else (n, 1))
        c.equal(np.ravel(got), lab, "wide-rings")
    got = c.call(roi.bar, np.stack([np.arange(n), np.arange(n) + 1], axis=1), shape, horizontal=not ax) if c.i % 6 == 5 else None
    if got is not None:
        k = np.arange(1, n + 1)
        c.equal(got, np.broadcast_to(k, shape) if ax else k[:, None], "one-region-per-pixel")
    k = int(rng.integers(33000, n))
    got = c.call(roi.lines, [(0, k, 0, k - 5) if ax else (k, 0, k - 5, 0)], shape)
    line = np.zeros(shape, int)
    if ax:
        line[0, k - 5:k + 1] = 1
    else:
        line[k - 5:k + 1, 0] = 1
    c.equal(got, line, "wide-lines")
    c.mark("wide", ax, shape[0])


# ------------------------------------------------------------------ P12
def gen_labels(rng, shape, gaps=True, far=301):
    n = int(rng.integers(1, 6))
    if rng.random() < 0.05:
        n = int(rng.integers(100, 500))
    lab = rng.integers(0, n + 1, shape)
    if gaps and rng.random() < 0.4:
        lab = np.where(lab == 1, 0, lab)      # a label without pixels
    if gaps and rng.random() < 0.3:
        lab = lab * int(pick(rng, 3, 3, 64, 301, far))
    if lab.max() < 256 and rng.random() < 0.2:
        return lab.astype(pick(rng, np.uint8, np.uint16, np.int16))
    return lab.astype(pick(rng, np.int64, np.int32, np.int64))


def gen_image(rng, shape):
    return pick(rng, lambda: rng.poisson(5, shape), lambda: rng.normal(size=shape) * 10.0 ** rng.uniform(-3, 3),
                lambda: rng.integers(0, 65535, shape).astype(np.uint16), lambda: rng.random(shape).astype(np.float32),
                lambda: 1e7 + rng.random(shape))()


@workload("P12", quick=160)
def means(c):
    rng = c.rng
    shape = gen_shape(rng)
    lab = gen_labels(rng, shape, far=100003)
    if not lab.any():
        raise Skip()
    n = c.n(1, 5, 120)
    imgs = [gen_image(rng, shape) for _ in range(n)]
    kw = {}
    here = [int(v) for v in np.unique(lab) if v]
    idx = here
    k = int(rng.integers(0, 4))
    if k == 1:
        idx = [int(v) for v in rng.permutation(here)[: rng.integers(1, len(here) + 1)]]
        kw["index"] = pick(rng, idx, tuple(idx), np.array(idx))
    elif k == 2:
        idx = [here[-1]]
        kw["index"] = here[-1]
    hole = None
    if rng.random() < 0.15:         # a pixel without data spoils its own region only
        hole = (int(rng.integers(0, n)), int(rng.integers(0, shape[0])), int(rng.integers(0, shape[1])))
        imgs[hole[0]] = imgs[hole[0]].astype(float)
        imgs[hole[0]][hole[1:]] = np.nan
    arg = imgs if rng.random() < 0.5 or len({i.dtype for i in imgs}) > 1 else np.array(imgs)
    m, out = c.call(roi.mean_intensity, arg, lab, **kw)
    c.equal(np.asarray(out), idx, "index")
    want = np.array([[im[lab == l].astype(float).mean() for l in idx] for im in imgs])
    c.close(m, want, "mean", rtol=1e-5 if any(i.dtype == np.float32 for i in imgs) else 1e-9,
            atol=1e-6 if any(i.dtype == np.float32 for i in imgs) else 1e-12 * max(np.nanmax(np.abs(i), initial=0) for i in imgs))
    c.rejects((ValueError,), roi.mean_intensity, imgs, np.ones((shape[0] + 1, shape[1]), int))
    c.mark("mean", k, len(here))


@workload("P12", quick=100)
def pixels(c):
    rng = c.rng
    shape = gen_shape(rng)
    lab = gen_labels(rng, shape, far=3)
    if not lab.any():
        raise Skip()
    img = gen_image(rng, shape)
    kw = {}
    idx = list(range(1, lab.max() + 1))
    if rng.random() < 0.4:
        idx = kw["index"] = [int(v) for v in rng.permutation(idx)[: rng.integers(1, len(idx) + 1)]]
    pix, out = c.call(roi.roi_pixel_values, scramble_layout(rng, img), lab, **kw)
    c.equal(np.asarray(out), idx, "index")
    c.expect(len(pix) == len(idx), "number-of-regions")
    for v, l in zip(pix, idx):
        c.equal(v, img[lab == l], "pixel-values")
    if rng.random() < 0.1:
        lab = np.where(lab > 0, lab.astype(np.int64) * (1 + 70000 * (lab.astype(np.int64) % 2)), 0)
    elif rng.random() < 0.02:       # as many pixels as a detector has
        shape = (int(rng.integers(200, 400)), int(rng.integers(200, 400)))
        lab = rng.integers(0, 4, shape) * pick(rng, 1, 100)
        img = gen_image(rng, shape)
    mask, ind = c.call(roi.extract_label_indices, scramble_layout(rng, lab))
    c.equal(ind, np.flatnonzero(lab.ravel() > 0), "indices")
    c.equal(mask, lab.ravel()[lab.ravel() > 0], "label-mask")
    n = int(rng.integers(1, 5)) if rng.random() < 0.9 or img.size > 9999 else int(rng.integers(100, 300))
    imgs = np.array([img] + [rng.permutation(img.ravel()).reshape(shape) for _ in range(n - 1)])
    l = int(pick(rng, *np.unique(lab[lab > 0])))
    ky = c.call(roi.kymograph, imgs, lab, l)
    c.equal(ky, np.array([im[lab == l] for im in imgs]), "kymograph")
    c.rejects((ValueError,), roi.roi_pixel_values, img, np.ones((shape[0] + 1, shape[1]), int))
    c.mark("pixels", "index" in kw)


@workload("P12", quick=80)
def brightest(c):
    rng = c.rng
    shape = gen_shape(rng)
    lab = gen_labels(rng, shape)
    if not lab.any():
        raise Skip()
    top = pick(rng, 50, 50, 1, 0.05, 0)
    sets = [[rng.poisson(rng.uniform(0.1, 1) * top, shape) for _ in range(c.n(1, 4, 40))]
            for _ in range(c.n(1, 4, 12))]
    if rng.random() < 0.3:
        sets = [[np.asarray(im * rng.uniform(0.5, 2)) for im in s] for s in sets]
    elif rng.random() < 0.3:
        sets = [[np.asarray(im, pick(rng, np.uint8, np.int16, np.float32)) for im in s] for s in sets]
    got = c.call(roi.roi_max_counts, [np.array(s) for s in sets], lab)
    want = max(im[lab > 0].max().item() for s in sets for im in s)
    c.expect(got == want, "max-counts", lambda: "%r instead of %r" % (got, want))
    c.mark("max", want > 0)


@workload("P12", quick=160)
def ring_average(c):
    rng = c.rng
    shape = gen_shape(rng)
    cen = gen_center(rng, shape)
    img = gen_image(rng, shape) if rng.random() < 0.5 else detector_image(rng, shape)
    kw = {}
    px = (1.0, 1.0)
    if rng.random() < 0.5:
        px = kw["pixel_size"] = tuple(float(v) for v in rng.uniform(0.2, 3, 2))
    keep = np.ones(shape, bool)
    if rng.random() < 0.5:
        keep = rng.random(shape) < 0.8
        kw["mask"] = keep.astype(pick(rng, int, np.uint8, bool, float))
    if not keep.any():
        raise Skip()
    nx = 100
    if rng.random() < 0.8:
        nx = kw["nx"] = c.n(1, 20, 300)
    th = 0
    if rng.random() < 0.4:
        th = kw["threshold"] = int(rng.integers(0, 6))
    yy, xx = np.mgrid[: shape[0], : shape[1]]
    r = np.hypot((yy - cen[0]) * px[0], (xx - cen[1]) * px[1])[keep]
    v = img[keep].astype(float)
    lo, hi = r.min(), r.max()
    if rng.random() < 0.4:
        lo = kw["min_x"] = pick(rng, float(rng.uniform(0, 4)), float(rng.uniform(0, 4)), 0)
    if rng.random() < 0.4:
        hi = kw["max_x"] = float(max(lo + 0.5, rng.uniform(2, 30)))
    if hi - lo < 1e-6:
        raise Skip()
    e = lo + (hi - lo) * np.arange(nx + 1) / nx
    if "min_x" not in kw:
        r[r == r.min()] = lo
    inner = np.abs(r[:, None] - e[None, :]) < 1e-9 * (1 + hi)
    if "min_x" not in kw:
        inner[:, 0] = False
    if "max_x" not in kw:
        inner[:, -1] = False
    if inner.any():
        raise Skip()
    b = np.clip(np.searchsorted(e, r, side="right") - 1, -1, nx)
    if "max_x" not in kw:
        b[r >= e[-1] - 1e-9] = nx - 1
    if "min_x" not in kw:
        b[r <= e[0] + 1e-9] = 0 if nx > 0 else b[r <= e[0]]
    cx, cy = [], []
    for k in range(nx):
        sel = b == k
        if sel.sum() > th:
            cx.append((e[k] + e[k + 1]) / 2)
            cy.append(v[sel].mean())
    gx, gy = c.call(roi.circular_average, img, cen, **kw)
    c.close(gx, cx, "centers", rtol=1e-9, atol=1e-10 * (1 + hi))
    c.close(gy, cy, "average", rtol=1e-9, atol=1e-12 * np.abs(v).sum())
    c.mark("average", tuple(sorted(kw)))


@workload("P12", quick=12)
def many_pixels(c):
    """regions with more pixels, and pixels with more counts, than 16 bits hold"""
    rng = c.rng
    shape = pick(rng, (300, 301), (1, 70000), (70000, 1))
    lab = np.zeros(shape, int)
    flat = lab.ravel()
    cut = int(rng.integers(1000, 4000))
    flat[cut:] = 1
    flat[-5:] = 2
    dt = pick(rng, np.uint8, np.uint16, np.int32, np.float32, float)
    top = 250 if dt is np.uint8 else 65000
    imgs = rng.integers(top // 2, top, (2,) + shape).astype(dt)
    m, idx = c.call(roi.mean_intensity, imgs, lab)
    want = [[im[lab == l].astype(float).mean() for l in (1, 2)] for im in imgs]
    c.close(m, want, "mean-of-many-pixels", rtol=1e-4 if dt is np.float32 else 1e-9)
    mask, ind = c.call(roi.extract_label_indices, lab)
    c.equal(ind, np.flatnonzero(flat), "many-indices")
    c.equal(mask, flat[flat > 0], "many-labels")
    pix, _ = c.call(roi.roi_pixel_values, imgs[0], lab)
    c.equal(pix[0], imgs[0][lab == 1], "many-pixel-values")
    c.expect(c.call(roi.roi_max_counts, [imgs], lab) == imgs[:, lab > 0].max(), "many-max-counts")
    c.mark("many", dt.__name__, shape[0] == 1)
