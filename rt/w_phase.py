"""P17 differential phase contrast, P18 coherent diffraction imaging, P27 (DPC)."""
import copy

import numpy as np
from scipy.ndimage import gaussian_filter

from .core import Skip, lazy, scramble_layout, workload
from .w_corr import clone, split
from .w_geom import pick

dpc = lazy("skbeam.core.dpc")
cdi = lazy("skbeam.core.cdi")


# ------------------------------------------------------------------ P17
@workload("P17", quick=160)
def reduction(c):
    rng = c.rng
    top = 15 if rng.random() < 0.85 else 90
    shape = (int(rng.integers(1, top)), int(rng.integers(1, top)))
    im = rng.integers(0, 1000, shape).astype(pick(rng, np.int64, np.float64, np.int32, np.uint16))
    if rng.random() < 0.2:
        im = rng.integers(100, 256, shape).astype(np.uint8)
    elif rng.random() < 0.2:        # more digits than single precision has; the sums are exact all the same
        im = (rng.integers(0, 2 ** 40, shape) / 1024.0).astype(np.float64)
    bad = None
    if rng.random() < 0.6:
        bad = [(int(rng.integers(0, shape[0])), int(rng.integers(0, shape[1]))) for _ in range(int(rng.integers(0, 5)))]
    roi = None
    if rng.random() < 0.6:
        r, q = int(rng.integers(0, shape[0])), int(rng.integers(0, shape[1]))
        roi = [r, q, int(rng.integers(1, shape[0] - r + 1)), int(rng.integers(1, shape[1] - q + 1))]
    if bad and im.dtype.kind != "u":        # whatever a bad pixel shows
        for a, b in bad:
            im[a, b] = pick(rng, -5, 10 ** 6, np.nan if im.dtype.kind == "f" else -1, 0)
    ref = [[float(v) for v in row] for row in im]
    for a, b in bad or ():
        ref[a][b] = 0.0
    if roi:
        ref = [row[roi[1]: roi[1] + roi[3]] for row in ref[roi[0]: roi[0] + roi[2]]]
    user = roi
    if roi is not None:
        user = pick(rng, roi, np.array(roi), tuple(roi))
    x, y = c.call(dpc.image_reduction, scramble_layout(rng, im), user, bad)
    c.equal(np.asarray(x, float), np.array([sum(row[j] for row in ref) for j in range(len(ref[0]))]), "column-sums")
    c.equal(np.asarray(y, float), np.array([sum(row) for row in ref]), "row-sums")
    c.mark("reduction", roi is None, bad is None)


@workload("P17", quick=120)
def phase_reconstruction(c):
    """recon inverts the gradient in Fourier space"""
    rng = c.rng
    rows, cols = int(rng.integers(1, 12)), int(rng.integers(1, 12))
    dx, dy = (float(v) for v in rng.uniform(0.05, 3, 2))
    if rng.random() < 0.2:
        dx, dy = (float(v) for v in 10.0 ** rng.uniform(-4, 4) * rng.uniform(0.5, 2, 2))
    if rng.random() < 0.1:          # scanned backwards
        dx = -dx
    if rng.random() < 0.1:
        dy = -dy
    pad = int(rng.integers(0, 3)) if rng.random() < 0.9 else int(rng.integers(3, 6))
    if rng.random() < 0.06:
        rows, cols, pad = int(rng.integers(1, 70)), int(rng.integers(40, 140)), int(rng.integers(0, 2))
    w = float(pick(rng, 0.5, rng.uniform(0, 1), 0.0, 1.0))
    gx, gy = rng.normal(0, 1, (2, rows, cols))
    P, Q = rows * (2 * pad + 1), cols * (2 * pad + 1)
    GX, GY = np.zeros((2, P, Q))
    sl = (slice(pad * rows, pad * rows + rows), slice(pad * cols, pad * cols + cols))
    GX[sl], GY[sl] = gx, gy
    kx = 2 * np.pi * np.fft.fftfreq(Q, dx)[None, :]
    ky = 2 * np.pi * np.fft.fftfreq(P, dy)[:, None]
    den = (1 - w) * kx ** 2 + w * ky ** 2
    num = -1j * ((1 - w) * kx * np.fft.fft2(GX) + w * ky * np.fft.fft2(GY))
    with np.errstate(all="ignore"):
        want = np.fft.ifft2(np.where(den == 0, 0, num / den))[sl].real
    args = (scramble_layout(rng, gx), gy, dx, dy, pad, w)
    got = c.call(dpc.recon, *args)
    scale = max(np.abs(gx).max() * abs(dx), np.abs(gy).max() * abs(dy)) * max(P, Q)
    c.close(got, want, "phase", 1e-7, 1e-10 * scale)
    bad = float(pick(rng, -0.1, 1.1))
    c.rejects(ValueError, dpc.recon, gx, gy, dx, dy, pad, bad)
    c.mark("recon", pad, w in (0.0, 1.0), rows % 2, cols % 2)


@workload("P17", quick=80)
def phase_from_its_gradients(c):
    """the phase of a periodic object comes back from its exact gradients"""
    rng = c.rng
    rows, cols = c.n(4, 20, 150), c.n(4, 20, 150)
    dx, dy = (float(v) for v in rng.uniform(0.1, 2, 2))
    y, x = np.mgrid[:rows, :cols]
    ph, gx, gy = np.zeros((3, rows, cols))
    for _ in range(3):
        m, n = int(rng.integers(0, (cols - 1) // 2 + 1)), int(rng.integers(0, (rows - 1) // 2 + 1))
        if m == n == 0:
            continue
        a, f = rng.uniform(0.2, 2), rng.uniform(0, 6)
        arg = 2 * np.pi * (m * x / cols + n * y / rows) + f
        ph += a * np.sin(arg)
        gx += a * np.cos(arg) * 2 * np.pi * m / (cols * dx)
        gy += a * np.cos(arg) * 2 * np.pi * n / (rows * dy)
    got = c.call(dpc.recon, gx, gy, dx, dy)
    c.close(got, ph, "phase-of-gradients", 1e-7, 1e-8)
    c.mark("object", rows % 2, cols % 2)


def gen_scan(rng, points):
    """patterns which are the reference attenuated and moved by known steps"""
    n, m = int(rng.integers(16, 30)), int(rng.integers(16, 30))
    y, x = np.mgrid[:n, :m]
    sy, sx = rng.uniform(1.2, 2.2, 2)
    cy, cx = n / 2 + rng.uniform(-1, 1), m / 2 + rng.uniform(-1, 1)

    def spot(a, dy, dx):
        return a * 1000 * np.exp(-((y - cy - dy) / sy) ** 2 / 2 - ((x - cx - dx) / sx) ** 2 / 2)

    a = rng.uniform(0.5, 1.5, points)
    dy, dx = rng.uniform(-1, 1, (2, points))
    return spot(1, 0, 0), np.array([spot(*v) for v in zip(a, dy, dx)]), a, dy, dx


@workload("P17", quick=40, thorough=800)
def fit_of_the_patterns(c):
    """amplitude and gradient of each scan point are stored at its place"""
    rng = c.rng
    rows, cols = int(rng.integers(1, 4)), int(rng.integers(1, 4))
    ref, ims, a, dy, dx = gen_scan(rng, rows * cols)
    N, M = ref.shape
    kw = {}
    if rng.random() < 0.3:          # a detector counts
        t = pick(rng, np.uint32, np.int32, np.int64, np.float32)
        ref, ims = np.rint(ref * 500).astype(t), np.rint(ims * 500).astype(t)
    if rng.random() < 0.4:
        kw["bad_pixels"] = [(0, 0), (N - 1, M - 1)]
        ims = ims.copy()
        ims[:, 0, 0] = 1e6
        ref = ref.copy()
        ref[N - 1, M - 1] = 1e6
    if rng.random() < 0.4:
        kw["roi"] = [1, 1, N - 2, M - 1]
    rn, rm = (N, M) if "roi" not in kw else (N - 2, M - 1)
    solver = pick(rng, "Nelder-Mead", "Nelder-Mead", "Powell", "L-BFGS-B")
    states = c.call(dpc.lazy_dpc, ref, ims, [1, 0], rows, cols, solver, _mat=list, **kw)
    c.expect(len(states) == rows * cols, "one-state-per-image")
    s = states[-1]
    c.close(s.ax, a.reshape(rows, cols), "amplitude-x", 0.01)
    c.close(s.ay, a.reshape(rows, cols), "amplitude-y", 0.01)
    c.close(s.gx, (2 * np.pi * dx / rm).reshape(rows, cols), "gradient-x", 0.02, 2e-3)
    c.close(s.gy, (2 * np.pi * dy / rn).reshape(rows, cols), "gradient-y", 0.02, 2e-3)
    c.mark("fit", rows, cols, solver, tuple(sorted(kw)), rn % 2, rm % 2)
    # the images from the result
    energy, px, dist = float(rng.uniform(5, 20)), float(rng.uniform(20, 80)), float(pick(rng, rng.uniform(1e5, 1e6), rng.uniform(0.01, 3)))
    sx, sy = (float(v) for v in rng.uniform(0.1, 2, 2))
    neg, scale, pad, w = bool(rng.random() < 0.5), bool(rng.random() < 0.6), int(rng.integers(0, 2)), 0.3
    ph, amp = c.call(dpc.reconstruct_phase_from_partial_info, s, energy, sx, sy, px, dist, neg, scale, pad, w)
    c.close(amp, (s.ax + s.ay) / 2, "amplitude", 1e-12)
    lam = 12.4e-4 / energy
    f = px / (lam * dist) if scale else 1.0
    gx = s.gx * (f * rm if scale else 1.0) * (-1 if neg else 1)
    gy = s.gy * (f * rn if scale else 1.0)
    want = dpc.recon(gx, gy, sx, sy, pad, w)
    size = np.abs(gx).max() * sx * cols + np.abs(gy).max() * sy * rows      # of the phase
    c.close(ph, want, "scaled-phase", 1e-8, 1e-10 * size)
    p2, a2 = c.call(dpc.dpc_runner, ref, ims, [1, 0], (px, px), dist, rows, cols, sx, sy, energy, pad, w,
                    solver, kw.get("roi"), kw.get("bad_pixels"), neg, scale)
    c.close(p2, ph, "runner-phase", 1e-6, 1e-8 * size)
    c.close(a2, amp, "runner-amplitude", 1e-6)
    c.rejects(ValueError, dpc.dpc_runner, ref, ims, [1, 0], (px, px + 1), dist, rows, cols, sx, sy, energy)
    c.rejects(ValueError, dpc.reconstruct_phase_from_partial_info, s, energy, sx, sy, px, dist, neg, scale, pad,
              float(pick(rng, -0.1, -1e-9, 1.001, 1.5, 2)))
    # what is not given has the documented value
    size = px / (lam * dist) * max(1.0, rm, rn) * (np.abs(s.gx).max() * sx * cols + np.abs(s.gy).max() * sy * rows)
    full = c.call(dpc.reconstruct_phase_from_partial_info, s, energy, sx, sy, px, dist, True, True, 0, 0.5)[0]
    c.equal(c.call(dpc.reconstruct_phase_from_partial_info, s, energy, sx, sy, px, dist)[0], full, "default-phase")
    if solver == "Nelder-Mead":
        p3, _ = c.call(dpc.dpc_runner, ref, ims, [1, 0], (px, px), dist, rows, cols, sx, sy, energy, **kw)
        c.close(p3, full, "default-runner-phase", 1e-6, 1e-8 * size)
    # without the size of the pixels or the distance there is nothing to scale with
    if scale:
        q = c.call(dpc.reconstruct_phase_from_partial_info, s, energy, sx, sy, None, None, neg, True, pad, w)[0]
        q2 = c.call(dpc.reconstruct_phase_from_partial_info, s, energy, sx, sy, px, dist, neg, False, pad, w)[0]
        c.equal(q, q2, "nothing-to-scale")
    # scan points to come are empty
    part = c.call(dpc.lazy_dpc, ref, ims[:1], [1, 0], rows, cols, solver, _mat=list, **kw)[0]
    for k in ("ax", "ay", "gx", "gy"):
        c.expect(np.all(np.ravel(getattr(part, k))[1:] == 0), "points-to-come", k)


@workload("P27", quick=24, thorough=400, pure=False)
def resume_dpc(c):
    rng = c.rng
    rows, cols = int(rng.integers(1, 4)), int(rng.integers(1, 4))
    n = rows * cols
    ref, ims, a, dy, dx = gen_scan(rng, n)
    c.note(ims)
    whole = c.call(lambda: list(dpc.lazy_dpc(ref, ims, [1, 0], rows, cols))[-1])
    state = None
    for u, v in split(rng, n):
        for s in dpc.lazy_dpc(ref, ims[u:v], [1, 0], rows, cols, dpc_state=state):
            kept = s
        if v > u:
            state = clone(rng, kept)
    for k in ("ax", "ay", "gx", "gy"):
        c.close(getattr(state, k), getattr(whole, k), "resumed-dpc", 1e-6, 1e-9, k)
    c.close((state.ax + state.ay) / 2, a.reshape(rows, cols), "resumed-dpc-amplitude", 0.01)
    c.mark("dpc", rows, cols)


# ------------------------------------------------------------------ P18
def gen_cdi(rng, top=12):
    ndim = int(rng.integers(2, 4))
    if ndim == 2 and rng.random() < 0.06:
        top = 70
    return tuple(int(v) for v in rng.integers(3, top if ndim == 2 else 8, ndim))


def ft(a):
    return np.fft.fftn(a) / np.sqrt(a.size)


@workload("P18", quick=120)
def modulus_projection(c):
    rng = c.rng
    shape = gen_cdi(rng)
    obj = rng.normal(0, 1, shape) + 1j * rng.normal(0, 1, shape)
    if rng.random() < 0.3:
        obj = obj.real
    pat = rng.uniform(0.1, 5, shape) * 10.0 ** rng.integers(-2, 4)
    wide = rng.random() < 0.2
    if wide:                        # weak objects, and data of many orders of magnitude
        obj = obj * 10.0 ** rng.integers(-6, 3)
        pat = pat * 10.0 ** rng.integers(-8, 1, shape)
    zero = rng.random(shape) < pick(rng, 0.0, 0.3)
    pat[zero] = pick(rng, 0.0, -1.0)      # pixels without data
    F = ft(obj)
    got = c.call(cdi.pi_modulus, obj, pat)
    G = ft(got)
    top = np.abs(G).max()
    # the modulus of the data where there is data, the object elsewhere
    fine = ~zero & (np.abs(F) > 1e-7)
    c.close(np.abs(G[fine]), pat[fine], "modulus", 1e-5 + 2e-12 / np.abs(F).max(), 1e-14 * top * np.sqrt(pat.size))
    c.expect(bool(np.all(np.abs(G[~zero]) <= pat[~zero] * (1 + 1e-6) + 1e-14 * top * np.sqrt(pat.size))), "modulus")
    c.close(G[zero], F[zero], "unmeasured", 1e-6, 1e-14 * top * np.sqrt(pat.size))
    keep = ~zero & (np.abs(F) > 1e-3 * np.abs(F).max()) & (pat > 1e-6 * top)
    c.close(G[keep] / np.abs(G[keep]), F[keep] / np.abs(F[keep]), "phase", 1e-5, 1e-6)
    c.close(c.call(cdi.pi_modulus, got, pat), got, "projection-twice", 1e-6, (1e-3 if wide else 1e-8) * top)
    e = c.call(cdi.cal_diff_error, obj, np.abs(pat))
    c.close(e, np.sqrt(np.sum((np.abs(F) - np.abs(pat)) ** 2) / np.sum(pat ** 2)), "pattern-error", 1e-9)
    c.close(c.call(cdi.cal_diff_error, obj, np.abs(F)), 0.0, "pattern-error-zero", 0, 1e-12)
    c.mark("modulus", len(shape), bool(zero.any()))


@workload("P18", quick=100)
def supports(c):
    rng = c.rng
    shape = gen_cdi(rng, 16) if rng.random() < 0.85 else (int(rng.integers(20, 90)), int(rng.integers(20, 300)))
    r = int(rng.integers(1, max(2, min(shape) // 2 + 1)))
    idx = np.indices(shape)
    d2 = sum((g - s // 2) ** 2 for g, s in zip(idx, shape))
    rad = pick(rng, float(r), r, float(rng.uniform(0.3, 9)))
    user = pick(rng, shape, list(shape))
    amb = np.abs(np.sqrt(d2) - rad) < 1e-9 if isinstance(rad, float) and rad != int(rad) else np.zeros(shape, bool)
    got = c.call(cdi.generate_disk_support, rad, user)
    c.equal(np.where(amb, 0, got), np.where(amb, 0, (d2 < rad * rad).astype(float)), "disk")
    if rng.random() < 0.2:      # larger than the image
        r = int(rng.integers(1, 2 * max(shape)))
    box = np.ones(shape, bool)
    for g, s in zip(idx, shape):
        box &= (g >= s // 2 - r) & (g < s // 2 + r)
    c.equal(c.call(cdi.generate_box_support, r, user), box.astype(float), "box")
    sig = float(rng.uniform(0.3, 6))
    w = np.exp(-d2 / (2 * sig ** 2))
    c.close(c.call(cdi.gauss, user, sig), w / w.sum(), "gauss", 1e-9, 1e-300)
    # the support found in an object
    obj = rng.normal(0, 1, shape) + 1j * rng.normal(0, 1, shape)
    s, t = float(rng.uniform(0.2, 2)), float(rng.uniform(0.05, 0.95))
    f = gaussian_filter(np.abs(obj), s)
    doubt = np.abs(f - t * f.max()) < 1e-9 * f.max()
    got = c.call(cdi.find_support, obj, s, t)
    c.equal(np.asarray(got)[~doubt], (f >= t * f.max())[~doubt], "support")
    # the whole image for the threshold 0, the maximum itself for 1
    c.expect(bool(np.all(c.call(cdi.find_support, obj * rng.integers(0, 2, shape), s, 0.0))), "support-threshold-0")
    tip = np.asarray(c.call(cdi.find_support, obj, s, 1.0))
    c.expect(bool(tip.any()) and bool(np.all(f[tip] > f.max() * (1 - 1e-9))), "support-threshold-1")
    c.mark("support", len(shape), r)


@workload("P18", quick=60, pure=False)
def random_start(c):
    rng = c.rng
    shape = gen_cdi(rng)
    pat = rng.uniform(0, 5, shape)
    np.random.seed(int(rng.integers(0, 2 ** 31)))
    a = c.call(cdi.generate_random_phase_field, pat, _rep=False)
    b = c.call(cdi.generate_random_phase_field, pat, _rep=False)
    for x in (a, b):
        c.close(np.abs(ft(x)), pat, "start-modulus", 1e-9, 1e-10)
    c.expect(not np.allclose(a, b), "start-not-random")
    # every phase is as likely as any other
    big = c.call(cdi.generate_random_phase_field, np.ones((48, 48)), _rep=False)
    ph = np.exp(1j * np.angle(ft(big)))
    c.expect(max(abs(ph.mean()), abs((ph ** 2).mean()), abs((ph ** 3).mean())) < 0.16, "start-not-uniform",
             lambda: [abs((ph ** k).mean()) for k in (1, 2, 3)])
    c.mark("start", len(shape))


def project(obj, pat):
    F = ft(obj)
    k = pat > 0
    F[k] = pat[k] * F[k] / (np.abs(F[k]) + 1e-12)
    return np.fft.ifftn(F) * np.sqrt(pat.size)


def recon_reference(pattern, obj, sup, beta, start_avg, real, sw, n_iter):
    """Elser's difference map with f_i = (1 + g_i) P_i - g_i"""
    pat = np.fft.fftshift(np.asarray(pattern, float))
    obj = np.array(obj)
    out = sup != 1
    g1, g2 = -1 / beta, 1 / beta
    oe, de, cnt, avg, hist = [], [], 0, np.zeros(obj.shape, complex), []
    sizes, old_size = [], {0, int(np.sum(sup == 1))}
    for n in range(n_iter):
        old = obj.copy()
        pm = project(obj, pat)
        pm = np.abs(pm) if real else pm
        a = (1 + g2) * pm - g2 * obj
        a[out] = 0
        ps = obj.copy()
        ps[out] = 0
        b = project((1 + g1) * ps - g1 * obj, pat)
        b = np.abs(b) if real else b
        obj = obj + beta * (a - b)
        oe.append(np.linalg.norm(obj - old) / np.linalg.norm(old))
        de.append(np.linalg.norm(np.abs(ft(obj)) - pat) / np.linalg.norm(pat))
        sizes.append({0})
        if sw and sw["start"] * n_iter <= n <= sw["end"] * n_iter and n % sw["step"] == 0:
            f = gaussian_filter(np.abs(obj), sw["sigma"])
            if np.any(np.abs(f - sw["thr"] * f.max()) < 1e-6 * f.max()):
                raise Skip
            out = ~(f >= sw["thr"] * f.max())
            new = int(out.size - out.sum())
            sizes[-1] = old_size | {new}        # that of the support before or after
            old_size = {new}
        if n > start_avg * n_iter:
            avg = avg + obj
            cnt += 1
        hist.append(obj.copy())
    return (avg / cnt if cnt else obj), oe, de, hist, sizes


@workload("P18", quick=100)
def difference_map(c):
    rng = c.rng
    shape = gen_cdi(rng, 14)
    true = np.zeros(shape, complex)
    sl = tuple(slice(s // 2 - 1, s // 2 + 1) for s in shape)
    true[sl] = rng.uniform(0.5, 2, true[sl].shape) * np.exp(1j * rng.uniform(0, 1, true[sl].shape))
    real = rng.random() < 0.3
    if real:
        true = np.abs(true)
    pat = np.fft.ifftshift(np.abs(ft(true)))
    sup = np.zeros(shape)
    sup[tuple(slice(max(s // 2 - 2, 0), s // 2 + 2) for s in shape)] = 1
    start = rng.normal(0, 1, shape) + 1j * rng.normal(0, 1, shape)
    if rng.random() < 0.25:         # in any unit of the intensity
        f = 10.0 ** rng.integers(-4, 8)
        start, pat = start * f, pat * f
    n = int(rng.integers(1, 9))
    beta, sa = float(rng.uniform(0.6, 1.3)), float(pick(rng, rng.uniform(0, 1), 0.25, 0.5, 0.75, 0.0))
    sw = None
    kw = {"sw_flag": False}
    if rng.random() < 0.5:
        sw = dict(start=float(rng.uniform(0, 0.5)), end=float(rng.uniform(0.5, 1)), step=int(rng.integers(1, 4)),
                  sigma=float(rng.uniform(0.3, 1)), thr=float(rng.uniform(0.05, 0.4)))
        if rng.random() < 0.4:      # limits which are iterations themselves
            n, sw["start"], sw["end"] = pick(rng, 4, 8), pick(rng, 0.0, 0.25, 0.5), pick(rng, 0.5, 0.75)
        kw = dict(sw_flag=True, sw_start=sw["start"], sw_end=sw["end"], sw_step=sw["step"], sw_sigma=sw["sigma"],
                  sw_threshold=sw["thr"])
    want, oe, de, hist, sizes = recon_reference(pat, start, sup, beta, sa, real, sw, n)
    calls = []
    step = int(rng.integers(1, 5))

    def cb(obj, a, b, s):
        calls.append((np.array(obj), np.array(a), np.array(b), np.array(s)))

    flag = pick(rng, "real", "Real") if real else pick(rng, "Complex", "complex")
    kw.update(beta=beta, start_avg=sa, pi_modulus_flag=flag, n_iterations=n, cb_function=cb, cb_step=step)
    if rng.random() < 0.2:
        sup = sup.astype(pick(rng, int, np.uint8, np.float32))
    obj, err = c.call(cdi.cdi_recon, pat, start, sup, **kw)
    # round-off is amplified by a bounded factor per iteration
    tol = 1e-9 * 6.0 ** n
    c.close(obj, want, "reconstruction", tol, tol * np.abs(want).max())
    c.close(err["obj_error"], np.array(oe), "object-error", tol, tol)
    c.close(err["diff_error"], np.array(de), "diffraction-error", tol, tol)
    c.expect(len(err["sup_error"]) == n and all(v in s for v, s in zip(err["sup_error"], sizes)), "support-size",
             lambda: (err["sup_error"], sizes))
    if not c.watch:
        c.expect(len(calls) == n // step, "callbacks", lambda: (len(calls), n, step))
        for k, (o, a, b, s) in enumerate(calls):
            m = (k + 1) * step
            c.close(o, hist[m - 1], "callback-object", tol, tol * np.abs(hist[m - 1]).max())
            c.close(a[:m], np.array(oe[:m]), "callback-error", tol, tol)
            c.close(b[:m], np.array(de[:m]), "callback-error", tol, tol)
            c.expect(all(v in z for v, z in zip(s[:m], sizes)), "callback-support-size")
    c.mark("recon", len(shape), real, sw is not None, n)
    c.rejects(ValueError, cdi.cdi_recon, pat, start, sup, pi_modulus_flag="imaginary", n_iterations=1)


@workload("P18", quick=40)
def solution_is_fixed(c):
    """an object which fits the data and the support is not changed"""
    rng = c.rng
    shape = gen_cdi(rng, 14)
    true = np.zeros(shape, complex)
    sl = tuple(slice(s // 2 - 1, s // 2 + 1) for s in shape)
    true[sl] = rng.uniform(0.5, 2, true[sl].shape) * np.exp(1j * rng.uniform(0, 6, true[sl].shape))
    sup = (np.abs(true) > 0).astype(float)
    pat = np.fft.ifftshift(np.abs(ft(true)))
    if np.abs(pat).min() < 1e-3:
        raise Skip
    n = int(rng.integers(1, 25))
    obj, err = c.call(cdi.cdi_recon, pat, true, sup, n_iterations=n, sw_flag=False)
    c.close(obj, true, "fixed-point", 1e-5, 1e-6)
    c.expect(np.max(err["obj_error"]) < 1e-5 and np.max(err["diff_error"]) < 1e-5, "fixed-point-error")
    c.mark("fixed", len(shape))


@workload("P18", quick=16, thorough=200)
def documented_defaults(c):
    """what is not given has the documented value"""
    rng = c.rng
    shape = tuple(int(v) for v in rng.integers(6, 12, 2))
    pat = rng.uniform(0.1, 3, shape)
    start = rng.normal(size=shape) + 1j * rng.normal(size=shape)
    sup = np.zeros(shape)
    sup[1:-1, 1:-1] = 1
    n = int(pick(rng, 30, 57, 125, 250))
    full = dict(beta=1.15, start_avg=0.8, pi_modulus_flag="Complex", sw_flag=True, sw_sigma=0.5, sw_threshold=0.1,
                sw_start=0.2, sw_end=0.8, sw_step=10)
    want, err = c.call(cdi.cdi_recon, pat, start, sup, n_iterations=n, _lay=False, **full)
    if not np.isfinite(np.abs(want)).all():
        raise Skip
    drop = rng.random(len(full)) < 0.5
    some = {k: v for (k, v), x in zip(full.items(), drop) if not x}
    obj, err2 = c.call(cdi.cdi_recon, pat, start, sup, n_iterations=n, _lay=False, **some)
    c.equal(obj, want, "default", sorted(set(full) - set(some)))
    c.equal(err2["diff_error"], err["diff_error"], "default-error")
    if c.i < 2:
        obj, err2 = c.call(cdi.cdi_recon, pat[:6, :6], start[:6, :6], sup[:6, :6], sw_flag=False, _rep=False)
        c.expect(len(err2["diff_error"]) == 1000, "default-iterations", lambda: len(err2["diff_error"]))
    calls = []
    c.call(cdi.cdi_recon, pat, start, sup, n_iterations=n, cb_function=lambda *a: calls.append(1), _rep=False)
    if not c.watch:
        c.expect(len(calls) == n // 10, "default-callbacks", lambda: (n, len(calls)))
