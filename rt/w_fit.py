"""P19 lineshapes, distributions and models, P20 SNIP background, P21 XRF model and fit."""
import copy

import numpy as np
from scipy import special, stats
from scipy.integrate import quad
from scipy.optimize import nnls

from .core import Skip, finding, lazy, scramble_layout, workload
from .w_geom import pick

fit = lazy("skbeam.core.fitting")
xm = lazy("skbeam.core.fitting.xrf_model")
models = lazy("skbeam.core.fitting.models")
pdata = lazy("skbeam.core.fitting.base.parameter_data")
xrf = lazy("skbeam.core.constants.xrf")

FWHM = 2 * np.sqrt(2 * np.log(2))


def gen_x(rng, cen, width):
    n = int(rng.integers(1, 60)) if rng.random() < 0.96 else int(np.exp(rng.uniform(4, 10)))
    x = cen + width * rng.uniform(-8, 8, n)
    if rng.random() < 0.5:
        x = np.sort(x)
    if rng.random() < 0.1:
        x = np.rint(x).astype(pick(rng, np.int64, np.int32, float))
    if n % 2 == 0 and rng.random() < 0.1:       # any shape
        x = x.reshape(pick(rng, (2, n // 2), (n, 1), (n // 2, 1, 2)))
    return scramble_layout(rng, x)


def norm_pdf(x, cen, sig):
    return stats.norm.pdf(np.asarray(x, float), cen, sig)


# ------------------------------------------------------------------ P19
@workload("P19", quick=200)
def peak_profiles(c):
    rng = c.rng
    area, cen, sig = float(10 ** rng.uniform(-2, 6)), float(rng.uniform(-50, 50)), float(10 ** rng.uniform(-2, 1.5))
    x = gen_x(rng, cen, sig)
    G, L = norm_pdf(x, cen, sig), stats.cauchy.pdf(np.asarray(x), cen, sig)
    tiny = 1e-290
    c.close(c.call(fit.gaussian, x, area, cen, sig), area * G, "gaussian", 1e-9, tiny)
    c.close(c.call(fit.lorentzian, x, area, cen, sig), area * L, "lorentzian", 1e-9)
    f = pick(rng, float(rng.uniform(0, 1)), float(rng.uniform(0, 1)), 0, 1)
    c.close(c.call(fit.pvoigt, x, area, cen, sig, f), area * ((1 - f) * G + f * L), "pvoigt", 1e-9, tiny)
    gam = float(10 ** rng.uniform(-2, 1))
    c.close(c.call(fit.voigt, x, area, cen, sig, gam), area * special.voigt_profile(np.asarray(x) - cen, sig, gam),
            "voigt", 1e-8)
    c.close(c.call(fit.voigt, x, area, cen, sig, pick(rng, 0, 0.0)), area * G, "voigt-without-lorentzian", 1e-8, tiny)
    c.close(c.call(fit.voigt, x, area, cen, sig), area * special.voigt_profile(np.asarray(x) - cen, sig, sig),
            "voigt-default", 1e-8)
    e = float(rng.uniform(1, 20))
    c.close(c.call(fit.gausssian_step, x, area, cen, sig, e), area * stats.norm.sf(np.asarray(x), cen, sig) / e,
            "step", 1e-8, tiny)
    w = sig / np.pi / (((np.asarray(x) - cen) ** 2 + sig ** 2) / sig) ** 2 / sig * sig
    c.close(c.call(fit.lorentzian2, x, area, cen, sig), area * L ** 2 * np.pi * sig, "lorentzian2", 1e-9)
    del w
    # integer positions
    xi = np.arange(int(cen) - 5, int(cen) + 6)
    c.close(c.call(fit.gaussian, xi, area, cen, sig), area * norm_pdf(xi, cen, sig), "gaussian-integer", 1e-9, tiny)
    c.mark("profile")


@workload("P19", quick=120)
def compton_tail(c):
    rng = c.rng
    area, cen, sig, gam = (float(10 ** rng.uniform(-1, 4)), float(rng.uniform(-20, 20)),
                           float(10 ** rng.uniform(-1.5, 1)), float(10 ** rng.uniform(-0.5, 1)))
    x = gen_x(rng, cen, sig)
    xx = np.asarray(x, float)
    # an exponential tail below the center convolved with the peak (Van Gysel, eq. for T)
    want = area * np.exp(np.minimum(xx - cen, 0) / (gam * sig)) / (2 * gam * sig * np.exp(-0.5 / gam ** 2)) \
        * special.erfc((xx - cen) / (np.sqrt(2) * sig) + 1 / (gam * np.sqrt(2)))
    c.close(c.call(fit.gaussian_tail, x, area, cen, sig, gam), want, "tail", 1e-8, 1e-290)
    c.mark("tail")


@workload("P19", quick=30)
def areas(c):
    """the area parameter is the integral"""
    rng = c.rng
    area, cen, sig = float(10 ** rng.uniform(-1, 4)), float(rng.uniform(-5, 5)), float(10 ** rng.uniform(-1, 1))
    gam, f = float(10 ** rng.uniform(-1, 0.5)), float(rng.uniform(0, 1))
    c.note(area, cen, sig, gam, f)

    def integral(fn, *p):
        lim = 4000 * sig
        pts = cen + np.concatenate([-np.geomspace(lim, 1e-3 * sig, 400), np.geomspace(1e-3 * sig, lim, 400)])
        tot = 0.0
        for a, b in zip(pts[:-1], pts[1:]):
            m, h = (a + b) / 2, (b - a) / 2
            t = np.array([-0.906179845938664, -0.538469310105683, 0, 0.538469310105683, 0.906179845938664])
            w = np.array([0.236926885056189, 0.478628670499366, 0.568888888888889, 0.478628670499366,
                          0.236926885056189])
            tot += h * np.sum(w * np.asarray(fn(m + h * t, *p)))
        return tot

    for name, p in (("gaussian", (area, cen, sig)), ("lorentzian", (area, cen, sig)),
                    ("pvoigt", (area, cen, sig, f)), ("voigt", (area, cen, sig, gam))):
        v = c.call(integral, getattr(fit, name), *p)
        c.close(v, area, "area-of-" + name, 2e-3 + 2e-3 * gam)
    c.mark("area")


@finding("P19", "lorentzian2-area")
def lorentzian2_area():
    x = np.linspace(-2000, 2000, 400001)
    v = np.trapezoid(fit.lorentzian2(x, 1.0, 0.0, 1.0), x)
    return abs(v - 1) > 0.1


@workload("P19", quick=120)
def photon_statistics(c):
    rng = c.rng
    n = int(rng.integers(1, 200)) if rng.random() < 0.8 else 2000
    k = np.arange(n)
    if rng.random() < 0.3:
        k = k.astype(float)
    K = float(10 ** rng.uniform(-2, 2.7))
    M = float(pick(rng, rng.integers(1, 60), rng.uniform(0.5, 20)))
    c.close(c.call(fit.poisson_dist, k, K), stats.poisson.pmf(k, K), "poisson", 1e-7, 1e-250)
    c.close(c.call(fit.nbinom_dist, k, K, M), stats.nbinom.pmf(k, M, M / (K + M)), "nbinom", 1e-7, 1e-250)
    ok = k > 0
    c.close(np.asarray(c.call(fit.gamma_dist, k, K, M))[ok], stats.gamma.pdf(k, M, scale=K / M)[ok], "gamma", 1e-7, 1e-250)
    # no photons at all: every mass sits on zero counts
    zero = (k == 0).astype(float)
    c.close(c.call(fit.poisson_dist, k, 0.0), zero, "poisson of no photons", 0, 1e-12)
    c.close(c.call(fit.nbinom_dist, k, 0.0, M), zero, "nbinom of no photons", 0, 1e-12)
    c.mark("photon", n > 500)


def elastic_ref(x, amp, e0, off, fano, a, b, q, eps=2.96):
    en = a + b * x + q * x ** 2
    return amp * norm_pdf(en, e0, np.sqrt((off / FWHM) ** 2 + e0 * eps * fano))


def tail_ref(d, sig, gam):
    return np.exp(np.minimum(d, 0) / (gam * sig)) / (2 * gam * sig * np.exp(-0.5 / gam ** 2)) \
        * special.erfc(d / (np.sqrt(2) * sig) + 1 / (gam * np.sqrt(2)))


def compton_ref(x, amp, e0, off, fano, a, b, q, ang, corr, fs, ft, gam, hft, hgam, eps=2.96):
    en = a + b * x + q * x ** 2
    ec = e0 / (1 + e0 / 511 * (1 - np.cos(np.deg2rad(ang))))
    sig = np.sqrt((off / FWHM) ** 2 + ec * eps * fano)
    v = norm_pdf(en, ec, sig * corr) + fs * stats.norm.sf(en, ec, sig) / ec
    v = v + ft * tail_ref(en - ec, sig, gam) + hft * tail_ref(ec - en, sig, hgam)
    return amp * v / (1 + fs + ft + hft)


def gen_scatter(rng):
    return dict(coherent_sct_energy=float(rng.uniform(6, 20)), fwhm_offset=float(rng.uniform(0.05, 0.2)),
                fwhm_fanoprime=float(rng.uniform(1e-5, 3e-4)), e_offset=float(rng.uniform(-0.1, 0.1)),
                e_linear=float(rng.uniform(0.005, 0.02)), e_quadratic=float(pick(rng, 0.0, rng.uniform(-1e-7, 1e-7))))


@workload("P19", quick=150)
def scatter_peaks(c):
    rng = c.rng
    p = gen_scatter(rng)
    e0 = p["coherent_sct_energy"]
    n = c.n(2, 400, 9000)
    x = np.linspace(0, (e0 + 2) / p["e_linear"], n)
    if rng.random() < 0.5:
        x = np.rint(x)
    kw = {} if rng.random() < 0.5 else {"epsilon": float(rng.uniform(2, 5))}
    eps = kw.get("epsilon", 2.96)
    amp = float(10 ** rng.uniform(0, 5))
    cal = (p["fwhm_offset"], p["fwhm_fanoprime"], p["e_offset"], p["e_linear"], p["e_quadratic"])
    got = c.call(fit.elastic, scramble_layout(rng, x), amp, e0, *cal, **kw)
    c.close(got, elastic_ref(x, amp, e0, *cal, eps=eps), "elastic", 1e-8, 1e-200)
    q = (float(pick(rng, rng.uniform(60, 150), rng.uniform(0, 180))), float(rng.uniform(0.5, 2)),
         float(pick(rng, 0.0, rng.uniform(0, 1.5), 10.0 ** rng.uniform(-6, -2))),
         float(rng.uniform(0, 3)), float(rng.uniform(0.5, 5)), float(rng.uniform(0, 1)), float(rng.uniform(0.5, 3)))
    got = c.call(fit.compton, scramble_layout(rng, x), amp, e0, *cal, *q, **kw)
    want = compton_ref(x, amp, e0, *cal, *q, eps=eps)
    c.close(got, want, "compton", 1e-7, 1e-12 * want.max())
    c.mark("scatter", q[2] == 0, bool(kw))


@workload("P19", quick=100)
def quadratic_fit(c):
    rng = c.rng
    n = c.n(4, 40, 5000)
    b0, b1, b2 = float(pick(rng, -1, 1) * 10 ** rng.uniform(-1, 1)), float(rng.uniform(-5, 5)), float(rng.uniform(-9, 9))
    x = b1 + rng.uniform(-4, 4, n)
    noise = rng.normal(0, 1, n) * pick(rng, 0.0, 0.1)
    y = b0 * (x - b1) ** 2 + b2 + noise
    b, r2 = c.call(fit.fit_quad_to_peak, x, y)
    # least squares in a well conditioned basis
    A = np.stack([(x - b1) ** 2, x - b1, np.ones(n)], axis=1)
    s = np.linalg.svd(A, compute_uv=False)
    if s[-1] < 1e-2 * s[0] or n < 4:
        raise Skip
    k = np.linalg.lstsq(A, y, rcond=None)[0]
    want = (k[0], b1 - k[1] / (2 * k[0]), k[2] - k[1] ** 2 / (4 * k[0]))
    if abs(k[0]) < 0.05:
        raise Skip
    c.close(np.array(b), np.array(want), "quadratic", 1e-5, 1e-6)
    res = y - A @ k
    c.close(r2, 1 - np.sum(res ** 2) / np.sum((y - y.mean()) ** 2), "r-squared", 1e-5, 1e-6)
    m = int(rng.integers(0, 3))
    c.rejects(Exception, fit.fit_quad_to_peak, x[:m], y[:m])
    c.mark("quad", bool(noise.any()))


@workload("P19", quick=60, pure=False)
def lmfit_models(c):
    """the models evaluate the lineshape they wrap"""
    rng = c.rng
    p = gen_scatter(rng)
    x = np.linspace(0, (p["coherent_sct_energy"] + 2) / p["e_linear"], 80)
    c.note(x, sorted(p.items()))
    amp = float(10 ** rng.uniform(0, 4))
    d = pdata.get_para()
    for cls, fn, last in ((models.ElasticModel, fit.elastic, "e_quadratic"),
                          (models.ComptonModel, fit.compton, "compton_hi_gamma")):
        m = cls()
        c.call(models.set_default, m, fn, _rep=False)
        pars = m.make_params()
        names = set(pars) - {"epsilon"}
        c.expect(names <= set(d) and last in names and len(names) == (7 if fn is fit.elastic else 14), "parameters",
                 lambda: sorted(names))
        c.expect(pars["epsilon"].vary is False and pars["epsilon"].value == 2.96, "epsilon-hint")
        for name in names:
            h, v = d[name], pars[name]
            c.expect(v.vary == (h["bound_type"] != "fixed"), "default-vary", name)
            lo = h["min"] if h["bound_type"] in ("lo", "lohi") else -np.inf
            hi = h["max"] if h["bound_type"] in ("hi", "lohi") else np.inf
            c.expect(v.min == lo and v.max == hi, "default-bounds", name)
            if h["bound_type"] != "none":
                c.expect(v.value == min(max(h["value"], lo), hi), "default-value", name)
    m = models.ElasticModel()
    got = m.eval(x=x, coherent_sct_amplitude=amp, params=None, **p)
    want = elastic_ref(x, amp, p["coherent_sct_energy"], p["fwhm_offset"], p["fwhm_fanoprime"], p["e_offset"],
                       p["e_linear"], p["e_quadratic"])
    c.close(got, want, "elastic-model", 1e-8, 1e-200)
    q = dict(compton_angle=90.0, compton_fwhm_corr=1.4, compton_f_step=0.1, compton_f_tail=0.5, compton_gamma=1.2,
             compton_hi_f_tail=0.05, compton_hi_gamma=1.1)
    got = models.ComptonModel().eval(x=x, compton_amplitude=amp, params=None, **p, **q)
    want = compton_ref(x, amp, p["coherent_sct_energy"], p["fwhm_offset"], p["fwhm_fanoprime"], p["e_offset"],
                       p["e_linear"], p["e_quadratic"], 90.0, 1.4, 0.1, 0.5, 1.2, 0.05, 1.1)
    c.close(got, want, "compton-model", 1e-7, 1e-12 * want.max())
    got = models.Lorentzian2Model().eval(x=x, area=amp, center=50.0, sigma=7.0)
    c.close(got, fit.lorentzian2(x, amp, 50.0, 7.0), "lorentzian2-model", 1e-10)
    c.calls += 3
    c.mark("models")


# ------------------------------------------------------------------ P20
def snip_reference(y, off, lin, quad, xmin, xmax, eps, width, dec, binning, con, its, thr):
    y = [float(v) for v in y]
    n = len(y)
    con = con if con is not None else (3 if binning is None else 5)
    its = its if its is not None else (3 if binning is None else 5)
    ch = np.arange(n) * (1.0 if binning is None else binning)
    en = off + lin * ch + quad * ch ** 2
    w = width * FWHM * np.sqrt(np.maximum((off / FWHM) ** 2 + en * eps * lin, 0)) / lin
    if binning:
        w = w / 2
    full = np.convolve(y, np.ones(con))
    a = (con - 1) // 2
    v = np.log(np.log(full[a: a + n] / con + 1) + 1)
    lo, hi = max(xmin, 0), min(xmax, n - 1)

    def clip(u, w):
        out = u.copy()
        for i in range(n):
            p, q = int(min(max(i - w[i], lo), hi)), int(min(max(i + w[i], lo), hi))
            t = (u[p] + u[q]) / 2
            if t < u[i]:
                out[i] = t
        return out

    widths = []
    for _ in range(its):
        v = clip(v, w)
        widths.append(w)
    while w.max() >= thr:
        v = clip(v, w)
        widths.append(w)
        w = w / dec
    return np.exp(np.exp(v) - 1) - 1, widths


def gen_spectrum(rng, n):
    x = np.arange(n)
    y = rng.uniform(0, 200) * np.exp(-x / rng.uniform(50, 900)) + rng.uniform(0, 20)
    for _ in range(int(rng.integers(0, 6))):
        y = y + 10 ** rng.uniform(1, 4) * np.exp(-((x - rng.uniform(0, n)) / rng.uniform(2, 8)) ** 2 / 2)
    if rng.random() < 0.7:
        y = rng.poisson(y).astype(pick(rng, float, np.int64, np.int32, np.uint32, np.uint16 if y.max() < 5e4 else float))
    return y


@workload("P20", quick=140)
def snip(c):
    rng = c.rng
    n = int(rng.integers(8, 700))
    if c.i % 35 == 0:
        n = int(rng.integers(33000, 67000))
    y = gen_spectrum(rng, n)
    off, lin, quad = float(rng.uniform(-0.2, 0.2)), float(rng.uniform(0.005, 0.03)), float(pick(rng, 0.0, 1e-7, -1e-7, -2e-6))
    if rng.random() < 0.2:
        y = y * 10 ** rng.uniform(-6, 8)
    kw = {}
    if rng.random() < 0.4:
        kw["width"] = float(rng.uniform(0.2, 2))
    if rng.random() < 0.3:
        kw["spectral_binning"] = float(pick(rng, 1, 2, 3))
    if rng.random() < 0.3:
        kw["con_val"] = int(pick(rng, 1, 3, 5, 7))
    if rng.random() < 0.3:
        kw["iter_num"] = int(rng.integers(0, 8))
    if rng.random() < 0.3:
        kw["decrease_factor"] = float(rng.uniform(1.2, 3))
    if rng.random() < 0.3:
        kw["epsilon"] = 3.61
    if rng.random() < 0.3:
        kw["width_threshold"] = float(rng.uniform(0.02, 2))
    if rng.random() < 0.25:
        kw["xmin"] = int(rng.integers(0, n // 2))
        kw["xmax"] = int(rng.integers(n // 2, n + 50))
    if n > 10000:
        lin = float(rng.uniform(0.005, 0.03)) / 50
        kw["xmax"] = n
    if kw.get("con_val", 5) > n:
        raise Skip
    want, widths = snip_reference(y, off, lin, quad, kw.get("xmin", 0), kw.get("xmax", 4096), kw.get("epsilon", 2.96),
                                  kw.get("width", 0.5), kw.get("decrease_factor", np.sqrt(2)),
                                  kw.get("spectral_binning"), kw.get("con_val"), kw.get("iter_num"),
                                  kw.get("width_threshold", 0.5))
    # a window border on a channel border is decided by round-off
    for w in widths:
        for s in (np.arange(n) - w, np.arange(n) + w):
            k = np.abs(s - np.rint(s)) < 1e-7
            if np.any(k & (w > 0) & (s > 0) & (s < n - 1)):
                raise Skip
    got = c.call(fit.snip_method, y if rng.random() < 0.5 else scramble_layout(rng, y), off, lin, quad, **kw)
    c.expect(np.asarray(got).shape == (n,) and bool(np.all(np.isfinite(got))), "background-finite")
    c.close(got, want, "background", 1e-6, 1e-7)
    con = kw.get("con_val", 3 if "spectral_binning" not in kw else 5)
    sm = np.convolve(np.asarray(y, float), np.ones(con))[(con - 1) // 2:][:n] / con
    c.expect(bool(np.all(got <= sm * (1 + 1e-9) + 1e-9)), "background-above-the-spectrum")
    c.expect(bool(np.all(np.asarray(got) >= -1e-9)), "background-negative")
    c.mark("snip", tuple(sorted(kw)))


@workload("P20", quick=60)
def snip_flat(c):
    """peaks are removed, and the background does not fall when counts are added"""
    rng = c.rng
    n = int(rng.integers(300, 1200))
    lin = 0.01
    base = float(rng.uniform(5, 500))
    y = np.full(n, base)
    pos = int(rng.integers(n // 3, 2 * n // 3))
    sig = float(rng.uniform(3, 5))
    p = y + 10 * base * np.exp(-((np.arange(n) - pos) / sig) ** 2 / 2)
    got = c.call(fit.snip_method, p, 0.0, lin, 0.0, width=2.0)
    c.expect(got[pos] < base * 1.5, "peak-in-background", lambda: (got[pos], base))
    # more counts never lower the background
    more = c.call(fit.snip_method, p + rng.uniform(0, base, n), 0.0, lin, 0.0, width=2.0)
    c.expect(bool(np.all(more >= got - 1e-9 * (1 + np.abs(got)))), "background-not-monotonic")
    c.mark("flat")


# ------------------------------------------------------------------ P21
def gen_param(rng, energy=None):
    p = {k: {"bound_type": "fixed", "min": 0.0, "max": 1e9, "value": float(v)} for k, v in gen_scatter(rng).items()}
    if energy is not None:
        p["coherent_sct_energy"]["value"] = energy
    for k, v in dict(coherent_sct_amplitude=rng.uniform(100, 1e5), compton_amplitude=rng.uniform(100, 1e5),
                     compton_angle=rng.uniform(70, 110), compton_f_step=rng.uniform(0, 0.2),
                     compton_f_tail=rng.uniform(0, 1), compton_fwhm_corr=rng.uniform(1, 2),
                     compton_gamma=rng.uniform(1, 4), compton_hi_f_tail=rng.uniform(0, 0.1),
                     compton_hi_gamma=rng.uniform(0.8, 2)).items():
        p[k] = {"bound_type": "fixed", "min": 0.0, "max": 1e9, "value": float(v)}
    p["non_fitting_values"] = {"epsilon": float(rng.uniform(2.5, 4)), "background_width": float(rng.uniform(0.3, 1)),
                               "energy_bound_low": {"value": 1.5}, "energy_bound_high": {"value": 13.5}}
    return p


FAM = {"K": ["ka1", "ka2", "ka3", "kb1", "kb2", "kb3", "kb4", "kb5"],
       "L": ["la1", "la2", "lb1", "lb2", "lb3", "lb4", "lb5", "lg1", "lg2", "lg3", "lg4", "ll", "ln"],
       "M": ["ma1", "ma2", "mb", "mg"]}


def line_ref(x, line, p, area):
    """the peaks of one line family, None if it is not activated"""
    el, fam = line.split("_")
    e = xrf.XrfElement(el)
    v = {k: d["value"] for k, d in p.items() if k != "non_fitting_values"}
    cs = e.cs(v["coherent_sct_energy"])
    first = FAM[fam][0]
    if cs[first] == 0:
        return None
    if "%s_%s_area" % (el, first) in v:
        area = v["%s_%s_area" % (el, first)]
    en = v["e_offset"] + v["e_linear"] * x + v["e_quadratic"] * x ** 2
    eps = p["non_fitting_values"]["epsilon"]
    tot = np.zeros(len(x))
    for n in FAM[fam]:
        if cs[n] == 0:
            continue
        dc = v.get("%s_%s_delta_center" % (el, n), 0.0)
        ds = v.get("%s_%s_delta_sigma" % (el, n), 0.0)
        if n == "ka2":      # moves with ka1
            dc, ds = v.get("%s_ka1_delta_center" % el, 0.0), v.get("%s_ka1_delta_sigma" % el, 0.0)
        ra = v.get("%s_%s_ratio_adjust" % (el, n), 1.0)
        cen = e.emission_line[n] + dc
        sig = ds + np.sqrt((v["fwhm_offset"] / FWHM) ** 2 + cen * eps * v["fwhm_fanoprime"])
        tot += area * cs[n] / cs[first] * ra * norm_pdf(en, cen, sig)
    return tot


def scatter_ref(x, p):
    v = {k: d["value"] for k, d in p.items() if k != "non_fitting_values"}
    eps = p["non_fitting_values"]["epsilon"]
    cal = (v["fwhm_offset"], v["fwhm_fanoprime"], v["e_offset"], v["e_linear"], v["e_quadratic"])
    com = compton_ref(x, v["compton_amplitude"], v["coherent_sct_energy"], *cal, v["compton_angle"],
                      v["compton_fwhm_corr"], v["compton_f_step"], v["compton_f_tail"], v["compton_gamma"],
                      v["compton_hi_f_tail"], v["compton_hi_gamma"], eps=eps)
    ela = elastic_ref(x, v["coherent_sct_amplitude"], v["coherent_sct_energy"], *cal, eps=eps)
    return com, ela


def gen_lines(rng, n):
    al = list(xm.K_LINE[8:]) + list(xm.L_LINE) + list(xm.M_LINE)
    return [str(v) for v in rng.choice(al, n, replace=False)]


@workload("P21", quick=60, thorough=1500)
def linear_model(c):
    rng = c.rng
    p = gen_param(rng, float(rng.uniform(2.2, 6)) if rng.random() < 0.15 else None)
    lines = gen_lines(rng, int(rng.integers(1, 5)))
    n = int((p["coherent_sct_energy"]["value"] + 1) / p["e_linear"]["value"])
    x = np.arange(n)[:: int(rng.integers(1, 6))]
    if rng.random() < 0.5:
        x = x.astype(float)
    area = float(10 ** rng.uniform(1, 5))
    for line in lines:              # adjustments by the user
        if rng.random() < 0.5:
            el, fam = line.split("_")
            t = FAM[fam][int(rng.integers(0, len(FAM[fam])))]
            kind, v = pick(rng, ("delta_center", float(rng.uniform(-0.02, 0.02))),
                           ("delta_sigma", float(rng.uniform(0, 0.02))), ("ratio_adjust", float(rng.uniform(0.5, 2))))
            p["%s_%s_%s" % (el, t, kind)] = {"bound_type": pick(rng, "fixed", "none"), "min": -1.0, "max": 5.0,
                                             "value": v}
        if rng.random() < 0.2:
            el, fam = line.split("_")
            p["%s_%s_area" % (el, FAM[fam][0])] = {"bound_type": "none", "min": 0.0, "max": 1e9,
                                                   "value": float(rng.uniform(10, 1e4))}
    pile = None
    if rng.random() < 0.3:
        pile = pick(rng, "Fe_Ka1-Fe_Ka1", "Cl_K-Ar_K", "Si_Ka1-Ca_Kb1")
    user = "user_peak1" if rng.random() < 0.3 else None
    every = lines + [v for v in (pile, user) if v]
    want, names = [], []
    for line in lines:
        w = line_ref(x, line, p, area)
        if w is not None:
            want.append(w)
            names.append(line)
    vals = {k: d["value"] for k, d in p.items() if k != "non_fitting_values"}
    en = vals["e_offset"] + vals["e_linear"] * x + vals["e_quadratic"] * x ** 2
    eps = p["non_fitting_values"]["epsilon"]

    def single(cen):
        return area * norm_pdf(en, cen, np.sqrt((vals["fwhm_offset"] / FWHM) ** 2 + cen * eps * vals["fwhm_fanoprime"]))

    if pile:
        tot = 0
        for part in pile.split("-"):
            el, t = part.split("_")
            t = (t.lower() + "a1")[:3] if len(t) == 1 else t.lower()
            tot += xrf.XrfElement(el).emission_line[t]
        want.append(single(tot))
        names.append(pile)
    if user:
        want.append(single(5.0))
        names.append(user)
    com, ela = scatter_ref(x, p)
    got, mat, areas_ = c.call(xm.construct_linear_model, x, p, every, area)
    c.expect(list(got) == names + ["compton", "elastic"], "selected-lines", lambda: (got, names))
    for k, w in enumerate(want + [com, ela]):
        c.close(mat[:, k], w, "column", 1e-7, 1e-10 * np.abs(w).max() + 1e-200, got[k])
    c.close(areas_["compton"], vals["compton_amplitude"], "compton-area", 1e-12)
    c.close(areas_["elastic"], vals["coherent_sct_amplitude"], "elastic-area", 1e-12)
    for line in names:
        el, fam = (line.split("_") + [""])[:2] if line not in (pile, user) else ("", "")
        a = vals.get("%s_%s_area" % (el, FAM[fam][0])) if fam in FAM else None
        c.close(areas_[line], area if a is None else a, "line-area", 1e-12)
    c.mark("model", len(names), pile is not None, user is not None)


@workload("P21", quick=80)
def nonnegative_fit(c):
    rng = c.rng
    m, n = c.n(3, 60, 4100), c.n(1, 8, 40)
    if n > m:
        raise Skip
    A = rng.uniform(0, 1, (m, n)) * 10 ** rng.uniform(-1, 3)
    true = np.where(rng.random(n) < 0.3, 0, rng.uniform(0, 9, n))
    y = A @ true + rng.normal(0, 1, m) * pick(rng, 0.0, 1.0)
    if rng.random() < 0.3:
        y = rng.normal(0, 1, m)
    w = None if rng.random() < 0.5 else rng.uniform(0.1, 3, m)
    sol, res = c.call(xm.nnls_fit, y, A, weights=w)
    W = np.ones(m) if w is None else w
    r = A @ sol - y
    g = A.T @ (W * r)
    tol = 1e-7 * (np.abs(A).max() * np.abs(A).sum() * (np.abs(sol).max() + 1) * W.max()
                  + np.abs(A).max() * np.abs(y).sum() * W.max())
    c.expect(np.all(sol >= 0), "negative-amplitude")
    c.expect(np.all(g > -tol) and np.all(np.abs(g[sol > 0]) < tol), "not-the-least-squares-solution", lambda: g)
    c.close(res, np.sqrt(np.sum(W * r ** 2)), "residual", 1e-6, 1e-9 * (np.linalg.norm(y) + 1))
    c.mark("nnls", w is None, n)


@workload("P21", quick=30, thorough=800)
def spectrum_fit(c):
    """amplitudes of a synthetic spectrum come back; parts add up"""
    rng = c.rng
    p = gen_param(rng)
    lines = gen_lines(rng, int(rng.integers(1, 5)))
    n = int((p["coherent_sct_energy"]["value"] + 1) / p["e_linear"]["value"])
    x = np.arange(n)
    y = np.zeros(n)
    for line in lines:
        w = line_ref(x, line, p, float(10 ** rng.uniform(2, 5)))
        y = y + (0 if w is None else w)
    com, ela = scatter_ref(x, p)
    y = y + com * rng.uniform(0, 2) + ela * rng.uniform(0, 2) + rng.uniform(1, 5)
    if rng.random() < 0.5:
        y = rng.poisson(y).astype(float)
    wt = None if rng.random() < 0.6 else 1 / (y + 1)
    if c.i % 5 == 3:                    # spectra normalised to a monitor
        y = y * 10.0 ** rng.uniform(-7, -2)
    if c.i % 15 == 11:                  # only what the beam scatters
        lines = []
        c.mark("no-lines")
    if c.i % 7 == 5:
        x, y, wt = x[40:], y[40:], None if wt is None else wt[40:]
        n -= 40
    kw = {"elemental_lines": lines}
    if c.i % 15 == 7:                   # all the lines there are
        kw, lines = {}, list(xm.K_LINE) + list(xm.L_LINE) + list(xm.M_LINE)
        c.mark("all-lines")
    xe, parts, areas_ = c.call(xm.linear_spectrum_fitting, x, y, p, weights=wt, **kw)
    v = {k: d["value"] for k, d in p.items() if k != "non_fitting_values"}
    c.close(xe, v["e_offset"] + v["e_linear"] * x + v["e_quadratic"] * x ** 2, "energy", 1e-10)
    bg = fit.snip_method(y, v["e_offset"], v["e_linear"], v["e_quadratic"],
                         width=p["non_fitting_values"]["background_width"])
    c.close(parts["background"], bg, "fit-background", 1e-9, 1e-9 * y.max())
    c.close(areas_["background"], bg.sum(), "background-area", 1e-9)
    names, mat, ea = xm.construct_linear_model(x, p, lines)
    W = np.ones(n) if wt is None else wt
    s = np.sqrt(W)
    try:
        out, _ = nnls(mat * s[:, None], (y - bg) * s)
    except RuntimeError:
        raise Skip
    tot = sum(parts[k] for k in parts if k != "background")
    best = np.linalg.norm(s * (mat @ out - (y - bg)))
    mine = np.linalg.norm(s * (tot - (y - bg)))
    c.expect(mine <= best * (1 + 1e-6) + 1e-9 * np.linalg.norm(s * y), "fit-not-optimal", lambda: (mine, best))
    c.expect(set(parts) == set(areas_) and list(parts)[-1] == "background", "fit-names")
    for k in parts:
        if k == "background":
            continue
        col = mat[:, names.index(k)]
        amp = parts[k] @ col / (col @ col)
        c.close(parts[k], amp * col, "fit-part", 1e-7, 1e-9 * np.abs(parts[k]).max())
        c.close(areas_[k], amp * ea[k], "fit-area", 1e-7)
    c.mark("fit", len(parts), wt is None)


@workload("P21", quick=60, thorough=2000)
def activated(c):
    rng = c.rng
    lines = gen_lines(rng, int(rng.integers(1, 12)))
    if rng.random() < 0.3:
        lines.insert(int(rng.integers(0, len(lines))), "user_peak1")
    en = float(rng.uniform(2, 30))
    want = []
    for line in lines:
        el, fam = line.split("_")
        if fam not in FAM:
            continue
        cs = xrf.XrfElement(el).cs(en)
        if cs[FAM[fam][0]]:
            want += ["%s_%s" % (el, t) for t in FAM[fam] if cs[t]]
    got = c.call(xm.get_activated_lines, en, lines)
    c.expect(sorted(got) == sorted(want), "activated-lines", lambda: (set(got) ^ set(want)))
    el, fam = lines[0].split("_") if "user" not in lines[0] else ("Fe", "K")
    cs = xrf.XrfElement(el).cs(en)
    if cs[FAM[fam][0]]:
        r = c.call(xm.get_relative_cs_ratio, "%s_%s" % (el, fam), en)
        c.close(r, cs[FAM[fam][0]] / sum(cs[t] for t in FAM[fam]), "relative-cross-section", 1e-10)
    t = FAM[fam][int(rng.integers(0, len(FAM[fam])))]
    name = pick(rng, t.capitalize(), t.upper(), t)
    c.close(c.call(xm.get_line_energy, "%s_%s" % (el, name)), xrf.XrfElement(el).emission_line[t], "line-energy", 1e-12)
    if fam != "M":
        c.close(c.call(xm.get_line_energy, "%s_%s" % (el, fam)), xrf.XrfElement(el).emission_line[FAM[fam][0]],
                "line-energy-short", 1e-12)
    em = xrf.XrfElement(el).emission_line
    two = pick(rng, "ka", "kb", "la", "lb", "ma", "mb", "ll", "lg", "ln")
    if two in list(em) or two + "1" in list(em):
        c.close(c.call(xm.get_line_energy, "%s_%s" % (el, pick(rng, two, two.upper(), two.capitalize()))),
                em[two if two in list(em) else two + "1"], "line-energy-two-letters", 1e-12)
        c.mark("two", two)
    c.mark("active", len(want) > 0)


@workload("P21", quick=100)
def spectrum_helpers(c):
    rng = c.rng
    n = c.n(1, 300, 9000)
    y = rng.uniform(0, 99, n)
    x = np.sort(rng.uniform(0, 20, n))
    lo, hi = np.sort(rng.uniform(-2, 22, 2))
    if rng.random() < 0.4:
        lo, hi = x[int(rng.integers(0, n))], x[int(rng.integers(0, n))]
    a, b = c.call(xm.trim, x, y, lo, hi)
    k = [j for j in range(n) if lo <= x[j] <= hi]
    c.equal(a, x[k], "trim-x")
    c.equal(b, y[k], "trim-y")
    a0, a1 = float(rng.uniform(-0.5, 0.5)), float(rng.uniform(0.005, 0.1))
    l2, h2 = np.sort(rng.uniform(-1, a0 + a1 * n + 1, 2))
    u, v = (l2 - a0) / a1, (h2 - a0) / a1
    if min(abs(u % 1 - 0.5), abs(v % 1 - 0.5)) < 1e-6:
        raise Skip
    a, b = c.call(xm.define_range, y, float(l2), float(h2), a0, a1)
    k = [j for j in range(n) if round(u) <= j <= round(v)]
    c.equal(a, np.array(k, int), "range-channel")
    c.equal(b, y[k], "range-counts")
    p = gen_param(rng)
    ratio, esc = float(rng.uniform(0, 0.3)), float(rng.uniform(0.5, 3))
    e, s = c.call(xm.compute_escape_peak, y, ratio, p, esc)
    ch = np.arange(n)
    c.close(e, p["e_offset"]["value"] + p["e_linear"]["value"] * ch + p["e_quadratic"]["value"] * ch ** 2 - esc,
            "escape-energy", 1e-9, 1e-12)
    c.close(s, ratio * y, "escape-counts", 1e-12)
    e, s = c.call(xm.compute_escape_peak, y, ratio, p)
    c.close(e[0], p["e_offset"]["value"] - 1.73998, "escape-energy-of-silicon", 1e-9, 1e-12)
    key = pick(rng, "bound_type", "value", "min")
    got = c.call(xm.extract_strategy, p, key)
    c.expect(got == {q: p[q][key] for q in p if q != "non_fitting_values"}, "strategy")
    c.mark("helpers", len(k) > 0)


class Result:
    def __init__(self, values):
        self.values = values


@workload("P21", quick=80, thorough=3000, pure=False)
def parameter_update(c):
    """results of a fit go back to the parameter they belong to, bounds to the ones they name"""
    rng = c.rng
    p = gen_param(rng)
    names = ["Fe_ka1_area", "Fe_ka1_delta_center", "Fe_kb1_ratio_adjust", "pileup_Cl_K-Cl_K_area",
             "pileup_Fe_Ka1-Ca_Kb1_delta_sigma", "user_peak1_area", "Ca_ka1_area", "compton_e_offset"]
    for k in names:
        if rng.random() < 0.6:
            p[k] = {"value": float(rng.normal()), "bound_type": pick(rng, "lohi", "fixed"), "min": -1.0, "max": 2.0}
    before = copy.deepcopy(p)
    vals, want = {}, {}
    for k in p:
        if k == "non_fitting_values" or rng.random() < 0.3:
            continue
        n = "elastic_" + k if k in ("coherent_sct_amplitude", "coherent_sct_energy") else k.replace("-", "_")
        want[k] = float(rng.normal())
        vals[n] = pick(rng, want[k], np.float64(want[k]))
    vals["Zn_ka1_area"] = 3.0
    vals["elastic_e_offset"] = 4.0
    if rng.random() < 0.5:
        vals["coherent_sct_energy"] = -5.0      # belongs to another part of the model
    c.note(sorted(vals), sorted(want.items()))
    c.call(xm.update_parameter_dict, p, Result(vals), _rep=False, _out=(0,))
    for k in before:
        d = copy.deepcopy(before[k])
        if k in want:
            d["value"] = want[k]
            c.expect(type(p[k]["value"]) is float, "updated-type", k)
        c.expect(p[k] == d, "updated-parameters", lambda: (k, p[k], d))
    c.expect(set(p) == set(before), "updated-names")
    strat = pick(rng, "linear", "adjust_element", "e_calibration", "free_more", "fit_with_tail")
    table = getattr(pdata, strat)
    extra = {k: pick(rng, "lohi", "none", "lo") for k in list(p)[:: 2]} if rng.random() < 0.5 else None
    was = copy.deepcopy(p)
    c.call(xm.set_parameter_bound, p, strat, *(() if extra is None else (extra,)), _rep=False, _out=(0,))
    for k in was:
        d = copy.deepcopy(was[k])
        if k != "non_fitting_values":
            d["bound_type"] = table[k] if k in table else (extra or {}).get(k, "fixed")
        c.expect(p[k] == d, "bounds-set", lambda: (k, p[k], d))
    c.rejects((KeyError, ValueError), xm.set_parameter_bound, p, "no such strategy")
    # areas of the lines of one element, summed
    el, fam = pick(rng, ("Fe", "K"), ("Pt", "L"), ("Au", "M"), ("Ca", "K"))
    vals, tot = {}, 0.0
    for t in ["ka1", "ka2", "kb1", "kb2", "la1", "la2", "lb1", "lb2", "lb3", "lg1", "ma1", "mb"]:
        for e in (el, "Zn"):
            if rng.random() < 0.6:
                a, r, q = [float(v) for v in rng.uniform(0.1, 5, 3)]
                pre = "%s_%s" % (e, t)
                vals.update({pre + "_area": a, pre + "_ratio": r, pre + "_ratio_adjust": q})
                if e == el and t in FAM[fam]:
                    tot += a * r * q
    got = c.call(xm.sum_area, "%s_%s" % (el, fam), Result(vals), _rep=False)
    c.close(got, tot, "summed-area", 1e-12, 1e-15)
    c.mark("update", strat, extra is None, fam)


@workload("P21", quick=60, thorough=2000, pure=False)
def parameter_control(c):
    rng = c.rng
    p = gen_param(rng)
    before = copy.deepcopy(p)
    lines = gen_lines(rng, int(rng.integers(1, 4)))
    c.note(lines, p["coherent_sct_energy"]["value"])
    if rng.random() < 0.5:
        lines.append("Fe_Ka1-Fe_Ka1")
    if rng.random() < 0.5:
        lines.append("user_peak1")
    pc = c.call(xm.ParamController, p, lines, _rep=False)
    act = [v for line in lines if line.split("_")[1] in FAM and "-" not in line and "user" not in line
           for v in xm.get_activated_lines(p["coherent_sct_energy"]["value"], [line])]
    want = set(before)
    for line in lines:
        if "user" in line or "-" in line:
            pre = line if "user" in line else "pileup_" + line.replace("-", "_")
            want |= {pre + "_" + s for s in ("delta_center", "delta_sigma", "ratio_adjust", "area")}
        else:
            el, fam = line.split("_")
            want.add("%s_%s_area" % (el, FAM[fam][0]))
    for v in act:
        want |= {v + "_" + s for s in ("delta_center", "delta_sigma", "ratio_adjust")}
    c.expect(set(pc.params) == want, "controlled-parameters", lambda: set(pc.params) ^ want)
    NEUTRAL = {"delta_center": 0.0, "delta_sigma": 0.0, "ratio_adjust": 1.0}
    for k in want - set(before):
        d = pc.params[k]
        c.expect(d["min"] <= d["value"] <= d["max"], "controlled-range", lambda: (k, d))
        for s in NEUTRAL:
            if k.endswith(s):       # a parameter which was only made adjustable changes nothing
                c.expect(d["value"] == NEUTRAL[s] and d["min"] < d["value"] < d["max"], "controlled-default", lambda: (k, d))
    strats = {n: getattr(pdata, n) for n in ("linear", "adjust_element", "e_calibration", "free_more", "fit_with_tail")}
    ownname = "verif_own_%d" % c.i
    own = {k: pick(rng, "lohi", "lo", "hi", "none", "fixed") for k in list(before)[:: 2] if k != "non_fitting_values"}
    if rng.random() < 0.3:
        xm.register_strategy(ownname, own, overwrite=bool(rng.random() < 0.5))
        c.rejects((RuntimeError,), xm.register_strategy, ownname, dict(own), overwrite=False)
        xm.register_strategy(ownname, own, overwrite=False)
        if rng.random() < 0.5:
            own = {k: pick(rng, "lohi", "none") for k in own}
            xm.register_strategy(ownname, own)
        strats[ownname] = own
    bounds = {}
    for _ in range(int(rng.integers(1, 4))):
        kind = pick(rng, "pos", "width", "ratio", "area")
        bound = pick(rng, "lohi", "lo", "hi", "none", "fixed")
        line = pick(rng, *lines)
        if rng.random() < 0.2:
            line = gen_lines(rng, 1)[0]         # one more element
        pc.update_element_prop([line], **{kind: bound})
        if line not in lines and kind in ("pos", "width", "ratio"):
            c.expect(line in pc.element_list, "element-added", line)
        suffix = {"pos": "delta_center", "width": "delta_sigma", "ratio": "ratio_adjust", "area": "area"}[kind]
        if "user" in line or "-" in line:
            hit = {(line if "user" in line else "pileup_" + line.replace("-", "_")) + "_" + suffix}
        elif kind == "area":
            hit = {"%s_%s_area" % (line.split("_")[0], FAM[line.split("_")[1]][0])}
        else:
            hit = {"%s_%s" % (v, suffix) for v in xm.get_activated_lines(p["coherent_sct_energy"]["value"], [line])}
        for k in hit:
            bounds[k] = bound
            c.expect(k in pc.params, "controlled-parameters", lambda: k)
        c.expect(set(pc.params) == want | hit, "controlled-parameters", lambda: set(pc.params) ^ (want | hit))
        want |= hit
        strat = pick(rng, *strats)
        pc.set_strategy(strat)
        table = strats[strat]
        for k, v in pc.params.items():
            if k == "non_fitting_values":
                continue
            b = table[k] if k in table else bounds.get(k, "fixed")
            c.expect(v["bound_type"] == b, "bound-of-parameter", lambda: (k, v["bound_type"], b))
    c.expect(p == before, "parameters-of-the-caller-changed")
    c.mark("control", kind, bound)


def extra_ref(x, line, p, area):
    """a pile-up or user peak"""
    v = {k: d["value"] for k, d in p.items() if k != "non_fitting_values"}
    en = v["e_offset"] + v["e_linear"] * x + v["e_quadratic"] * x ** 2
    eps = p["non_fitting_values"]["epsilon"]
    if "user" in line.lower():
        pre, cen = line, 5.0
    else:
        pre, cen = "pileup_" + line.replace("-", "_"), 0.0
        for part in line.split("-"):
            el, t = part.split("_")
            cen += xrf.XrfElement(el).emission_line[(t.lower() + "a1")[:3] if len(t) == 1 else t.lower()]
    cen += v.get(pre + "_delta_center", 0.0)
    sig = v.get(pre + "_delta_sigma", 0.0) + np.sqrt((v["fwhm_offset"] / FWHM) ** 2 + cen * eps * v["fwhm_fanoprime"])
    return v.get(pre + "_area", area) * v.get(pre + "_ratio_adjust", 1.0) * norm_pdf(en, cen, sig)


def set_bound(rng, d, lo, hi):
    """a bound of any kind around a value"""
    d["bound_type"] = pick(rng, "none", "fixed", "lohi", "lo", "hi")
    d["min"], d["max"] = min(lo, d["value"]) - float(rng.uniform(0, 1)), max(hi, d["value"]) + float(rng.uniform(0, 1))
    return d


def whole_ref(x, p, lines, area):
    tot = sum(scatter_ref(x, p))
    for line in lines:
        w = extra_ref(x, line, p, area) if "user" in line.lower() or "-" in line else line_ref(x, line, p, area)
        tot = tot + (0 if w is None else w)
    return tot


@workload("P21", quick=40, thorough=1500, pure=False)
def assembled_model(c):
    """the whole model: its value, its bounds, and what moves together"""
    rng = c.rng
    p = gen_param(rng)
    lines = gen_lines(rng, int(rng.integers(1, 4)))
    if rng.random() < 0.5:
        lines.append(pick(rng, "Fe_Ka1-Fe_Ka1", "Cl_K-Ar_K", "Si_Ka1-Ca_Kb1", "Pt_La1-Fe_Kb1"))
    if rng.random() < 0.5:
        lines.append(pick(rng, "user_peak1", "User_peak2"))
    energy = p["coherent_sct_energy"]["value"]
    for k in list(p):
        if k != "non_fitting_values" and rng.random() < 0.5:
            set_bound(rng, p[k], 0.0, 1.0)
    spot = {}
    for line in lines:
        if "user" in line.lower():
            pres = [line]
        elif "-" in line:
            pres = ["pileup_" + line.replace("-", "_")]
        else:
            pres = xm.get_activated_lines(energy, [line])
        for n, pre in enumerate(pres):
            for kind, v in (("delta_center", rng.uniform(-0.02, 0.02)), ("delta_sigma", rng.uniform(0, 0.02)),
                            ("ratio_adjust", rng.uniform(0.5, 2)), ("area", rng.uniform(10, 1e5))):
                first = pre.split("_")[-1] in ("ka1", "la1", "ma1") or line in (pre,) or "-" in line
                if rng.random() < 0.3 and (kind != "area" or first):
                    p[pre + "_" + kind] = set_bound(rng, {"value": float(v)}, 0.0, 1.0)
                    if not (pre.endswith("_ka2") and kind.startswith("delta")):
                        spot[pre + "_" + kind] = p[pre + "_" + kind]
    before = copy.deepcopy(p)
    n = int((energy + 1) / p["e_linear"]["value"])
    x = np.arange(n)[:: int(rng.integers(1, 6))]
    c.note(lines, n, energy)
    ms = c.call(xm.ModelSpectrum, p, lines, _rep=False)
    c.call(ms.assemble_models, _rep=False)
    c.expect(p == before, "parameters-of-the-caller-changed")
    pars = ms.mod.make_params()
    want = whole_ref(x, p, [l for l in lines], 1e5)
    c.close(ms.mod.eval(pars, x=x), want, "whole-model", 1e-7, 1e-9 * np.abs(want).max())
    for k in p:
        if k == "non_fitting_values":
            continue
        name = "elastic_" + k if k == "coherent_sct_amplitude" else k
        if k in spot or (name in pars and k in gen_names()):
            q, b = pars[name], p[k]["bound_type"]
            c.close(q.value, p[k]["value"], "parameter-value", 1e-12, 0, name)
            c.expect(q.vary == (b != "fixed"), "parameter-varies", lambda: (name, b, q))
            if b in ("lo", "lohi"):
                c.close(q.min, p[k]["min"], "lower-bound", 1e-12, 0, name)
            if b in ("hi", "lohi"):
                c.close(q.max, p[k]["max"], "upper-bound", 1e-12, 0, name)
            if b == "lo":
                c.expect(np.isinf(q.max), "upper-bound", lambda: (name, q))
            c.mark("bound", b)
    # nothing else is free: energies, branching ratios and the like stay what they are
    free = {n for n in pars if pars[n].vary and not pars[n].expr}
    allowed = {"elastic_" + k if k == "coherent_sct_amplitude" else k for k in p
               if k != "non_fitting_values" and p[k]["bound_type"] != "fixed"}
    for line in lines:
        if "user" in line.lower() or "-" in line:
            a = (line if "user" in line.lower() else "pileup_" + line.replace("-", "_")) + "_area"
        else:
            act = xm.get_activated_lines(energy, [line])
            a = "%s_%s_area" % (line.split("_")[0], FAM[line.split("_")[1]][0])
            if not act:
                continue
        if a not in p:
            allowed.add(a)
            c.expect(a in free, "area-not-free", a)
            if not line.endswith(("_L", "_M")):
                c.expect(pars[a].min == 0 and pars[a].max == np.inf, "area-bounds", a)
    c.expect(free <= allowed, "free-parameters", lambda: sorted(free - allowed))
    # the calibration is common to all the peaks
    q = copy.deepcopy(p)
    for k, d in (("e_offset", 0.03), ("e_linear", 2e-4), ("e_quadratic", 1e-8), ("fwhm_offset", 0.02),
                 ("fwhm_fanoprime", 2e-5)):
        if rng.random() < 0.5:
            pars[k].set(value=p[k]["value"] + d, min=-np.inf, max=np.inf)
            q[k]["value"] = pars[k].value
    # and the area of the first line to the family
    for line in lines:
        if "-" in line or "user" in line.lower():
            continue
        el, fam = line.split("_")
        a = "%s_%s_area" % (el, FAM[fam][0])
        if a in pars and rng.random() < 0.5:
            pars[a].set(value=float(rng.uniform(10, 1e5)), min=-np.inf, max=np.inf)
            q[a] = {"value": pars[a].value}
    want = whole_ref(x, q, lines, 1e5)
    c.close(ms.mod.eval(pars, x=x), want, "whole-model-changed", 1e-7, 1e-9 * np.abs(want).max())
    c.mark("assembled", len(lines))


def gen_names():
    return {k for k in gen_param(np.random.default_rng(0)) if k != "non_fitting_values"}


@workload("P21", quick=8, thorough=80, pure=False)
def pixel_fit(c):
    """each pixel of a map is fitted on its own, and stays at its place"""
    rng = c.rng
    p = gen_param(rng)
    rows, cols, n, m = int(rng.integers(1, 6)), int(rng.integers(1, 4)), 120, int(rng.integers(1, 5))
    x = np.arange(n)
    A = np.stack([norm_pdf(x, v, 5.0) for v in np.linspace(15, 105, m)], axis=1) * 100
    amp = rng.uniform(1, 50, (rows, cols, m))
    data = amp @ A.T + rng.uniform(0, 0.01, (rows, cols, n))
    snip_ = bool(rng.random() < 0.5)
    c.note(data)
    got = c.call(xm.fit_pixel_multiprocess_nnls, data, A, p, use_snip=snip_, _rep=False)
    c.expect(got.shape == (rows, cols, m + 2), "pixel-fit-shape", got.shape)
    v = {k: d["value"] for k, d in p.items() if k != "non_fitting_values"}
    k = int(rng.integers(0, rows))
    line = c.call(xm.fit_per_line_nnls, data[k], A, p, snip_, _rep=False)
    c.close(np.asarray(line), got[k], "row-of-the-map", 1e-9, 1e-9)
    for i in range(rows):
        for j in range(cols):
            y = data[i, j]
            bg = 0.0
            if snip_:
                bg = fit.snip_method(y, v["e_offset"], v["e_linear"], v["e_quadratic"],
                                     width=p["non_fitting_values"]["background_width"])
            s, r = nnls(A, y - bg)
            c.close(got[i, j, :m], s, "pixel-amplitudes", 1e-6, 1e-8)
            c.close(got[i, j, m], np.sum(bg) if snip_ else 0.0, "pixel-background", 1e-8, 1e-8)
            c.close(got[i, j, m + 1], 1 - r ** 2 / np.sum((y - y.mean()) ** 2), "pixel-r-squared", 1e-6, 1e-8)
    odd = ["compton", "elastic", "user_peak1", "Fe_Ka1-Fe_Ka1"][:m]
    part = c.call(xm.calculate_area, odd, A, got, p, first_peak_area=True, _rep=False)
    for k, name in enumerate(odd):      # no family of lines to choose the first of
        c.close(part[name], got[:, :, k] * A[:, k].sum(), "first-peak-of-one", 1e-9)
    names = gen_lines(rng, m)
    full = c.call(xm.calculate_area, names, A, got, p, _rep=False)
    if any(not xm.get_activated_lines(v["coherent_sct_energy"], [n]) for n in names):
        names = [str(n) for n in rng.choice(["Ar_K", "K_K", "Ca_K", "Pt_M", "Ti_K"], m, replace=False)]
        full = c.call(xm.calculate_area, names, A, got, p, _rep=False)
    part = c.call(xm.calculate_area, names, A, got, p, first_peak_area=True, _rep=False)
    for k, name in enumerate(names):
        c.close(full[name], got[:, :, k] * A[:, k].sum(), "area-map", 1e-9)
        el, fam = name.split("_")
        cs = xrf.XrfElement(el).cs(v["coherent_sct_energy"])
        if cs[FAM[fam][0]]:
            f = cs[FAM[fam][0]] / sum(cs[t] for t in FAM[fam])
            c.close(part[name], got[:, :, k] * A[:, k].sum() * f, "first-peak-map", 1e-9)
    for d in (full, part):
        c.equal(d["snip_bkg"], got[:, :, m], "background-map")
        c.equal(d["r_squared"], got[:, :, m + 1], "r-squared-map")
        c.expect(set(d) == set(names) | {"snip_bkg", "r_squared"}, "map-names")
    c.mark("pixels", rows, cols, snip_)


@workload("P21", quick=5, thorough=60, pure=False)
def pixel_fit_delays(c):
    """rows which take unequally long, wide and tall maps"""
    rng = c.rng
    p = gen_param(rng)
    wide = c.i % 5 == 4
    rows, cols = (2, int(rng.integers(520, 600))) if wide else (int(rng.integers(12, 40)), int(rng.integers(1, 3)))
    n, m = 40, 2
    x = np.arange(n)
    A = np.stack([norm_pdf(x, v, 4.0) for v in (10, 28)], axis=1) * 100
    amp = rng.uniform(1, 50, (rows, cols, m))
    data = amp @ A.T
    c.note(data)
    import importlib
    import time
    mod = importlib.import_module("skbeam.core.fitting.xrf_model")
    slow = {float(v) for v in data[rng.random(rows) < 0.4, 0].sum(axis=-1)}
    slow.add(float(data[0, 0].sum()))
    real = getattr(mod, "nnls", None)

    def late(a, b, *args, **kw):
        if any(abs(float(np.sum(b)) - v) < 1e-6 * abs(v) for v in slow):
            time.sleep(0.02)
        return real(a, b, *args, **kw)

    if real is not None and not wide:
        mod.nnls = late
    try:
        got = c.call(xm.fit_pixel_multiprocess_nnls, data, A, p, use_snip=False, _rep=False)
    finally:
        if real is not None:
            mod.nnls = real
    c.expect(got.shape == (rows, cols, m + 2), "pixel-fit-shape", got.shape)
    c.close(got[:, :, :m], amp, "pixel-amplitudes", 1e-6, 1e-8)
    c.close(got[:, :, m], np.zeros((rows, cols)), "pixel-background", 0, 1e-12)
    c.close(got[:, :, m + 1], np.ones((rows, cols)), "pixel-r-squared", 1e-9)
    c.mark("delayed" if not wide else "wide", rows)


@workload("P21", quick=8, thorough=60, pure=False)
def full_fit(c):
    """the nonlinear fit of a spectrum made by the model finds the areas"""
    rng = c.rng
    p = gen_param(rng, 12.0)
    p["e_linear"]["value"], p["e_offset"]["value"], p["e_quadratic"]["value"] = 0.02, 0.0, 0.0
    lines = [str(v) for v in rng.choice(["Fe_K", "Ca_K", "Zn_K", "Cr_K", "Pt_M", "Gd_L"], 2, replace=False)]
    x = np.arange(80, 640)
    true = {}
    y = np.zeros(len(x))
    for line in lines:
        true[line] = float(rng.uniform(1e3, 1e5))
        y = y + line_ref(x, line, p, true[line])
    com, ela = scatter_ref(x, p)
    y = y + com + ela
    c.note(y)
    ms = c.call(xm.ModelSpectrum, p, lines, _rep=False)
    c.call(ms.assemble_models, _rep=False)
    data, wt = y.copy(), 1 / np.sqrt(y + 1)
    if rng.random() < 0.6:
        # channels without weight do not count
        dead = rng.choice(len(x), int(rng.integers(1, 40)), replace=False)
        data[dead], wt[dead] = rng.uniform(0, 10 * y.max(), len(dead)), 0.0
    r = c.call(ms.model_fit, x, data, weights=wt, maxfev=3000, _rep=False)
    for line in lines:
        el, fam = line.split("_")
        c.close(r.values["%s_%s_area" % (el, FAM[fam][0])], true[line], "fitted-area", 0.02)
        cs = xrf.XrfElement(el).cs(12.0)
        tot = true[line] * sum(cs[t] for t in FAM[fam] if cs[t]) / cs[FAM[fam][0]]
        c.close(xm.sum_area(line, r), tot, "summed-area", 0.02)
    c.close(r.best_fit, y, "fitted-spectrum", 0.02, 0.02 * y.max())
    q = copy.deepcopy(p)
    q["Fe_ka1_area"] = {"value": -1.0, "bound_type": "none", "min": 0.0, "max": 1.0}
    xm.update_parameter_dict(q, r)
    c.close(q["compton_amplitude"]["value"], r.values["compton_amplitude"], "updated-parameters", 1e-9)
    c.close(q["coherent_sct_amplitude"]["value"], r.values["elastic_coherent_sct_amplitude"], "updated-parameters", 1e-9)
    if "Fe_K" in lines:
        c.close(q["Fe_ka1_area"]["value"], r.values["Fe_ka1_area"], "updated-parameters", 1e-9)
    c.mark("nonlinear", tuple(lines))
