"""P22 element constants and powder standards."""
import json
import os

import numpy as np

from .core import Skip, lazy, workload
from .w_geom import pick

basic = lazy("skbeam.core.constants.basic")
xrf = lazy("skbeam.core.constants.xrf")
xrs = lazy("skbeam.core.constants.xrs")

LINES = {  # Siegbahn name -> IUPAC transition of xraylib
    "ka1": "KL3", "ka2": "KL2", "ka3": "KL1", "kb1": "KM3", "kb3": "KM2",
    "la1": "L3M5", "la2": "L3M4", "lb1": "L2M4", "lb2": "L3N5", "lb3": "L1M3", "lb4": "L1M2",
    "lg1": "L2N4", "lg2": "L1N2", "lg3": "L1N3", "lg4": "L1O3", "ll": "L3M1", "ln": "L2M1",
    "ma1": "M5N7", "ma2": "M5N6", "mb": "M4N6", "mg": "M3N5",
}
GROUPS = {"kb2": "KB2_LINE", "kb4": "KB4_LINE", "kb5": "KB5_LINE", "lb5": "LB5_LINE"}
SHELLS = ["K", "L1", "L2", "L3", "M1", "M2", "M3", "M4", "M5", "N1", "N2", "N3", "N4", "N5", "N6", "N7",
          "O1", "O2", "O3", "O4", "O5", "P1", "P2", "P3"]


def xl():
    import xraylib
    return xraylib


def code(name):
    x = xl()
    return getattr(x, GROUPS[name]) if name in GROUPS else getattr(x, LINES[name] + "_LINE")


def published():
    """AtomicConstants.dat (2003) as published, checked against its own table by Z (scan 1000)."""
    if "t" not in _TABLE:
        with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "elements.json")) as f:
            _TABLE["t"] = json.load(f)
    return _TABLE["t"]


_TABLE = {}


def safe(f, *a):
    try:
        return f(*a)
    except ValueError:
        return 0


def spell(rng, e, s):
    return pick(rng, s, s.lower(), s.upper(), "".join(ch.upper() if rng.random() < 0.5 else ch.lower() for ch in s))


@workload("P22", quick=120, thorough=2000)
def elements(c):
    """symbol, name and number of an element name the same data"""
    rng = c.rng
    z = c.i % 100 + 1
    sym = xl().AtomicNumberToSymbol(z)
    a = c.call(basic.BasicElement, z, _rep=False)
    c.expect(a.Z == z and a.sym == sym, "element-symbol", lambda: (a.Z, a.sym, sym))
    for key in (spell(rng, a, a.sym), spell(rng, a, a.name)):
        b = c.call(basic.BasicElement, key, _rep=False)
        for f in basic.element._fields:
            c.expect(getattr(b, f) == getattr(a, f) and b[f] == getattr(a, f), "element-data", (key, f))
        c.expect(b == a and not b < a and b <= a, "element-order")
    if z <= 98:
        w = safe(xl().AtomicWeight, z)
        c.expect(abs(a.mass / w - 1) < (0.012 if z < 84 and z not in (43, 61) else 0.05), "atomic-mass", lambda: (sym, a.mass, w))
    tab = published()
    c.expect(list(tab["fields"]) == list(basic.element._fields), "element-fields")
    for f, v in zip(tab["fields"], tab["elements"][str(z)]):
        c.expect(getattr(a, f) == v, "element-table", lambda: (sym, f, getattr(a, f), v))
    other = int(rng.integers(1, 101))
    b = basic.BasicElement(other)
    c.expect((a < b) == (z < other) and (a == b) == (z == other) and (a >= b) == (z >= other), "element-order")
    c.expect(str(z) in repr(a) and a.name in str(a), "element-text")
    c.note(z, other)
    c.mark("element", z)


@workload("P22", quick=120, thorough=2000)
def fluorescence(c):
    rng = c.rng
    z = c.i % 98 + 1
    x = xl()
    e = c.call(xrf.XrfElement, pick(rng, z, x.AtomicNumberToSymbol(z)), _rep=False)
    en = float(rng.uniform(1, 40))
    c.note(z, en)
    names = list(LINES) + list(GROUPS)
    em, cs, csb = e.emission_line, e.cs(en), e.csb(en)
    for other in rng.uniform(1, 60, 2):     # one object, several energies
        n = pick(rng, *names)
        other = float(other)
        c.equal(e.cs(other)[n], safe(x.CS_FluorLine_Kissel, z, code(n), other), "cross-section-again", n)
        c.equal(e.csb(other)[n], safe(x.CSb_FluorLine_Kissel, z, code(n), other), "cross-section-barn-again", n)
    c.expect(sorted(em) == sorted(names) and len(em) == len(names), "line-names", lambda: list(em))
    for n in names:
        k = spell(rng, e, n)
        c.equal(em[k], safe(x.LineEnergy, z, code(n)), "line-energy", n)
        c.equal(cs[k], safe(x.CS_FluorLine_Kissel, z, code(n), en), "cross-section", n)
        c.equal(csb[k], safe(x.CSb_FluorLine_Kissel, z, code(n), en), "cross-section-barn", n)
    for m, f in ((e.bind_energy, x.EdgeEnergy), (e.jump_factor, x.JumpFactor), (e.fluor_yield, x.FluorYield)):
        c.expect(len(m) == len(SHELLS), "shell-names")
        for s in SHELLS:
            c.equal(m[spell(rng, e, s)], safe(f, z, getattr(x, s + "_SHELL")), "shell-data", s)
    for m, what in ((em, "lines"), (e.bind_energy, "binding_e"), (e.jump_factor, "jump"), (e.fluor_yield, "yield"),
                    (cs, "cs"), (csb, "csb")):
        c.expect(m.info_type == what, "info-type", lambda: (m.info_type, what))
    c.expect(dict(em.all) == {n: em[n] for n in names}, "all-lines")
    w = e.cs(en)
    w.incident_energy = en + 5
    c.equal(w["ka1"], safe(x.CS_FluorLine_Kissel, z, code("ka1"), en + 5), "cross-section-energy")
    c.mark("xrf", z)


@workload("P22", quick=60, thorough=1500)
def line_search(c):
    rng = c.rng
    x = xl()
    en, inc, d = float(rng.uniform(0.5, 20)), float(rng.uniform(3, 30)), float(10 ** rng.uniform(-2.5, 0.3))
    names = list(LINES) + list(GROUPS)
    zs = rng.choice(np.arange(1, 93), 12, replace=False) if rng.random() < 0.8 else np.arange(1, 101)
    if rng.random() < 0.4:          # the tolerance just reaches a line, or just does not
        z = int(rng.choice(zs))
        v = safe(x.LineEnergy, z, code(pick(rng, *names)))
        if v > 0:
            t = abs(v - en) + pick(rng, -1, 1) * 10 ** rng.uniform(-8, -3)
            if 0 < t < 3:
                d = t
    want = {}
    for z in zs:
        z = int(z)
        hit = {}
        for n in names:
            v = safe(x.LineEnergy, z, code(n))
            if safe(x.CS_FluorLine_Kissel, z, code(n), inc) != 0:
                if abs(abs(v - en) - d) < 1e-9:
                    raise Skip
                if abs(v - en) < d:
                    hit[n] = v
        if hit:
            want[x.AtomicNumberToSymbol(z)] = hit
    args = (en, d, inc)
    if len(zs) < 100:
        args += ([pick(rng, int(z), spell(rng, None, x.AtomicNumberToSymbol(int(z)))) for z in zs],)
    got = c.call(xrf.emission_line_search, *args)
    if c.i % 4 == 0:
        c.expect(c.call(xrf.emission_line_search, en, 1e3, inc, []) == {}, "search-in-no-elements")
    c.expect(got == want, "line-search", lambda: (sorted(got), sorted(want)))
    c.mark("search", len(want))


LATTICE = {
    "Si": lambda h, k, l: (h * h + k * k + l * l) / 5.43102 ** 2,
    "CeO2": lambda h, k, l: (h * h + k * k + l * l) / 5.4112 ** 2,
    "Al2O3": lambda h, k, l: 4 / 3 * (h * h + h * k + k * k) / 4.7593 ** 2 + l * l / 12.9920 ** 2,
}
CUBIC = {"LaB6": (4.156, None), "Ni": (3.524, "fcc")}


@workload("P22", quick=40, thorough=1000)
def known_standards(c):
    """the tables against the lattices of the materials"""
    rng = c.rng
    lam = float(rng.uniform(0.15, 0.8))
    c.note(lam)
    st = xrs.calibration_standards
    c.expect(set(LATTICE) | set(CUBIC) <= set(st), "standards")
    for name, s in st.items():
        c.expect(s.name == name and len(s) == len(list(s)) == len(s.reflections), "standard-name")
        q = np.array([r.q for r in s])
        d = np.array([r.d for r in s])
        c.expect(bool(np.all(np.diff(q) > 0)), "reflections-sorted", name)
        c.close(q * d, np.full(len(q), 2 * np.pi), "q-and-d", 1e-9)
        if q.max() * lam < 4 * np.pi:
            t = c.call(s.convert_2theta, lam)
            c.close(4 * np.pi * np.sin(t / 2) / lam, q, "two-theta", 1e-9)
        if name in LATTICE:
            for r in s:
                dd = LATTICE[name](*r.hkl) ** -0.5
                c.expect(abs(r.d / dd - 1) < (3e-3 if name == "CeO2" else 2e-4), "standard-reflection", lambda: (name, r, dd))
        elif name in CUBIC:
            a, kind = CUBIC[name]
            ok = set()
            for h in range(12):
                for k in range(h + 1):
                    for m in range(k + 1):
                        if (h or k or m) and (kind is None or h % 2 == k % 2 == m % 2):
                            ok.add(h * h + k * k + m * m)
            want = np.array([a / n ** 0.5 for n in sorted(ok)])[: len(s)]
            c.close(d, want, "standard-spacing", 1e-3)
    c.mark("standards")


@workload("P22", quick=100, thorough=4000)
def new_standards(c):
    rng = c.rng
    n = int(rng.integers(1, 20)) if rng.random() < 0.9 else int(rng.integers(50, 300))
    lam = float(rng.uniform(0.2, 2))
    hkl = [tuple(int(v) for v in rng.integers(-5, 6, 3)) for _ in range(n)]
    order = rng.permutation(n)
    with_hkl = rng.random() < 0.6
    kw = {"hkl": hkl if rng.random() < 0.5 else np.array(hkl, float)} if with_hkl else {}
    if rng.random() < 0.5:
        tt = np.sort(rng.uniform(0.02, 3, n))[order]
        s = c.call(xrs.PowderStandard.from_lambda_2theta_hkl, "x", lam, tt, _rep=False, **kw)
        q = 4 * np.pi * np.sin(tt / 2) / lam
        if len(set(q)) == n:
            c.close(c.call(s.convert_2theta, lam), np.sort(tt), "two-theta-back", 1e-7)
        d = 2 * np.pi / q
    else:
        d = rng.uniform(0.4, 9, n)
        s = c.call(xrs.PowderStandard.from_d, "x", pick(rng, d, list(d)), _rep=False, **kw)
        q = 2 * np.pi / d
    k = np.argsort(q, kind="stable")
    rs = list(s)
    c.expect(len(rs) == n == len(s) and list(s.reflections) == rs, "number-of-reflections")
    c.expect(s.name == "x" and "x" in str(s), "standard-name")
    again = c.call(xrs.PowderStandard, "y", [tuple(rs[i]) for i in rng.permutation(n)], _rep=False)
    c.close([r.q for r in again], q[k], "reflection-order", 1e-9)
    h = [int(v) for v in rng.integers(-9, 10, 3)]
    for v in (c.call(xrs.HKL, *[float(a) for a in h], _rep=False),
              c.call(xrs.HKL, h[0], l=float(h[2]), k=str(h[1]), _rep=False),
              c.call(xrs.HKL, h=float(h[0]), k=h[1], l=h[2], _rep=False)):
        c.expect(tuple(v) == tuple(h) == (v.h, v.k, v.l) and all(type(a) is int for a in v), "hkl", lambda: (v, h))
    c.close([r.q for r in rs], q[k], "reflection-q", 1e-9)
    c.close([r.d for r in rs], d[k], "reflection-d", 1e-9)
    for j, r in zip(k, rs):
        w = hkl[j] if with_hkl else (0, 0, 0)
        c.expect(tuple(r.hkl) == w and all(isinstance(v, int) for v in r.hkl), "reflection-hkl", lambda: (r, w))
        c.close(r.hkl.length, np.sqrt(float(sum(v * v for v in w))), "hkl-length", 1e-12)
    c.mark("standard", n, with_hkl)
