"""Which kinds of arguments did the workloads hand to each function?  features.py [factor] > table
A change which depends on a kind that never occurs cannot be seen.  Not a registered check."""
import collections, inspect, json, os, sys, multiprocessing as mp
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V); sys.path.insert(0, "/repo")
os.environ.setdefault("VERIF_TMP", "/tmp")
import numpy as np
from rt import core, child
core.quiet()
child.load_workloads()
FACT = float(sys.argv[1]) if len(sys.argv) > 1 else 1
SEEN = collections.defaultdict(collections.Counter)


def kinds(v, deep=True):
    out = [type(v).__name__]
    if isinstance(v, (bool, np.bool_)) or v is None or isinstance(v, str):
        return [repr(v)[:20]] if not isinstance(v, str) else ["str"]
    if isinstance(v, (int, float, np.number)):
        x = float(v.real)
        out.append("=0" if x == 0 else "<0" if x < 0 else "nan" if x != x else "int" if x == int(x if abs(x) < 1e300 else 0) else "frac")
        if abs(x) > 255: out.append(">255")
        if abs(x) > 65535: out.append(">65535")
        if 0 < abs(x) < 1: out.append("(0,1)")
        return out
    if isinstance(v, (list, tuple)):
        out.append("len%s" % (len(v) if len(v) < 2 else "many" if len(v) < 256 else ">255"))
        if v and deep:
            out += ["[%s]" % k for k in kinds(v[0], False)[:1]]
        try:
            v = np.asarray(v, float)
        except Exception:
            return out
    if isinstance(v, np.ndarray):
        out += [str(v.dtype), "%dd" % v.ndim]
        if v.ndim > 1:
            out.append("C" if v.flags.c_contiguous else "F" if v.flags.f_contiguous else "strided")
            if v.size: out.append("square" if len(set(v.shape)) == 1 else "wide" if v.shape[-1] > v.shape[-2] else "tall")
            if 1 in v.shape: out.append("thin")
        elif v.ndim and not v.flags.c_contiguous:
            out.append("strided")
        if not v.flags.writeable: out.append("readonly")
        s = v.size
        out.append("n0" if s == 0 else "n1" if s == 1 else "n<=255" if s < 256 else "n<=4095" if s < 4096 else "n<=65535" if s < 65536 else "n>65535")
        if v.dtype.kind in "iuf" and s:
            f = v[np.isfinite(v)] if v.dtype.kind == "f" else v
            if f.size != s: out.append("nonfinite")
            if f.size:
                if (f < 0).any(): out.append("neg")
                if (f == 0).any(): out.append("zeros")
                if (f == 0).all(): out.append("allzero")
                elif s > 1 and (f == f.flat[0]).all(): out.append("const")
                if np.abs(f).max() > 65535: out.append(">65535")
                if np.abs(f).max() < 1e-3: out.append("tiny")
                if v.dtype.kind == "f" and (f == np.rint(f)).all(): out.append("whole")
                if v.ndim == 1 and s > 2:
                    d = np.diff(v)
                    out.append("asc" if (d >= 0).all() else "desc" if (d <= 0).all() else "unsorted")
                    if (np.sort(v)[1:] == np.sort(v)[:-1]).any(): out.append("dups")
    return out


SIG = {}
def record(self, fn, args, kw):
    name = getattr(fn, "__qualname__", None) or (type(fn).__qualname__ + ".__call__")
    try:
        if name not in SIG: SIG[name] = inspect.signature(fn)
        b = SIG[name].bind(*args, **kw)
    except Exception:
        return
    for p in SIG[name].parameters:
        if p in b.arguments:
            for k in kinds(b.arguments[p]):
                SEEN[name + "." + p][k] += 1
        else:
            SEEN[name + "." + p]["default"] += 1


old = core.Ctx.call
def call(self, fn, *a, _mat=None, _rep=True, _ok=(), _out=(), _lay=True, **kw):
    record(self, fn, a, kw)
    return old(self, fn, *a, _mat=_mat, _rep=_rep, _ok=_ok, _out=_out, _lay=_lay, **kw)
core.Ctx.call = call


def go(job):
    n, lo, hi = job
    w = core.WORKLOADS[n]
    SEEN.clear()
    for i in range(lo, hi):
        c = core.Ctx(w, 1, i, "quick", watch=False)
        try:
            w.fn(c)
        except BaseException:
            pass
    return {k: dict(v) for k, v in SEEN.items()}


if __name__ == "__main__":
    jobs = []
    for n, w in enumerate(core.WORKLOADS):
        if w.mode == "plain" and not w.name.split(".")[-1].startswith("pixel_fit"):
            m = max(1, int(w.quick * FACT))
            for lo in range(0, m, 60):
                jobs.append((n, lo, min(lo + 60, m)))
    tot = collections.defaultdict(collections.Counter)
    with mp.Pool(7, maxtasksperchild=20) as p:
        for r in p.imap_unordered(go, jobs):
            for k, v in r.items():
                tot[k].update(v)
    for k in sorted(tot):
        print(k, "|", " ".join("%s:%d" % x for x in sorted(tot[k].items())))
