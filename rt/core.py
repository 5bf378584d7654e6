"""Monitors, workload registry and oracle helpers.

A *workload* drives the real public API of scikit-beam with generated inputs
and hands what it observed to the monitors of `Ctx`, which decide.  Nothing in
here looks at the source text of the code under test.
"""
import copy
import hashlib
import os
import sys
import types
import warnings
import zlib

import numpy as np

from . import fresh as fresh_mod

REPO = os.environ.get("VERIF_REPO", "/repo")
WORKLOADS = []   # list of Workload
FINDINGS = []    # list of Finding


class Violation(Exception):
    def __init__(self, mechanism, detail=""):
        super().__init__(mechanism, detail)
        self.mechanism = mechanism
        self.detail = detail


class Skip(Exception):
    """The generated case is outside the scope of the property."""


class Inconclusive(Exception):
    """The monitor could not do its work."""


class Workload:
    def __init__(self, prop, fn, quick, thorough, mode, needs, pure, weight):
        self.prop, self.fn, self.name = prop, fn, fn.__module__.split(".")[-1] + "." + fn.__name__
        self.quick, self.thorough = quick, thorough
        self.mode, self.needs, self.pure = mode, needs, pure
        self.weight = weight


def workload(prop, quick=40, thorough=None, mode="plain", needs=(), pure=True, weight=1.0):
    def deco(fn):
        WORKLOADS.append(Workload(prop, fn, quick, thorough or quick * 40, mode, tuple(needs), pure, weight))
        return fn
    return deco


class Finding:
    def __init__(self, prop, key, fn):
        self.prop, self.key, self.fn = prop, key, fn


def finding(prop, key):
    """A probe of one recorded defect: returns True while the defect is there."""
    def deco(fn):
        FINDINGS.append(Finding(prop, key, fn))
        return fn
    return deco


# ---------------------------------------------------------------------------
def _walk(obj, path, out, depth=0):
    if depth > 6:
        return
    if isinstance(obj, np.ndarray):
        out.append((path, obj))
    elif isinstance(obj, (list, tuple)):
        for n, v in enumerate(obj):
            _walk(v, path + "[%d]" % n, out, depth + 1)
        if isinstance(obj, list):
            out.append((path, obj))
    elif isinstance(obj, dict):
        for k, v in obj.items():
            _walk(v, path + "[%r]" % (k,), out, depth + 1)
        out.append((path, obj))


def _arrays(obj):
    found = []
    _walk(obj, "", found)
    return [o for _, o in found if isinstance(o, np.ndarray)]


def _same(a, b):
    if isinstance(a, np.ndarray):
        if a.shape != b.shape or a.dtype != b.dtype:
            return False
        if a.dtype == object:
            return all(_same_any(x, y) for x, y in zip(a.ravel(), b.ravel()))
        if a.dtype.kind in "fc":
            return bool(np.array_equal(a, b, equal_nan=True))
        return bool(np.array_equal(a, b))
    return _same_any(a, b)


def _same_any(a, b):
    if isinstance(a, np.ndarray) or isinstance(b, np.ndarray):
        return isinstance(a, np.ndarray) and isinstance(b, np.ndarray) and _same(a, b)
    if isinstance(a, (list, tuple)):
        return isinstance(b, (list, tuple)) and len(a) == len(b) and all(_same_any(x, y) for x, y in zip(a, b))
    if isinstance(a, dict):
        return isinstance(b, dict) and list(a) == list(b) and all(_same_any(a[k], b[k]) for k in a)
    if isinstance(a, (float, np.floating)) and isinstance(b, (float, np.floating)):
        return a == b or (a != a and b != b)
    if isinstance(a, (int, str, bytes, bool, type(None), complex, np.generic)):
        try:
            return bool(a == b)
        except Exception:
            return True
    return True     # opaque objects are not compared


def _plain(v):
    if isinstance(v, (list, tuple)):
        return len(v) <= 200 and all(_plain(x) for x in v)
    if isinstance(v, dict):
        return len(v) <= 50 and all(_plain(x) for x in v.values())
    return v is None or isinstance(v, (int, float, complex, str, bytes, bool, np.generic))


class Snapshot:
    """Content of all arrays, lists and dicts reachable from some arguments."""

    def __init__(self, obj):
        self.items = []
        found = []
        _walk(obj, "", found)
        for path, o in found:
            if isinstance(o, np.ndarray):
                self.items.append((path, o, o.copy()))
            elif isinstance(o, list):
                self.items.append((path, o, list(o)))
            else:
                self.items.append((path, o, dict(o)))

    def changed(self):
        for path, o, old in self.items:
            if isinstance(o, np.ndarray):
                if not _same(o, old):
                    return path
            elif isinstance(o, list):
                if len(o) != len(old) or any(x is not y for x, y in zip(o, old)):
                    return path
            else:
                if list(o) != list(old) or any(o[k] is not old[k] for k in o):
                    return path
        return None


def process_state():
    """settings of the process which belong to the user"""
    o = np.get_printoptions()
    return (("floating point error handling", tuple(sorted(np.geterr().items()))),
            ("working directory", os.getcwd()),
            ("print options", tuple((k, repr(o[k])) for k in sorted(o))),
            ("recursion limit", sys.getrecursionlimit()))


def changed_state(old):
    return ", ".join("%s from %s to %s" % (a[0], a[1], b[1]) for a, b in zip(old, process_state()) if a != b)


def _alike(a, b):
    """equal up to the last digits"""
    if isinstance(a, (np.ndarray, float, complex, np.inexact)) and isinstance(b, (np.ndarray, float, complex, np.inexact)):
        x, y = np.asarray(a), np.asarray(b)
        if x.dtype == object or y.dtype == object or x.dtype.kind not in "fc" or y.dtype.kind not in "fc":
            return _same_any(a, b)
        if x.shape != y.shape:
            return False
        with np.errstate(all="ignore"):
            fin = np.abs(x[np.isfinite(x)])
            top = float(fin.max()) if fin.size else 0.0
            return bool(np.allclose(x, y, rtol=1e-6, atol=1e-8 * top, equal_nan=True))
    if isinstance(a, (list, tuple)):
        return isinstance(b, (list, tuple)) and len(a) == len(b) and all(_alike(x, y) for x, y in zip(a, b))
    if isinstance(a, dict):
        return isinstance(b, dict) and list(a) == list(b) and all(_alike(a[k], b[k]) for k in a)
    return _same_any(a, b)


def vary(rng, v):
    """almost the same argument; None where it is not known how"""
    if isinstance(v, (bool, np.bool_)):
        return not v
    if isinstance(v, (int, np.integer)):
        return v + 1
    if isinstance(v, (float, np.floating)):
        return v * (1 + 0.2 * rng.random()) if v else type(v)(0.25)
    if isinstance(v, np.ndarray) and v.size and v.dtype.kind in "iufc":
        w = v.copy()
        if rng.random() < 0.5:
            w.reshape(-1)[:] = v.reshape(-1)[::-1]
        else:
            k = int(rng.integers(0, v.size))
            w.flat[k] = v.flat[(k + 1) % v.size]
        return w
    if isinstance(v, (list, tuple)) and type(v) in (list, tuple) and len(v):
        w = list(v)
        k = int(rng.integers(0, len(v)))
        w[k] = vary(rng, v[k])
        return None if w[k] is None else type(v)(w)
    return None


def vandalize(obj, depth=0):
    """change a result in place, as its owner may"""
    n = 0
    if isinstance(obj, np.ndarray):
        if obj.flags.writeable and obj.size and obj.dtype.kind in "biufc":
            obj[...] = ~obj if obj.dtype.kind == "b" else obj * 3 + 7
            n += 1
    elif isinstance(obj, (list, tuple)) and depth < 4:
        for v in obj:
            n += vandalize(v, depth + 1)
        if isinstance(obj, list):
            obj.append(None)
            n += 1
    elif type(obj) is dict and depth < 4:
        for v in obj.values():
            n += vandalize(v, depth + 1)
        obj["added by the caller"] = 1
        n += 1
    return n


def describe(obj, depth=0):
    if isinstance(obj, np.ndarray):
        s = "array%s %s" % (obj.shape, obj.dtype)
        if obj.size <= 12:
            s += " " + np.array2string(obj, threshold=20, precision=17, max_line_width=200).replace("\n", "")
        return s
    if isinstance(obj, (list, tuple)) and depth < 2:
        return "[" + ", ".join(describe(o, depth + 1) for o in obj[:8]) + (", ...]" if len(obj) > 8 else "]")
    if isinstance(obj, dict) and depth < 2:
        return "{" + ", ".join("%r: %s" % (k, describe(v, depth + 1)) for k, v in list(obj.items())[:6]) + "}"
    r = repr(obj)
    return r if len(r) < 120 else r[:117] + "..."


class Ctx:
    """What one case sees: its random generator and the monitors."""

    def __init__(self, wl, seed, i, tier, watch=False):
        self.wl, self.seed, self.i, self.tier = wl, seed, i, tier
        self.rng = np.random.default_rng([seed, zlib.crc32(wl.name.encode()), i])
        self.watch = watch            # P24: inputs and repeatability only
        self.calls = 0
        self.watched = 0
        self.repeats = 0
        self.observed = 0             # values compared by an oracle
        self.nontrivial = False
        self.digest = hashlib.blake2b(digest_size=12)
        self.cover = set()
        self.sample = None
        self.held = []
        self.fresh = None             # P24: a process without history
        self.histories = 0
        self.layout = np.random.default_rng([seed, zlib.crc32(wl.name.encode()), i, 1])

    def rearranged(self, v, deep=True):
        """the same values in another memory layout, whatever the workload had"""
        if type(v) is np.ndarray and v.size > 1 and v.dtype != object:
            return scramble_layout(self.layout, v)
        if deep and type(v) in (list, tuple) and v and all(type(x) is np.ndarray for x in v):
            return type(v)([self.rearranged(x, False) for x in v])
        return v

    def n(self, lo, hi, big):
        """A number below hi; now and then a far larger one, up to big."""
        if self.i % 25 == 13 and self.rng.random() < 0.8:
            return int(np.exp(self.rng.uniform(np.log(hi), np.log(big))))
        return int(self.rng.integers(lo, hi))

    def note(self, *values):
        """Input which reaches the code other than through the arguments of call."""
        for v in values:
            if isinstance(v, np.ndarray):
                self.digest.update(np.ascontiguousarray(v).tobytes())
            else:
                self.digest.update(repr(v).encode())
            if self.sample is None:
                self.sample = describe(values)

    # -- running the code under test
    def call(self, fn, *args, _mat=None, _rep=True, _ok=(), _out=(), _lay=True, **kw):
        """Call the code under test with valid input: it has to return.

        _mat: applied to the result (for generators).  _rep: whether the result
        is a function of the arguments (or how to compare).  _ok: exceptions which are an answer.
        _out: positions of arguments which are documented as output.  _lay: whether their memory layout may be changed.
        """
        self.calls += 1
        name = getattr(fn, "__qualname__", getattr(fn, "__name__", repr(fn)))
        if self.wl.mode == "plain" and _lay and not _out and "out" not in kw and self.layout.random() < 0.3:
            args = [self.rearranged(a) for a in args]
            kw = {k: self.rearranged(v) for k, v in kw.items()}
        found = []
        _walk((args, kw), "", found)
        for _, o in found:
            if isinstance(o, np.ndarray) and o.dtype != object:
                self.digest.update(str((o.shape, o.dtype)).encode())
                self.digest.update(np.ascontiguousarray(o).tobytes())
        self.digest.update(repr([a for a in args if _plain(a)]).encode())
        self.digest.update(repr([(k, kw[k]) for k in sorted(kw) if _plain(kw[k])]).encode())
        if self.sample is None:
            self.sample = "%s(%s)" % (name, ", ".join(
                [describe(a) for a in args] + ["%s=%s" % (k, describe(v)) for k, v in kw.items()]))
        spare = None
        same = _rep if callable(_rep) else _same_any
        if self.watch and _rep:
            try:
                spare = copy.deepcopy((args, kw))
            except Exception:
                spare = None
        snap = Snapshot(([a for n, a in enumerate(args) if n not in _out], kw)) if self.watch else None
        try:
            state = process_state()
            ret = fn(*args, **kw)
            if _mat is not None:
                ret = _mat(ret)
            if self.watch and process_state() != state:
                raise Violation("process-state", "%s changed %s" % (name, changed_state(state)))
        except _ok:
            raise
        except (Violation, Skip, Inconclusive, MemoryError):
            raise
        except Exception as e:
            if self.watch:
                raise Skip("raises")
            raise Violation("raises", "%s raised %s: %s" % (name, type(e).__name__, str(e)[:300])) from e
        if self.watch:
            self.watched += len(snap.items)
            bad = snap.changed()
            if bad is not None:
                raise Violation("input-modified", "%s changed its argument %s" % (name, bad))
            if spare is not None:
                # the same call on equal input, in the same process
                try:
                    keep = copy.deepcopy(ret)
                    again = fn(*spare[0], **spare[1])
                    if _mat is not None:
                        again = _mat(again)
                except Exception as e:
                    raise Violation("not-repeatable", "%s raised %s: %s when called again with equal arguments"
                                    % (name, type(e).__name__, str(e)[:300])) from e
                self.repeats += 1
                if not same(keep, again):
                    raise Violation("not-repeatable", "%s gave another result for equal arguments" % name)
                if not same(keep, ret):
                    raise Violation("result-overwritten", "a second call of %s changed the first result" % name)
                free = isinstance(fn, (type, types.FunctionType, types.BuiltinFunctionType)) \
                    and not getattr(fn, "__module__", "").startswith("skbeam.io")
                if not free and _mat is None and not (set(map(id, _arrays(again))) & set(map(id, _arrays(spare)))) \
                        and vandalize(again):
                    # state in an object or in a file: judge it now
                    third = fn(*copy.deepcopy(args), **copy.deepcopy(kw))
                    if not same(keep, third):
                        raise Violation("not-repeatable", "%s gave another result after the caller had changed the "
                                        "one of an earlier call" % name)
                self.held.append((name, fn if free else None, args, kw, _mat, ret, keep, spare, same))
                if len(self.held) > 12:
                    del self.held[6]
        return ret

    def finish(self):
        """P24, at the end of a case: what was handed out is still the same,
        and the calls give the same again, whatever the caller did with the results."""
        for name, fn, args, kw, mat, ret, keep, spare, same in self.held:
            if not same(keep, ret):
                raise Violation("result-overwritten", "a result of %s was changed by later calls" % name)
        for name, fn, args, kw, mat, ret, keep, spare, same in self.held[:3] + self.held[-1:]:
            if fn is None or any(o.dtype == object for o in _arrays((args, kw))):
                continue
            try:
                first = fn(*copy.deepcopy(spare[0]), **copy.deepcopy(spare[1]))
                if mat is not None:
                    first = mat(first)
                if not same(keep, first):
                    raise Violation("not-repeatable", "%s gave another result for equal arguments after other calls"
                                    % name)
                if vandalize(first):
                    again = fn(*copy.deepcopy(spare[0]), **copy.deepcopy(spare[1]))
                    if mat is not None:
                        again = mat(again)
                    if not same(keep, again):
                        raise Violation("not-repeatable", "%s gave another result after the caller had changed the "
                                        "one of an earlier call" % name)
            except Violation:
                raise
            except Exception as e:
                raise Violation("not-repeatable", "%s raised %s: %s when called again with equal arguments"
                                % (name, type(e).__name__, str(e)[:300])) from e
            self.repeats += 2
        if self.fresh is not None and self.held:
            for _ in range(2):
                self._history(self.held[int(self.rng.integers(0, len(self.held)))])

    def _history(self, entry):
        """P24: a call which differs in one argument from one made before gives
        what it gives in a process where nothing was called before."""
        name, fn, args, kw, mat, ret, keep, spare, same = entry
        mod = getattr(fn, "__module__", "") or ""
        if not isinstance(fn, (type, types.FunctionType)) or not mod.startswith("skbeam") or "<locals>" in fn.__qualname__:
            return
        rng = self.rng
        args, kw = copy.deepcopy(spare)
        how = int(rng.integers(0, 3))
        fresh_mod.answer(fn, args, kw, mat)
        if how == 0:        # the caller goes on with the same array
            pool = [a for a in _arrays((args, kw)) if a.flags.writeable and a.size > 1 and a.dtype.kind in "iufc"]
            if not pool:
                return
            a = pool[int(rng.integers(0, len(pool)))]
            a[...] = vary(rng, a)
        elif how == 1:      # one argument is another one
            keys = list(range(len(args))) + list(kw)
            k = keys[int(rng.integers(0, len(keys)))]
            v = vary(rng, args[k] if isinstance(k, int) else kw[k])
            if v is None:
                return
            if isinstance(k, int):
                args = args[:k] + (v,) + args[k + 1:]
            else:
                kw[k] = v
        want = self.fresh.ask(fn, args, kw, mat)
        if want is None:
            return
        got = fresh_mod.answer(fn, args, kw, mat)
        self.repeats += 1
        self.histories += 1
        alike = _alike if same is _same_any else same
        if got[0] != want[0] or (got[0] == "value" and not alike(got[1], want[1])):
            raise Violation("depends-on-history", "%s gave %s, in a process of its own it gives %s (%s)" % (
                name, describe(got[1])[:200], describe(want[1])[:200],
                ("an array changed in place", "one argument changed", "same call")[how]))

    def rejects(self, exc, fn, *args, **kw):
        """Invalid input: the call has to raise one of exc."""
        self.calls += 1
        name = getattr(fn, "__qualname__", repr(fn))
        snap = Snapshot((args, kw)) if self.watch else None
        try:
            fn(*args, **kw)
        except exc:
            self.observed += 1
            if snap is not None:
                bad = snap.changed()
                self.watched += len(snap.items)
                if bad is not None:
                    raise Violation("input-modified", "%s changed its argument %s and then rejected it" % (name, bad))
            return
        except (Violation, Skip):
            raise
        except Exception as e:
            if self.watch:
                raise Skip("raises")
            raise Violation("wrong-exception", "%s raised %s: %s" % (name, type(e).__name__, str(e)[:200])) from e
        if self.watch:
            return
        raise Violation("accepts-invalid", "%s accepted %s" % (name, describe(args)))

    # -- oracles
    def expect(self, cond, mechanism, detail=""):
        if self.watch:
            return
        self.observed += 1
        if not cond:
            raise Violation(mechanism, detail() if callable(detail) else detail)

    def equal(self, got, want, mechanism, detail=""):
        """Exactly equal, NaN being equal to NaN."""
        if self.watch:
            return
        g, w = np.asarray(got), np.asarray(want)
        self.observed += int(w.size)
        if w.size and not self.nontrivial:
            self.nontrivial = bool(np.any(w != 0)) if w.dtype.kind in "biufc" else True
        if g.shape != w.shape:
            raise Violation(mechanism, "shape %s instead of %s %s" % (g.shape, w.shape, detail))
        kw = {"equal_nan": True} if (g.dtype.kind in "fc" and w.dtype.kind in "fc") else {}
        if not np.array_equal(g, w, **kw):
            bad = ~((g == w) | ((g != g) & (w != w)))
            k = np.argwhere(np.atleast_1d(bad))
            k = tuple(int(v) for v in k[0]) if len(k) else ()
            ga, wa = np.atleast_1d(g), np.atleast_1d(w)
            raise Violation(mechanism, "at %s: %r instead of %r (%d of %d differ) %s" % (
                k, ga[k] if k else g, wa[k] if k else w, int(np.sum(bad)), g.size, detail))

    def close(self, got, want, mechanism, rtol=1e-9, atol=0.0, detail=""):
        """Equal up to the round-off of any reasonable order of operations."""
        if self.watch:
            return
        g, w = np.asarray(got), np.asarray(want)
        self.observed += int(w.size)
        if w.size and not self.nontrivial:
            self.nontrivial = bool(np.any(np.isfinite(w) & (w != 0)))
        if g.shape != w.shape:
            raise Violation(mechanism, "shape %s instead of %s %s" % (g.shape, w.shape, detail))
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            with np.errstate(all="ignore"):
                ok = np.isclose(g, w, rtol=rtol, atol=atol, equal_nan=True)
        if not np.all(ok):
            k = tuple(int(v) for v in np.argwhere(~np.atleast_1d(ok))[0])
            ga, wa = np.atleast_1d(g), np.atleast_1d(w)
            raise Violation(mechanism, "at %s: %r instead of %r (%d of %d differ; rtol=%g atol=%s) %s" % (
                k, ga[k], wa[k], int(np.sum(~ok)), g.size, rtol,
                atol if np.ndim(atol) == 0 else "array", detail))

    def mark(self, *key):
        """A kind of state the workload reached (for the evidence)."""
        self.cover.add(repr(key))
        self.nontrivial = True


# -- input helpers shared by the workloads -----------------------------------
def detector_image(rng, shape):
    """Counts the way detectors deliver them, up to the top of their type."""
    k = int(rng.integers(0, 7))
    if k == 6:      # single precision, with a bright spot
        a = rng.uniform(0.5, 2, shape).astype(np.float32)
        a.reshape(-1)[: max(1, a.size // 8)] *= np.float32(10.0 ** rng.integers(0, 8))
        return a
    dt = (np.uint8, np.uint16, np.uint32, np.int16, np.int32, np.uint16)[k]
    top = int(np.iinfo(dt).max)
    return rng.integers(top // 2 if rng.random() < 0.6 else 0, top, shape, endpoint=True).astype(dt)


def scramble_layout(rng, a):
    """The same values in another memory layout."""
    a = np.asarray(a)
    k = rng.integers(0, 5)
    if k == 1 and a.ndim:
        b = np.empty(tuple(2 * s for s in a.shape), a.dtype)[tuple(slice(None, None, 2) for _ in a.shape)]
        b[...] = a
        return b
    if k == 2:
        return np.asfortranarray(a)
    if k == 3 and a.ndim:
        b = np.empty_like(a)[::-1]
        b[...] = a
        return b
    if k == 4:
        b = a.copy()
        b.flags.writeable = False
        return b
    return a


def quiet():
    warnings.simplefilter("ignore")
    np.seterr(all="ignore")


class lazy:
    """A module of the code under test, imported at first use (in the child)."""

    names = set()

    def __init__(self, name):
        self.__dict__["_name"] = name
        lazy.names.add(name)

    def __getattr__(self, k):
        import importlib
        return getattr(importlib.import_module(self.__dict__["_name"]), k)
