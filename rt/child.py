"""Runs one shard of the cases of one property in one build mode.

argv: property mode tier seed shard nshards deadline_s out.json [workload case]
Progress lines go to stdout so that the parent knows what ran when it crashes.
"""
import importlib
import json
import os
import resource
import signal
import sys
import time
import traceback

from . import core, fresh, native


CASE_LIMIT = 120      # seconds for one case
MEM_LIMIT = 5 << 30   # bytes of address space for one process without sanitizer


class Hang(BaseException):
    pass


QUICK = 12       # the quick tier runs this many times the nominal number of cases (without sanitizers)


def _alarm(signum, frame):
    raise Hang()


def load_workloads():
    here = os.path.dirname(os.path.abspath(__file__))
    for f in sorted(os.listdir(here)):
        if f.startswith("w_") and f.endswith(".py"):
            importlib.import_module("rt." + f[:-3])


class LineMonitor:
    """Which lines of the package ran (each line reports once, then is free)."""

    def __init__(self):
        self.lines = set()
        self.prefix = os.path.join(core.REPO, "skbeam") + os.sep
        mon = sys.monitoring
        self.tool = mon.COVERAGE_ID
        self.disable = mon.DISABLE
        mon.use_tool_id(self.tool, "verif")
        mon.register_callback(self.tool, mon.events.LINE, self.hit)
        mon.set_events(self.tool, mon.events.LINE)

    def hit(self, code, line):
        fn = code.co_filename
        if fn.startswith(self.prefix) and code.co_name != "<module>":
            self.lines.add((fn[len(self.prefix):], line))
        return self.disable

    def stop(self):
        sys.monitoring.set_events(self.tool, 0)
        sys.monitoring.register_callback(self.tool, sys.monitoring.events.LINE, None)


def main(argv):
    prop, mode, tier, seed, shard, nsh, deadline, out = argv[:8]
    seed, shard, nsh, deadline = int(seed), int(shard), int(nsh), float(deadline)
    only = (argv[8], int(argv[9])) if len(argv) > 8 else None
    t0 = time.time()
    core.quiet()
    native.inject(mode)
    if mode == "plain":
        resource.setrlimit(resource.RLIMIT_AS, (MEM_LIMIT, resource.RLIM_INFINITY))
    lm = LineMonitor() if mode == "plain" else None
    load_workloads()
    watch = prop == "P24"
    clean = fresh.Fresh(core.lazy.names) if watch else None
    if watch:
        wls = [w for w in core.WORKLOADS if w.pure and w.mode == "plain"]
    else:
        wls = [w for w in core.WORKLOADS if w.prop == prop and w.mode == mode]
    if only:
        wls = [w for w in core.WORKLOADS if w.name == only[0]]
    res = {"workloads": {}, "violations": [], "findings": [], "errors": [], "digests": [], "cover": [],
           "samples": [], "lines": 0}
    digests, cover = set(), set()
    signal.signal(signal.SIGALRM, _alarm)
    seen_mech = set()

    def run(w, i):
        st = res["workloads"].setdefault(w.name, {"cases": 0, "skipped": 0, "observed": 0, "nontrivial": 0,
                                                  "calls": 0, "watched": 0, "repeats": 0, "property": w.prop})
        print("CASE %s %d" % (w.name, i), flush=True)
        c = core.Ctx(w, seed, i, tier, watch=watch)
        c.fresh = clean
        signal.alarm(CASE_LIMIT)
        bad = None
        try:
            w.fn(c)
            if watch:
                c.finish()
        except core.Violation as v:
            bad = (v.mechanism, v.detail)
        except core.Skip:
            st["skipped"] += 1
        except core.Inconclusive as e:
            res["errors"].append("%s %d: %s" % (w.name, i, e))
        except Hang:
            bad = ("does-not-return", "a case which takes a second did not finish in %d s" % CASE_LIMIT)
        except MemoryError as e:
            if mode == "plain":
                bad = ("exhausts-memory", "more than %d GB for a small input" % (MEM_LIMIT >> 30))
            else:
                res["errors"].append("%s %d: out of memory" % (w.name, i))
        except Exception:
            tb = traceback.format_exc()
            if watch:
                st["skipped"] += 1     # judged by the property of the workload
            elif _from_repo_result(tb):
                bad = ("malformed-result", tb[-900:])
            elif _inside_package(tb):
                bad = ("raises", tb[-900:])
            else:
                res["errors"].append("%s %d: %s" % (w.name, i, tb[-1500:]))
        finally:
            signal.alarm(0)
        st["cases"] += 1
        st["calls"] += c.calls
        st["observed"] += c.observed
        st["watched"] += c.watched
        st["repeats"] += c.repeats
        st["histories"] = st.get("histories", 0) + c.histories
        if watch and c.watched:
            c.nontrivial = True
        if c.nontrivial:
            st["nontrivial"] += 1
            digests.add(w.name + c.digest.hexdigest())
        cover.update(w.name + k for k in c.cover)
        if c.sample and len(res["samples"]) < 3 and i < 3 * nsh:
            res["samples"].append({"workload": w.name, "case": i, "first_call": c.sample[:600]})
        if bad and (w.name, bad[0]) not in seen_mech:
            seen_mech.add((w.name, bad[0]))
            res["violations"].append({"workload": w.name, "case": i, "mechanism": bad[0], "detail": bad[1],
                                      "first_call": (c.sample or "")[:2000]})
        return bad

    if only:
        run(wls[0], only[1])
    else:
        if mode == "plain" and shard == 0 and not watch:
            for f in core.FINDINGS:
                if f.prop == prop:
                    try:
                        if f.fn():
                            res["findings"].append(f.key)
                    except Exception:
                        res["errors"].append("finding %s: %s" % (f.key, traceback.format_exc()[-800:]))
        plan = []
        for w in wls:
            n = w.quick * (QUICK if mode == "plain" else 1) if tier == "quick" else max(w.thorough, w.quick * QUICK)
            if watch:
                n = max(1, w.quick // 3) if tier == "quick" else n // 4
            plan.append([w, range(shard, n, nsh), 0, 0])
        # round-robin, so that a deadline cuts all workloads alike
        live = plan
        while live:
            nxt = []
            for p in live:
                w, idx, k, nbad = p
                if k >= len(idx) or nbad >= 3:
                    continue
                left = deadline - (time.time() - t0)
                if left < 0 and (k > 0 or left < -60):
                    res["cut"] = True
                    continue
                bad = run(w, idx[k])
                if bad:
                    p[3] += 3 if bad[0] in ("does-not-return", "exhausts-memory") else 1
                p[2] += 1
                nxt.append(p)
            live = nxt
    if clean:
        clean.close()
    if lm:
        lm.stop()
        res["line_set"] = sorted("%s:%d" % x for x in lm.lines)
    res["digests"] = sorted(digests)
    res["cover"] = sorted(cover)
    res["native"] = native.report()
    with open(out, "w") as f:
        json.dump(res, f, default=repr)
    print("DONE", flush=True)


def _from_repo_result(tb):
    """An oracle could not even read the result, because of its type or shape.

    The oracles are written for results of the documented kind, so an
    exception of this sort in a workload is about the result; anything else is
    an error of the harness.
    """
    last = [l for l in tb.strip().splitlines() if l and not l.startswith(" ")][-1]
    return last.startswith(("TypeError", "ValueError", "IndexError", "KeyError", "AttributeError"))


def _inside_package(tb):
    """The exception left a function of the package, for input which is valid."""
    return 'File "%s' % (os.path.join(core.REPO, "skbeam") + os.sep) in tb


if __name__ == "__main__":
    main(sys.argv[1:])
