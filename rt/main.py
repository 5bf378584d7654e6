"""python -m rt.main PROPERTY [quick|thorough] | --replay FILE

Exit 0: held on everything explored.  1: VIOLATION.  2: no verdict.
"""
import glob
import json
import os
import shutil
import subprocess
import sys
import tempfile
import threading
import time

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
sys.path.insert(0, VERIF)

from rt import core, native, child  # noqa: E402

PY = "/opt/venv/bin/python"
BUDGET = {"quick": 100.0, "thorough": 420.0}


def base_env():
    env = {k: v for k, v in os.environ.items() if k not in ("LD_PRELOAD", "PYTHONPATH")}
    env.update(PYTHONPATH=core.REPO + os.pathsep + VERIF, PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0",
               PYTHONNOUSERSITE="1", MPLBACKEND="Agg", OPENBLAS_NUM_THREADS="1", OMP_NUM_THREADS="1",
               NUMEXPR_NUM_THREADS="1", LC_ALL="C.UTF-8", VERIF_REPO=core.REPO)
    return env


def known_findings():
    known = {}
    path = os.path.join(VERIF, "known_findings.txt")
    for line in open(path):
        line = line.strip()
        if line.startswith("finding: "):
            head, _, text = line[len("finding: "):].partition(" | ")
            d = dict(x.split("=", 1) for x in head.split())
            known[(d["property"], d["key"])] = text
    return known


class Run:
    def __init__(self, prop, tier, seed, scratch):
        self.prop, self.tier, self.seed, self.scratch = prop, tier, seed, scratch
        self.results, self.violations, self.errors = [], [], []
        self.lock = threading.Lock()

    def shard(self, mode, shard, nsh, deadline, only=None):
        out = os.path.join(self.scratch, "%s-%d.json" % (mode, shard))
        log = os.path.join(self.scratch, "%s-%d.log" % (mode, shard))
        env = base_env()
        native.child_env(env, mode, self.scratch)
        cmd = [PY, "-m", "rt.child", self.prop, mode, self.tier, str(self.seed), str(shard), str(nsh),
               str(deadline), out]
        if only:
            cmd += [only[0], str(only[1])]
        tmp = os.path.join(self.scratch, "tmp-%s-%d" % (mode, shard))
        os.makedirs(tmp, exist_ok=True)
        env["TMPDIR"] = tmp
        env["VERIF_TMP"] = tmp
        with open(log, "wb") as lf:
            p = subprocess.Popen(cmd, cwd=tmp, env=env, stdout=lf, stderr=subprocess.STDOUT,
                                 start_new_session=True)
            limit = deadline + 400
            try:
                rc = p.wait(timeout=limit)
            except subprocess.TimeoutExpired:
                rc = None
            finally:
                try:
                    os.killpg(p.pid, 9)
                except OSError:
                    pass
                p.wait()
        text = open(log, "rb").read().decode("utf-8", "replace")
        last = [l for l in text.splitlines() if l.startswith("CASE ")]
        last = last[-1].split()[1:] if last else None
        with self.lock:
            if rc == 0 and os.path.exists(out):
                self.results.append((mode, json.load(open(out))))
                return
            tail = "\n".join(text.splitlines()[-60:])
            if last is None:
                self.errors.append("%s: the shard did not start (exit %s)\n%s" % (mode, rc, tail))
                return
            what = native.classify_death(rc, text)
            if what is None:
                self.errors.append("%s: shard died (exit %s)\n%s" % (mode, rc, tail))
                return
            self.violations.append({"workload": last[0], "case": int(last[1]), "mode": mode,
                                    "mechanism": what, "detail": native.sanitizer_report(text)})


def main(argv):
    t0 = time.time()
    if argv and argv[0] == "--replay":
        rep = json.load(open(argv[1]))
        prop, tier, seed = rep["property"], rep["tier"], rep["seed"]
        only = (rep["workload"], rep["case"])
        modes = [rep["mode"]]
    else:
        prop = argv[0]
        tier = argv[1] if len(argv) > 1 else os.environ.get("VERIF_TIER", "quick")
        seed = int(os.environ.get("VERIF_SEED", "1") or 1)
        only = None
        modes = None
    child.load_workloads()
    if modes is None:
        if prop == "P24":
            modes = ["plain"]
        else:
            modes = sorted({w.mode for w in core.WORKLOADS if w.prop == prop})
    if not modes:
        print("no workload for", prop)
        return 2
    scratch = tempfile.mkdtemp(prefix="verif-%s-" % prop)
    run = Run(prop, tier, seed, scratch)
    try:
        needs = set()
        for w in core.WORKLOADS:
            if (w.prop == prop or (prop == "P24" and w.pure)) and w.mode in modes:
                needs.update((n, w.mode) for n in w.needs)
        try:
            native.build_all(needs, scratch)
        except native.BuildError as e:
            print("the extensions do not build:\n%s" % str(e)[-3000:])
            return 2
        tb = time.time() - t0
        ncpu = min(8, os.cpu_count() or 1)
        if only:
            run.shard(modes[0], 0, 1, 120, only)
        else:
            jobs = []
            per = native.shards(modes, ncpu)
            for m in modes:
                for s in range(per[m]):
                    jobs.append(threading.Thread(target=run.shard, args=(m, s, per[m], 40.0 if (tier, m) == ("quick", "plain") and prop != "P24" else BUDGET[tier])))
            for j in jobs:
                j.start()
            for j in jobs:
                j.join()
        return finish(run, modes, t0, tb, only)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


def finish(run, modes, t0, tb, only):
    prop, tier, seed = run.prop, run.tier, run.seed
    wl, digests, cover, samples, findings, lines = {}, set(), set(), [], [], set()
    native_rep = {}
    cut = False
    for mode, r in run.results:
        for v in r["violations"]:
            v["mode"] = mode
            run.violations.append(v)
        run.errors += r["errors"]
        findings += r["findings"]
        digests.update(r["digests"])
        cover.update(r["cover"])
        samples += r["samples"]
        lines.update(r.get("line_set", []))
        cut = cut or r.get("cut", False)
        for k, v in r["native"].items():
            native_rep[k] = native_rep.get(k, 0) + v if isinstance(v, (int, float)) else v
        for n, s in r["workloads"].items():
            d = wl.setdefault(n, {})
            for k, v in s.items():
                if isinstance(v, int):
                    d[k] = d.get(k, 0) + v
    uniq, seen = [], set()
    for v in sorted(run.violations, key=lambda v: (v["workload"], v["case"])):
        if (v["workload"], v["mechanism"]) not in seen:
            seen.add((v["workload"], v["mechanism"]))
            uniq.append(v)
    if only:
        for v in uniq:
            print("%s case %d: %s: %s" % (v["workload"], v["case"], v["mechanism"], v["detail"]))
        for e in run.errors:
            print(e)
        print("reproduced" if uniq else "not reproduced")
        return 1 if uniq else (2 if run.errors else 0)

    known = known_findings()
    unlisted = [k for k in findings if (prop, k) not in known]
    for k in findings:
        if k not in unlisted:
            print("KNOWN-FINDING: property=%s %s" % (prop, known[(prop, k)]))
    cases = sum(d["cases"] for d in wl.values())
    observed = sum(d["watched"] if prop == "P24" else d["observed"] for d in wl.values())
    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": "exploration",
        "coverage": {
            "evaluations": cases,
            "distinct_nontrivial": len(digests),
            "rule": "A case is one generated input (or call history) of a workload, run through the public API "
                    "with the monitors attached. It is non-trivial when a monitor compared at least one finite "
                    "non-zero expected value (for input integrity: watched at least one container), and distinct "
                    "by the digest of all arguments of all its calls.",
            "samples": samples[:6],
            "values_judged": observed,
            "calls_of_code_under_test": sum(d["calls"] for d in wl.values()),
            "distinct_states": len(cover),
            "state_examples": sorted(cover)[:40],
            "lines_of_package_reached": len(lines),
            "workloads": {n: {k: d[k] for k in ("cases", "skipped", "observed", "nontrivial", "calls", "watched", "histories",
                                                 "repeats")} for n, d in sorted(wl.items())},
            "modes": modes,
            "native": native_rep,
            "stopped_by_time_limit": cut,
        },
        "assumptions": [
            "numpy, scipy, lmfit, xraylib, scikit-image and the C compiler are trusted",
            "exploration: the property is judged on the executions observed, not on all inputs",
        ],
        "wall_s": round(time.time() - t0, 2),
        "build_s": round(tb, 2),
        "violations": len(uniq) + len(unlisted),
    }
    os.makedirs(os.path.join(VERIF, "evidence", "replay"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    if os.environ.get("VERIF_LINES"):
        with open(os.path.join(os.environ["VERIF_LINES"], prop + ".lines"), "w") as f:
            f.write("\n".join(sorted(lines)))
    print("%s %s seed=%d: %d cases, %d distinct non-trivial, %d values judged, %d lines, %.1f s"
          % (prop, tier, seed, cases, len(digests), observed, len(lines), time.time() - t0))
    for n, v in enumerate(uniq):
        path = os.path.join(VERIF, "evidence", "replay", "%s-%d.json" % (prop, n))
        with open(path, "w") as f:
            json.dump(dict(v, property=prop, tier=tier, seed=seed,
                           replay="python -m rt.main --replay " + path), f, indent=1)
        print("%s case %d [%s]: %s: %s" % (v["workload"], v["case"], v["mode"], v["mechanism"],
                                            str(v["detail"])[:1500]))
        print("VIOLATION property=%s replay=%s" % (prop, path))
    for k in unlisted:
        path = os.path.join(VERIF, "evidence", "replay", "%s-%s.json" % (prop, k))
        with open(path, "w") as f:
            json.dump({"property": prop, "finding": k}, f)
        print("VIOLATION property=%s replay=%s" % (prop, path))
    for e in run.errors[:5]:
        print("ERROR", e)
    if uniq or unlisted:
        return 1
    if run.errors:
        return 2
    dead = [n for n, d in wl.items() if not (d["watched"] if prop == "P24" else d["nontrivial"])
            and not (prop == "P24" and d["skipped"])]
    if prop != "P24":
        # P24 borrows workloads; some of them have no arrays to watch
        if dead or not cases:
            print("INCONCLUSIVE: no observation in", dead)
            return 2
    elif not observed:
        return 2
    return 0


if __name__ == "__main__":
    sys.exit(main(sys.argv[1:]))
