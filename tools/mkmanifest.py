"""Writes MANIFEST.json."""
import json
import os

here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = "/opt/venv/bin/python"
SAN = {
    "P01": ("AddressSanitizer and UndefinedBehaviorSanitizer builds of the extensions, allocation-failure injection and "
            "leak monitor under hostile argument workloads",
            "Memory errors and undefined behaviour on every executed path of the rebuilt extensions (with and without "
            "OpenMP) are reported; paths not executed are not judged. Trusts the sanitizers, Cython and numpy."),
    "P02": ("happens-before race monitor on instrumented memory accesses of the extension, schedule perturbation, "
            "allocation faults, and comparison of results across thread counts and concurrent callers",
            "Races are judged on the synchronisation observed, not on the outcome of one schedule; schedules are sampled. "
            "Trusts the compiler's access instrumentation and the model of the OpenMP entry points."),
}
checks = []
for line in open(os.path.join(here, "properties.jsonl")):
    p = json.loads(line)["id"]
    tech, note = SAN.get(p, (None, None))
    if p == "P24":
        tech = "runtime monitor of argument contents, repeatability and result stability on every call of all workloads"
        note = ("Judges the calls made by the generated workloads of all other properties (each function of the package "
                "which has a workload). Opaque objects are not compared.")
    elif p in ("P04", "P05", "P08", "P09", "P13", "P16", "P27", "P28") :
        tech = "runtime monitoring of call histories against an online reference model"
    elif tech is None:
        tech = "runtime monitoring of generated executions against independent oracles and conservation laws"
    if note is None:
        note = ("Exploration: every observed call is judged by an oracle written from the definition; inputs are generated "
                "from VERIF_SEED with hostile edges. Trusts numpy, scipy and the oracle; tolerances cover round-off only.")
    checks.append({"property": p, "quick_cmd": "%s -m rt.main %s quick" % (PY, p),
                   "thorough_cmd": "%s -m rt.main %s thorough" % (PY, p),
                   "evidence_file": "evidence/%s.json" % p,
                   "technique": tech, "level": "exploration", "level_note": note})
m = {"version": 1, "setup_cmd": "true", "checks": checks, "not_applicable": [],
     "notes": "No hooks in /repo: the checks rebuild the extensions with their own instrumentation outside of /repo and "
              "observe the public interface. All commits in /repo are repairs (fix:)."}
with open(os.path.join(here, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
