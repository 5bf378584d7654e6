"""plant.py ID: confirm seeded/ID in a scratch copy: applies, builds, tests pass, demo 0 without and not 0 with it;
then run the check of its property (and any given as further arguments) against the changed copy."""
import json, os, shutil, subprocess, sys, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
i = sys.argv[1]
d = os.path.join(V, "seeded", i)
meta = json.load(open(os.path.join(d, "meta.json")))
w = tempfile.mkdtemp(prefix="plant-")
def sh(cmd, **k):
    return subprocess.run(cmd, shell=True, capture_output=True, text=True, **k)
try:
    r = sh("cp -a /repo %s/r" % w)
    R = w + "/r"
    sh("git -C %s tag -d vcheck-pass" % R)      # versioneer takes the tag for a version
    env = dict(os.environ, PYTHONPATH=R, PYTHONDONTWRITEBYTECODE="1", MPLBACKEND="Agg")
    a = sh("git -C %s apply %s/patch.diff" % (R, d))
    if a.returncode:
        print(i, "DOES NOT APPLY", a.stderr); sys.exit(1)
    b = sh("/opt/venv/bin/python setup.py -q build_ext -i", cwd=R, env=env)
    if b.returncode:
        print(i, "DOES NOT BUILD", b.stderr[-800:]); sys.exit(1)
    demo0 = sh("bash %s/demo.sh" % d, cwd="/repo", env=dict(env, PYTHONPATH="/repo"))
    demo1 = sh("bash %s/demo.sh" % d, cwd=R, env=env)
    t = None
    if "--notest" not in sys.argv:
        t = sh("/opt/venv/bin/python -m pytest -q -x -p no:cacheprovider --timeout=120 skbeam 2>&1 | tail -4", cwd=R, env=env)
    out = []
    for p in [meta["property"]] + [x for x in sys.argv[2:] if x.startswith("P")]:
        for s in ("1", "2"):
            c = sh("/opt/venv/bin/python -m rt.main %s quick" % p, cwd=V, env=dict(os.environ, VERIF_REPO=R, VERIF_SEED=s))
            viol = [l for l in c.stdout.splitlines() if "[" in l and "case" in l]
            out.append("%s/%s:%d %s" % (p, s, c.returncode, (viol[0][:150] if viol else c.stdout[-150:] if c.returncode else "")))
    print(i, "demo", demo0.returncode, demo1.returncode, "| tests", t.stdout.strip().splitlines()[-1] if t else "-", "|", "\n    ".join(out))
    if demo0.returncode: print(demo0.stdout[-500:], demo0.stderr[-800:])
finally:
    shutil.rmtree(w)
