"""bug(...): write seeded/<id>/ from a list of edits (used while planting; needs a clone of /repo in /tmp/mkwt)."""
import json, os, subprocess, sys, textwrap
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
W = "/tmp/mkwt"


def bug(i, prop, needs, breaks, edits, demo):
    subprocess.run("git -C %s fetch -q && git -C %s reset -q --hard origin/HEAD" % (W, W), shell=True, check=True)
    for f, old, new in edits:
        p = os.path.join(W, f)
        s = open(p).read()
        assert s.count(old) == 1, (i, f, s.count(old), old)
        open(p, "w").write(s.replace(old, new))
    d = os.path.join(V, "seeded", i)
    os.makedirs(d, exist_ok=True)
    diff = subprocess.run(["git", "-C", W, "diff"], capture_output=True, text=True).stdout
    open(d + "/patch.diff", "w").write(diff)
    open(d + "/demo.py", "w").write(textwrap.dedent(demo).lstrip())
    open(d + "/demo.sh", "w").write('#!/bin/bash\nPYTHONPATH="$PWD" PYTHONDONTWRITEBYTECODE=1 exec /opt/venv/bin/python "$(dirname "$0")/demo.py"\n')
    json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(d + "/meta.json", "w"), indent=1)
    subprocess.run("git -C %s checkout -q -- ." % W, shell=True)
