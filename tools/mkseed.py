#!/usr/bin/env python3
"""mkseed.py id property file <<< 'OLD\n=====\nNEW\n=====NEEDS\n...\n=====BREAKS\n...\n=====DEMO\n python demo' : author a planted bug (developer tool)"""
import sys, os, json, subprocess, shutil, re
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
def make(sid, prop, edits, needs, breaks, demo, extra=None):
    """edits: list of (file, old, new)"""
    w = "/tmp/mk_%s" % sid
    shutil.rmtree(w, ignore_errors=True)
    subprocess.run(["git", "clone", "-q", "/repo", w], check=True)
    for f, old, new in edits:
        p = os.path.join(w, f)
        s = open(p).read()
        assert s.count(old) == 1, (sid, f, s.count(old), old)
        open(p, "w").write(s.replace(old, new))
    d = os.path.join(ROOT, "seeded", sid)
    os.makedirs(d, exist_ok=True)
    diff = subprocess.run(["git", "diff"], cwd=w, capture_output=True, text=True, check=True).stdout
    open(d + "/patch.diff", "w").write(diff)
    json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(d + "/meta.json", "w"), indent=1)
    open(d + "/demo.py", "w").write(demo.lstrip("\n"))
    open(d + "/demo.sh", "w").write('#!/bin/bash\nexport PYTHONDONTWRITEBYTECODE=1 OMP_NUM_THREADS=1 PYTHONPATH="$PWD"\nexec timeout 250 /opt/venv/bin/python "$(dirname "$0")/demo.py"\n')
    for n, t in (extra or {}).items():
        open(os.path.join(d, n), "w").write(t)
    shutil.rmtree(w)
