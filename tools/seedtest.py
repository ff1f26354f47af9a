#!/usr/bin/env python3
"""usage: seedtest.py [--notests] [--check] id...   verifies planted bugs in scratch copies of /repo (developer tool, not a check)"""
import json, os, subprocess, sys, shutil, concurrent.futures as cf
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
base = json.load(open("/opt/vp/BASELINE.json"))
stable = base.get("stable") or base.get("passed") or base.get("tests") or base
def sh(cmd, cwd, env=None, timeout=900):
    e = dict(os.environ); e.update(env or {})
    return subprocess.run(cmd, shell=True, cwd=cwd, env=e, capture_output=True, text=True, timeout=timeout)
def one(sid):
    d = os.path.join(ROOT, "seeded", sid)
    meta = json.load(open(d + "/meta.json"))
    w = "/tmp/seed_%s" % sid
    shutil.rmtree(w, ignore_errors=True)
    sh("git -C /repo worktree prune; cp -a /repo %s" % w, "/")
    demo = "/tmp/demo_%s" % sid
    shutil.rmtree(demo, ignore_errors=True)
    shutil.copytree(d, demo, ignore=shutil.ignore_patterns("*.diff", "*.patch", "meta.json"))
    out = [sid]
    try:
        r = sh("bash %s/demo.sh" % demo, w, timeout=300)
        out.append("demo-clean=%d" % r.returncode)
        if r.returncode: out.append((r.stdout + r.stderr)[-400:])
        r = sh("git apply %s/patch.diff" % d, w)
        if r.returncode:
            out.append("PATCH FAILS " + r.stderr); return out
        r = sh("bash %s/demo.sh" % demo, w, timeout=300)
        out.append("demo-bug=%d" % r.returncode)
        if "-v" in sys.argv: out.append((r.stdout + r.stderr)[-600:])
        if "--notests" not in sys.argv:
            sh("sed 's#cd /repo#cd %s#' /opt/vp/test.sh > %s/../t_%s.sh; bash /tmp/t_%s.sh /tmp/o_%s.json > /tmp/t_%s.log 2>&1" % (w, w, sid, sid, sid, sid), w)
            res = open("/tmp/t_%s.log" % sid).read()
            o = json.load(open("/tmp/o_%s.json" % sid))
            bad = o.get("failed", [])
            out.append("failed=%d %s" % (len(bad), str(bad)[:300]))
            for f in ("t_%s.sh", "o_%s.json", "t_%s.log"): os.remove("/tmp/" + f % sid)
        r = sh("python3 check.py %s quick" % meta["property"], ROOT, {"SA_REPO": w, "SA_EVIDENCE": "/tmp/ev_" + sid})
        out.append("check(%s)=%d" % (meta["property"], r.returncode))
        if r.returncode != 1 or "-v" in sys.argv: out.append(r.stdout[-500:])
        shutil.rmtree("/tmp/ev_" + sid, ignore_errors=True)
    finally:
        shutil.rmtree(w, ignore_errors=True); shutil.rmtree(demo, ignore_errors=True)
    return out
ids = [a for a in sys.argv[1:] if not a.startswith("-")] or sorted(os.listdir(ROOT + "/seeded"))
with cf.ThreadPoolExecutor(4) as ex:
    for o in ex.map(one, ids):
        print(" ".join(str(x) for x in o), flush=True)
