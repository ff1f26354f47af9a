"""developer tool: mut(prop, file, old, new) -> runs one check on a scratch copy with the edit and prints the verdict"""
import os, shutil, subprocess, sys, tempfile
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
def mut(props, file, old, new, expect=1, n=1, show=1):
    w = tempfile.mkdtemp(prefix="mut_")
    try:
        shutil.copytree(os.environ.get("SRC", "/repo") + "/causy", w + "/causy", ignore=shutil.ignore_patterns("__pycache__", "static"))
        if file:
            p = os.path.join(w, file); s = open(p).read()
            assert s.count(old) >= 1 and (n is None or s.count(old) == n), (file, s.count(old), old)
            open(p, "w").write(s.replace(old, new))
        for prop in props.split():
            r = subprocess.run([sys.executable, ROOT + "/check.py", prop, "quick"], env=dict(os.environ, SA_REPO=w, SA_EVIDENCE=w + "/ev"), capture_output=True, text=True)
            lines = [l for l in r.stdout.splitlines() if "violated:" in l or "UNDECIDED" in l]
            print(("ok " if r.returncode == expect else "MISS") , prop, r.returncode, repr(new[:70]), r.stderr[-300:])
            for l in lines[:show]: print("      ", l[:260])
    finally:
        shutil.rmtree(w)
