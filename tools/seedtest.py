#!/usr/bin/env python3
"""seedtest.py <id>...: for each planted bug, in a scratch copy of /repo: does the demo tell, do the tests pass (--tests), does the check tell?"""
import json, os, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
opts = [a for a in sys.argv[1:] if a.startswith("-")]
ids = [a for a in sys.argv[1:] if not a.startswith("-")] or sorted(os.listdir(os.path.join(V, "seeded")))
REPO = "/repo"


def copy():
    d = tempfile.mkdtemp(prefix="seedrepo-")
    subprocess.run("git -C /repo archive HEAD | tar -x -C %s" % d, shell=True, check=True)
    return d


base = copy()
for i in ids:
    s = os.path.join(V, "seeded", i)
    d = copy()
    try:
        r = subprocess.run(["git", "apply", "--unsafe-paths", "--directory=" + d, s + "/patch.diff"], capture_output=True, text=True, cwd="/")
        if r.returncode:
            r = subprocess.run(["patch", "-p1", "-d", d, "-i", s + "/patch.diff"], capture_output=True, text=True)
        assert r.returncode == 0, r.stdout + r.stderr
        prop = json.load(open(s + "/meta.json"))["property"]
        with ThreadPoolExecutor(2) as ex:
            a, b = list(ex.map(lambda w: subprocess.run([s + "/demo.sh"], cwd=w, capture_output=True, text=True), (base, d)))
        out = "%s %s: demo %s/%s" % (i, prop, a.returncode, b.returncode)
        if a.returncode:
            out += "\n" + a.stdout + a.stderr
        if b.returncode:
            out += "  (%s)" % (b.stdout + b.stderr).strip()[-200:].replace("\n", " ")
        if "--demo" not in opts:
            r = subprocess.run([sys.executable, V + "/check.py", prop], env=dict(os.environ, LFV_REPO=d), capture_output=True, text=True, cwd=V)
            caught = r.returncode == 1 and "VIOLATION property=" + prop in r.stdout
            out += "\n    %s rc=%d %s" % ("CAUGHT" if caught else "MISSED", r.returncode, (r.stdout + r.stderr[-1500:]).strip()[:700])
        print(out, flush=True)
    finally:
        shutil.rmtree(d, ignore_errors=True)
shutil.rmtree(base, ignore_errors=True)
