#!/usr/bin/env python3
"""mkseed.py <definition.py>: makes seeded/<id>/ from a definition that sets ID, PROPERTY, NEEDS, BREAKS, EDITS [(file, old, new)], DEMO."""
import json, os, shutil, subprocess, sys, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
HEAD = '''import os, sys
H = os.path.dirname(os.path.abspath(__file__))
os.environ["LFV_REPO"] = os.getcwd()
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.join(H, "kit", "lib"))
from kit import *

'''


def main(f, upd=False):
    g = {}
    exec(open(f).read(), g)
    d = os.path.join(V, "seeded", g["ID"])
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    t = tempfile.mkdtemp(prefix="mkseed-")
    diff = ""
    for k, fn in enumerate(sorted({e[0] for e in g["EDITS"]})):
        src = subprocess.run(["git", "-C", "/repo", "show", "HEAD:" + fn], capture_output=True, text=True, check=True).stdout
        new = src
        for e in g["EDITS"]:
            if e[0] == fn:
                assert new.count(e[1]) == 1, "%s: %d occurrences of %r" % (fn, new.count(e[1]), e[1])
                new = new.replace(e[1], e[2])
        for s, c in (("a", src), ("b", new)):
            p = os.path.join(t, s, fn)
            os.makedirs(os.path.dirname(p), exist_ok=True)
            open(p, "w").write(c)
        r = subprocess.run(["diff", "-u", "a/" + fn, "b/" + fn], cwd=t, capture_output=True, text=True)
        diff += "diff --git a/%s b/%s\n" % (fn, fn) + "".join(
            ("--- a/%s\n" % fn if l.startswith("--- ") else "+++ b/%s\n" % fn if l.startswith("+++ ") else l)
            for l in r.stdout.splitlines(True))
    shutil.rmtree(t)
    open(d + "/patch.diff", "w").write(diff)
    json.dump(dict(property=g["PROPERTY"], needs=g["NEEDS"], what_it_breaks=g["BREAKS"]), open(d + "/meta.json", "w"), indent=1)
    open(d + "/demo.sh", "w").write('#!/bin/bash\nexec python3 "$(dirname "$0")/demo.py"\n')
    os.chmod(d + "/demo.sh", 0o755)
    open(d + "/demo.py", "w").write(HEAD + g["DEMO"].strip() + "\n")
    os.makedirs(d + "/kit/lib")
    for n in ("build", "run", "prog", "gen", "fed", "fedprog"):
        shutil.copy(os.path.join(V, "lib", n + ".py"), d + "/kit/lib")
    shutil.copy(os.path.join(V, "tools", "seedkit", "kit.py"), d + "/kit/lib")
    shutil.copytree(os.path.join(V, "sim"), d + "/kit/sim")
    return g["ID"], g["PROPERTY"]


if __name__ == "__main__":
    for f in sys.argv[1:]:
        print(*main(f))
