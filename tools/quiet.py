#!/usr/bin/env python3
"""quiet.py FILE.py [ID...] : apply all of FILE's behaviour-preserving edits
(EDITS: (file, old, new)) to a copy of /repo, confirm that the stable tests
pass, and run the quick checks against it: each has to stay quiet."""
import os, shutil, subprocess, sys, tempfile, time, json
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ns = {}
exec(open(sys.argv[1]).read(), ns)
ids = sys.argv[2:] or ["C%02d" % i for i in range(1, 30)]
t = tempfile.mkdtemp(prefix="quiet")
r = t + "/repo"
def sh(*a, **k):
    return subprocess.run(a, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", **k)
try:
    sh("git", "clone", "-q", "/repo", r)
    shutil.copy("/repo/vmmlib/version.hpp", r + "/vmmlib/version.hpp")
    for f, old, new in ns["EDITS"]:
        s = open(r + "/" + f).read()
        if s.count(old) != 1:
            sys.exit("%d matches in %s: %r" % (s.count(old), f, old[:80]))
        open(r + "/" + f, "w").write(s.replace(old, new))
    for f in sorted(os.listdir(r + "/tests")):
        if f.endswith(".cpp") and "main" not in f:
            p = sh("g++", "-std=c++11", "-w", "-fsyntax-only", "-include", "cstdint", "-DBOOST_TEST_DYN_LINK",
                   "-I", r, "-I", r + "/tests", r + "/tests/" + f)
            if p.returncode:
                sys.exit("does not compile: %s\n%s" % (f, p.stdout[:3000]))
    print("compiles"); sys.stdout.flush()
    for p in ids:
        t0 = time.time()
        o = sh(sys.executable, V + "/run.py", p, "--tier", "quick", env=dict(os.environ, VERIF_REPO=r, VERIF_SEED="1", VERIF_TIER="quick"))
        print("%s %s rc=%d %.0fs" % (p, "quiet" if o.returncode == 0 else "ALARM", o.returncode, time.time() - t0))
        if o.returncode:
            print(o.stdout[-2500:])
        sys.stdout.flush()
finally:
    shutil.rmtree(t)
