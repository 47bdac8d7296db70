#!/usr/bin/env python3
"""hunt.py [ID...] [--tier T]: run each planted bug's check on a patched copy
of /repo and say whether it was caught."""
import json, os, shutil, subprocess, sys, tempfile, time
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
S = os.path.join(V, "seeded")
args = sys.argv[1:]
tier = "quick"
if "--tier" in args:
    i = args.index("--tier"); tier = args[i + 1]; del args[i:i + 2]
ids = args or sorted(os.listdir(S))
for i in ids:
    t = tempfile.mkdtemp(prefix="hunt")
    try:
        subprocess.check_call(["git", "clone", "-q", "/repo", t + "/repo"])
        shutil.copy("/repo/vmmlib/version.hpp", t + "/repo/vmmlib/version.hpp")
        subprocess.check_call(["git", "-C", t + "/repo", "apply", S + "/" + i + "/patch.diff"])
        p = json.load(open(S + "/" + i + "/meta.json"))["property"]
        t0 = time.time()
        r = subprocess.run([sys.executable, V + "/run.py", p, "--tier", tier],
                           env=dict(os.environ, VERIF_REPO=t + "/repo", VERIF_SEED="1", VERIF_TIER=tier),
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
        hit = r.returncode == 1 and ("VIOLATION property=%s " % p) in r.stdout
        print("%-34s %s %s rc=%d %.0fs" % (i, p, "caught" if hit else "MISSED", r.returncode, time.time() - t0))
        if not hit:
            print(r.stdout[-1500:])
        else:
            l = r.stdout[r.stdout.index("VIOLATION"):].splitlines()
            print("      ", l[1][:150] if len(l) > 1 else "")
        sys.stdout.flush()
    finally:
        shutil.rmtree(t)
