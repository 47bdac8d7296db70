#!/usr/bin/env python3
"""Confirm and store planted bugs: plant.py FILE.py [ID...]
FILE defines BUGS, a list of dicts id, property, needs, breaks, edits
[(file, old, new)...], demo (C++ source) and optional demo_flags / demo_sh.
Works on scratch copies, never on /repo itself."""
import json, os, shutil, subprocess, sys, tempfile
SEEDED = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "seeded")
BASE = subprocess.check_output(["git", "-C", "/repo", "rev-list", "--max-parents=0", "HEAD"], text=True).split()[-1]
PRE = """#include <cstdio>
#include <cmath>
#include <cstdlib>
#define EXPECT(x) do { if( !( x )) { printf( "wrong: %s (line %d)\\n", #x, __LINE__ ); return 1; } } while( 0 )
"""
SH = """#!/bin/bash
# exit 0 if the library behaves, 1 if not; run with cwd /repo after build.sh
d=$(cd "$(dirname "$0")" && pwd)
w=$(mktemp -d) || exit 2
trap 'rm -rf "$w"' EXIT
g++ %s -w -include cstdint -I. "$d/demo.cpp" -o "$w/demo" || exit 3
cd "$w" && timeout 120 ./demo
"""
def run(*a, **k):
    return subprocess.run(a, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)
def main():
    ns = {}
    exec(open(sys.argv[1]).read(), ns)
    only = sys.argv[2:]
    for b in ns["BUGS"]:
        if only and b["id"] not in only:
            continue
        t = tempfile.mkdtemp(prefix="plant")
        r = t + "/repo"
        try:
            run("git", "clone", "-q", "/repo", r)
            shutil.copy("/repo/vmmlib/version.hpp", r + "/vmmlib/version.hpp")
            bad = None
            for f, old, new in b["edits"]:
                s = open(r + "/" + f).read()
                if s.count(old) != 1:
                    bad = "%d matches in %s: %r" % (s.count(old), f, old[:60])
                    break
                open(r + "/" + f, "w").write(s.replace(old, new))
            if bad:
                print(b["id"], "EDIT", bad); continue
            if any("version.in" in e[0] for e in b["edits"]):
                import re
                old = open("/repo/vmmlib/version.hpp").read()
                new = open(r + "/vmmlib/version.in.hpp").read()
                for n in ("MAJOR", "MINOR", "PATCH"):
                    new = new.replace("@VERSION_%s@" % n, re.search("VERSION_%s +(\\d+)" % n, old).group(1))
                open(r + "/vmmlib/version.hpp", "w").write(new)
            d = run("git", "-C", r, "diff").stdout
            # lines removed must be original
            mine = []
            for f in {e[0] for e in b["edits"]}:
                bl = run("git", "-C", r, "blame", "-l", "HEAD", "--", f).stdout.splitlines()
                u = run("git", "-C", r, "diff", "-U0", "--", f).stdout
                for h in [l for l in u.splitlines() if l.startswith("@@")]:
                    a = h.split()[1][1:].split(",")
                    n = int(a[1]) if len(a) > 1 else 1
                    for i in range(int(a[0]), int(a[0]) + n):
                        if not bl[i - 1].lstrip("^").startswith(BASE[:39]):
                            mine.append((f, i))
            if mine:
                print(b["id"], "CHANGES FIXED LINES", mine); continue
            out = t + "/s"; os.makedirs(out)
            open(out + "/patch.diff", "w").write(d)
            if "demo" in b:
                open(out + "/demo.cpp", "w").write(PRE + b["demo"].lstrip("\n"))
            open(out + "/demo.sh", "w").write(b.get("demo_sh") or SH % b.get("demo_flags", "-std=c++11"))
            for n, s in b.get("files", {}).items():
                open(out + "/" + n, "w").write(s)
            os.chmod(out + "/demo.sh", 0o755)
            json.dump({"property": b["property"], "needs": b["needs"], "what_it_breaks": b["breaks"]},
                      open(out + "/meta.json", "w"), indent=1)
            p = run("bash", out + "/demo.sh", cwd=r)
            c = run("bash", out + "/demo.sh", cwd="/repo")
            if c.returncode or not p.returncode or p.returncode == 3:
                print(b["id"], "DEMO clean=%d patched=%d" % (c.returncode, p.returncode), c.stdout[-600:], p.stdout[-1500:]); continue
            n = t + "/ns"
            run("cp", "-a", "/repo", n)
            run("git", "-C", n, "checkout", "-q", "--", ".")
            a = run("git", "-C", n, "apply", out + "/patch.diff")
            if a.returncode:
                print(b["id"], "APPLY", a.stdout); continue
            # /repo is the copy, for this one command only
            te = run("unshare", "-Urm", "sh", "-c", "mount --bind %s /repo && bash /opt/vp/test.sh %s/o.json" % (n, t))
            o = json.load(open(t + "/o.json"))
            base = json.load(open("/opt/vp/BASELINE.json"))
            miss = sorted(set(base["stable"]) - set(o["passed"]))
            if miss:
                print(b["id"], "TESTS", miss[:5], te.stdout[-300:] if not o["passed"] else ""); continue
            dst = os.path.join(SEEDED, b["id"])
            shutil.rmtree(dst, ignore_errors=True)
            shutil.copytree(out, dst)
            print(b["id"], "ok  demo:", p.stdout.strip().splitlines()[-1:] )
        finally:
            shutil.rmtree(t)
main()
