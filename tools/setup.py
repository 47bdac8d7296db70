#!/usr/bin/env python3
"""setup_cmd: nothing is prebuilt (every check compiles its harness from the
current /repo); verify that the toolchain and the explorer work."""
import os
import shutil
import subprocess
import sys
import tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
d = tempfile.mkdtemp()
try:
    src = os.path.join(d, "t.cpp")
    with open(src, "w") as f:
        f.write('#include "mc/mc.hpp"\n'
                'SCENARIO(t, "self test"){ int a = c.choose(7), b = c.choose(9);'
                ' c.state(a * 16 + b); c.step(); CHK(c, a + b < 99, "x"); }\n'
                'MC_MAIN()\n')
    exe = os.path.join(d, "t")
    subprocess.check_call(["g++", "-std=c++11", "-O1", "-I", V, src, "-o", exe])
    out = os.path.join(d, "o")
    rc = subprocess.call([exe, "--out", out])
    import json
    rec = json.loads(open(out).readline())
    assert rc == 0 and rec["complete"] == 63 and rec["states"] == 63, rec
    print("explorer self test: 63 executions, 63 states")
finally:
    shutil.rmtree(d)
