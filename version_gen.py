"""Generates versions.inc for C28 from the tree's version.in.hpp."""
import itertools
import os
import re
import subprocess

PRE = [0, 1, 2, 3, 7, 8, 9, 10]


def prepare(unit, build):
    import run
    repo = run.REPO
    d = os.path.join(build, "versions")
    if os.path.isdir(d):
        return
    os.makedirs(d)
    tmpl = os.path.join(repo, "vmmlib", "version.in.hpp")
    cm = open(os.path.join(repo, "CMakeLists.txt")).read()
    own = tuple(int(re.search(r"set\s*\(\s*VERSION_%s\s+(\d+)" % k, cm).group(1))
                for k in ("MAJOR", "MINOR", "PATCH"))
    vers = [own] + [v for v in itertools.product((0, 1, 2), repeat=3)
                    if v != own]
    # the tree's own configure_file call, with its own arguments
    call = re.search(r"configure_file\s*\(\s*\S*version\.in\.hpp\s+\S+([^)]*)\)",
                     cm).group(1)
    script = ""
    for i, v in enumerate(vers):
        for k, x in zip(("MAJOR", "MINOR", "PATCH"), v):
            script += "set(VERSION_%s %d)\n" % (k, x)
        script += "configure_file(%s %s/v%d.hpp %s)\n" % (tmpl, d, i, call)
    with open(os.path.join(d, "gen.cmake"), "w") as f:
        f.write(script)
    r = subprocess.run(["cmake", "-P", os.path.join(d, "gen.cmake")],
                       stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                       text=True)
    if r.returncode:
        raise run.CheckError("configure_file failed: " + r.stderr)
    out = ["static const int PRE_N = %d;" % len(PRE),
           "static const int PRE_VALUES[] = { %s };" % ", ".join(map(str, PRE))]
    names = ["MAJOR", "MINOR", "PATCH"]
    ops = ["GT", "GE", "LT", "LE"]
    for i, v in enumerate(vers):
        # a fresh translation of the header for each version
        out.append("#undef VMMLIB_VERSION_H")
        out += ["#undef VMMLIB_VERSION_%s" % n for n in names + ops]
        out.append('#include "v%d.hpp"' % i)
        out.append("static int macro_%d(int i) { return i == 0 ? "
                   "VMMLIB_VERSION_MAJOR : i == 1 ? VMMLIB_VERSION_MINOR : "
                   "VMMLIB_VERSION_PATCH; }" % i)
        out.append("static unsigned cmp_%d(int a, int b, int c) { return "
                   % i + " | ".join("(VMMLIB_VERSION_%s(a, b, c) ? %du : 0u)"
                                    % (o, 1 << k) for k, o in enumerate(ops))
                   + "; }")
        out.append("static const unsigned char pre_%d[] = {" % i)
        for t in itertools.product(PRE, repeat=3):
            for k, o in enumerate(ops):
                out += ["#if VMMLIB_VERSION_%s(%d, %d, %d)" % ((o,) + t),
                        "%d +" % (1 << k), "#endif"]
            out.append("0,")
        out.append("};")
    out.append("static const Version VERSIONS[] = {")
    for i, v in enumerate(vers):
        out.append("{ { %d, %d, %d }, macro_%d, cmp_%d, pre_%d }," %
                   (v + (i, i, i)))
    out.append("};")
    out.append("static const int NVERSIONS = %d;" % len(vers))
    with open(os.path.join(d, "versions.inc"), "w") as f:
        f.write("\n".join(out) + "\n")
    unit["flags"] = list(unit["flags"]) + ["-I", d]
