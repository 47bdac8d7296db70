"""C27: enumerates build configurations; in each, every operation of the
catalogue is run on every operand set and compared with the reference
configuration, and every public header is compiled alone."""
import concurrent.futures
import itertools
import os
import re
import subprocess
import time

OPS = ["vec", "mat", "geo", "edge"]
SWITCHES = {
    "default": [],
    "noconv": ["-DVMMLIB_NO_CONVERSION_OPERATORS"],
    "notypedefs": ["-DVMMLIB_NO_TYPEDEFS"],
    "noconv+notypedefs": ["-DVMMLIB_NO_CONVERSION_OPERATORS",
                          "-DVMMLIB_NO_TYPEDEFS"],
    "oldtypedefs": ["-DVMMLIB_OLD_TYPEDEFS"],
    "custom": ["-DVMMLIB_CUSTOM_CONFIG"],
    "custom+throw": ["-DVMMLIB_CUSTOM_CONFIG", "-DVMMLIB_THROW_EXCEPTIONS"],
    "custom+safe+throw": ["-DVMMLIB_CUSTOM_CONFIG", "-DVMMLIB_SAFE_ACCESSORS",
                          "-DVMMLIB_THROW_EXCEPTIONS"],
}
# compiler, standard, optimisation, NDEBUG, switches; the first is the reference
QUICK = [
    ("g++", "11", "-O0", False, "default"),
    ("g++", "11", "-O3", True, "default"),
    ("g++", "14", "-O2", True, "noconv"),
    ("g++", "17", "-O1", False, "notypedefs"),
    ("clang++", "11", "-O0", True, "noconv"),
    ("clang++", "14", "-O1", False, "default"),
    ("clang++", "17", "-O2", True, "notypedefs"),
    ("clang++", "17", "-O3", False, "noconv+notypedefs"),
    ("g++", "gnu14", "-Os", True, "oldtypedefs"),
    ("clang++", "gnu17", "-Os", False, "oldtypedefs"),
    ("g++", "gnu11", "-Og", False, "oldtypedefs"),
    ("g++", "17", "-O2", False, "custom"),
    ("g++", "14", "-O0", True, "custom+throw"),
    ("clang++", "11", "-O1", True, "custom+safe+throw"),
]
EXACT_SETS = ("integers", "dyadic", "zeros")
TRANSCENDENTAL, ERRORS, CHECKED = 2, 4, 8


def skipped(c):
    """Flags of the operations left out: without exceptions errors end the
    process, without safe accessors accesses are not checked."""
    r = ERRORS if c[4] == "custom" else 0
    if not (c[4] == "custom+safe+throw" or
            not c[3] and not c[4].startswith("custom")):
        r |= CHECKED
    return r


# headers of an optional boost component that is not part of the library
OPTIONAL = ("matrix_traits.hpp", "vector_traits.hpp")


def thorough():
    r = [QUICK[0]]
    for c in QUICK + list(itertools.product(
            ("g++", "clang++"), ("11", "14", "17"),
            ("-O0", "-O1", "-O2", "-O3", "-Os"), (False, True),
            sorted(SWITCHES))):
        if c not in r:
            r.append(c)
    return r


def name(c):
    return "%s-%s%s%s-%s" % (c[0], dialect(c), c[2],
                                "-NDEBUG" if c[3] else "", c[4])


def dialect(c):
    return "gnu++" + c[1][3:] if c[1].startswith("gnu") else "c++" + c[1]


def flags(c):
    return (["-std=" + dialect(c), "-w"] + (["-DNDEBUG"] if c[3] else []) +
            SWITCHES[c[4]])


def command(cmd, build):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                       text=True, errors="replace",
                       env=dict(os.environ, LC_ALL="C", TMPDIR=build))
    return r.returncode, r.stdout


def exact(x):
    y = x * 4096.0
    return abs(x) < 2.0**20 and y == int(y)


def differ(opflags, setname, typ, ref, got):
    """None, or what differs between two result lines."""
    a, b = ref.split(), got.split()
    if len(a) != len(b):
        return "%d values instead of %d" % (len(b), len(a))
    va = [float(x) for x in a]
    vb = [float(x) for x in b]
    eps = 2.0**-23 if typ == "float" else 2.0**-52
    finite = [abs(x) for x in va if x == x and abs(x) != float("inf")]
    scale = max([1.0] + finite)
    for i, (x, y) in enumerate(zip(va, vb)):
        if a[i] == b[i] or (x != x and y != y):
            continue
        must = (setname in EXACT_SETS and not opflags & TRANSCENDENTAL and
                x == x and abs(x) != float("inf") and exact(x))
        if must or not abs(x - y) <= 64 * eps * scale:
            return "value %d is %s instead of %s" % (i, b[i], a[i])
    return None


def run(runmod, prop, tier, build, report, only):
    verif, repo = runmod.VERIF, runmod.REPO
    inc = os.path.join(build, "inc", "vmmlib")
    os.makedirs(inc)
    # version.hpp is generated by the build
    t = open(os.path.join(repo, "vmmlib", "version.in.hpp")).read()
    with open(os.path.join(inc, "version.hpp"), "w") as f:
        f.write(re.sub(r"@VERSION_\w+@", "1", t))
    configs = QUICK if tier == "quick" else thorough()
    # the generated version.hpp in the tree may be missing or stale
    headers = sorted(h for h in os.listdir(os.path.join(repo, "vmmlib"))
                     if h.endswith(".hpp") and h != "version.in.hpp" and
                     h not in OPTIONAL)
    if "version.hpp" not in headers:
        headers.append("version.hpp")
    for h in headers:
        with open(os.path.join(build, "alone_" + h + ".cpp"), "w") as f:
            f.write("#include <vmmlib/%s>\n#include <vmmlib/%s>\n"
                    "int main() { return 0; }\n" % (h, h))
    recs = []
    t0 = time.time()
    ex = concurrent.futures.ThreadPoolExecutor(8)

    def compile_one(c, src, obj, lang_only=False):
        cmd = [c[0]] + flags(c) + [c[2], "-I", repo, "-I", verif,
                                   "-I", os.path.join(build, "inc")]
        cmd += ["-fsyntax-only", src] if lang_only else \
            ["-include", "cstdint", "-c", src, "-o", obj]
        return command(cmd, build)

    def results(c, objs):
        exe = os.path.join(build, name(c))
        rc, out = command([c[0]] + objs + ["-o", exe], build)
        if rc:
            return "link", out
        skip = skipped(c)
        try:
            r = subprocess.run([exe, str(skip)], stdout=subprocess.PIPE,
                               stderr=subprocess.PIPE, text=True,
                               errors="replace", timeout=120)
        except subprocess.TimeoutExpired:
            return "run", "no result within 120 s"
        finally:
            for o in objs + [exe]:
                os.remove(o)
        if r.returncode or not r.stdout.endswith("end\n"):
            last = r.stdout.strip().splitlines()[-1:]
            return "run", "ended with %d after %s %s" % (
                r.returncode, last, r.stderr[-500:])
        return "ok", r.stdout.splitlines()[:-1]

    def parse(lines):
        d = {}
        for l in lines:
            typ, op, st, fl, vals = l.split("|", 4)
            d[(typ, op, st)] = (int(fl), vals)
        return d

    ref = None
    bad = 0
    for start in range(0, len(configs), 24):
        batch = configs[start:start + 24]
        jobs = []
        for c in batch:
            js = []
            for s in OPS + ["dump"]:
                src = os.path.join(verif, "harness/c27_dump.cpp") if \
                    s == "dump" else os.path.join(verif, "ops", s + ".cpp")
                obj = os.path.join(build, "%s_%s.o" % (name(c), s))
                js.append((s, obj, ex.submit(compile_one, c, src, obj)))
            alone = [(h, ex.submit(compile_one, c, os.path.join(
                build, "alone_" + h + ".cpp"), None, True)) for h in headers]
            jobs.append((c, js, alone))
        runs = []
        for c, js, alone in jobs:
            failed = None
            for s, obj, f in js:
                rc, out = f.result()
                if rc and not failed:
                    failed = (s, out)
            for h, f in alone:
                rc, out = f.result()
                if rc:
                    bad += 1
                    if bad <= 5:
                        report.violation("alone-%s-%s" % (h, name(c)), dict(
                            config=name(c), message="<vmmlib/%s> does not "
                            "compile alone in configuration %s: %s" %
                            (h, name(c), "; ".join(
                                [l for l in out.splitlines()
                                 if "error" in l][:3])), stderr=out[-3000:]))
            if failed:
                errs = [l for l in failed[1].splitlines() if "error" in l][:4]
                bad += 1
                if bad <= 5:
                    report.violation("compile-" + name(c), dict(
                        config=name(c), message="public operations (%s) "
                        "cannot be instantiated in configuration %s: %s" %
                        (failed[0], name(c), "; ".join(errs)),
                        stderr=failed[1][-4000:]))
                continue
            runs.append((c, ex.submit(results, c, [o for _, o, _ in js])))
        for c, f in runs:
            kind, out = f.result()
            if kind != "ok":
                bad += 1
                report.violation("%s-%s" % (kind, name(c)), dict(
                    config=name(c), message="configuration %s: %s" %
                    (name(c), str(out)[-800:])))
                continue
            got = parse(out)
            if ref is None:
                ref = got
                if c != configs[0]:
                    continue
            n = 0
            for k, (fl, vals) in ref.items():
                if k not in got:
                    if fl & skipped(c):
                        continue
                    w = "has no result"
                else:
                    if got[k][1] == vals:
                        continue
                    w = differ(fl, k[2], k[0], vals, got[k][1])
                if w:
                    n += 1
                    bad += 1
                    if n <= 3 and bad <= 12:
                        report.violation(re.sub(r"\W+", "_", "differs-%s-%s-%s" % (
                            name(c), k[0], k[1])), dict(
                                config=name(c), reference=name(configs[0]),
                                operation=list(k), message="%s '%s' on %s "
                                "operands: %s (configuration %s, reference "
                                "%s)" % (k + (w, name(c), name(configs[0])))))
            recs.append(dict(
                unit="ops", scenario=name(c),
                about="all catalogue operations on all operand sets",
                states=len(got), transitions=len(got) + len(headers),
                complete=len(got), pruned=0, checks=len(got) + len(headers),
                outcomes=len(set(v[1] for v in got.values())),
                capped=False, table_full=False,
                wall_s=round(time.time() - t0, 2),
                samples=[dict(history=["%s '%s' on %s" % k, v[1][:200]])
                         for k, v in list(got.items())[7:8]]))
    ex.shutdown()
    return recs, dict(configurations=len(configs), headers_alone=headers)
