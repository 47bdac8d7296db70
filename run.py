#!/usr/bin/env python3
"""run.py <PROPERTY> [--tier quick|thorough] [--only SCENARIO] [--keep]
   run.py replay <replay-file>

Builds the harnesses of one property from /repo's current headers, runs the
exhaustive exploration, writes evidence/<PROPERTY>.json and reports.
Exit 0: held on everything explored.  Exit 1: VIOLATION line(s).  Exit 2: the
check itself could not run.
"""
import concurrent.futures
import json
import os
import shutil
import subprocess
import sys
import tempfile
import time

VERIF = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, VERIF)
sys.dont_write_bytecode = True
import checks  # noqa: E402

REPO = os.environ.get("VERIF_REPO", "/repo")
BASE = ["-std=c++11", "-include", "cstdint", "-w", "-I", REPO, "-I", VERIF]


class CheckError(Exception):
    pass


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                          text=True, errors="replace", **kw)


def unit_cmd(unit, out):
    cxx = unit.get("cxx", "g++")
    flags = list(unit.get("base", BASE)) + list(unit.get("flags", checks.PLAIN))
    srcs = unit["src"] if isinstance(unit["src"], list) else [unit["src"]]
    return ([cxx] + flags +
            [s if os.path.isabs(s) else os.path.join(VERIF, "harness", s)
             for s in srcs] +
            ["-o", out] + unit.get("ldflags", []))


def compile_unit(unit, out):
    """Compiles and links one unit; a unit with a list of sources compiles
    them side by side."""
    t0 = time.time()
    env = dict(os.environ, LC_ALL="C", TMPDIR=os.path.dirname(out))
    if not isinstance(unit["src"], list):
        r = sh(unit_cmd(unit, out), env=env)
        return r.returncode, r.stderr, time.time() - t0
    procs, objs = [], []
    for i, src in enumerate(unit["src"]):
        o = "%s.%d.o" % (out, i)
        u = dict(unit, src=src, ldflags=["-c"])
        u["flags"] = (list(unit.get("flags", checks.PLAIN)) +
                      unit.get("src_flags", {}).get(src, []))
        procs.append(subprocess.Popen(unit_cmd(u, o), env=env, text=True,
                                      errors="replace",
                                      stdout=subprocess.PIPE,
                                      stderr=subprocess.PIPE))
        objs.append(o)
    errs, rc = "", 0
    for p in procs:
        e = p.communicate()[1]
        if p.returncode:
            rc = p.returncode
            errs += e
    if rc == 0:
        u = dict(unit, src=objs)
        r = sh(unit_cmd(u, out), env=env)
        rc, errs = r.returncode, r.stderr
    for o in objs:
        if os.path.exists(o):
            os.remove(o)
    return rc, errs, time.time() - t0


def probe(unit, build):
    """Do the headers themselves still compile (with an unused toolchain
    problem the blame is not the code's)?"""
    src = os.path.join(build, "probe.cpp")
    with open(src, "w") as f:
        f.write('#include <vmmlib/vector.hpp>\nint main(){ return 0; }\n')
    u = dict(unit, src=src)
    rc, err, _ = compile_unit(u, os.path.join(build, "probe"))
    return rc == 0, err


def load_known(prop):
    p = os.path.join(VERIF, "known-findings.json")
    with open(p) as f:
        d = json.load(f)
    return {e["key"]: e for e in d["findings"] if e["property"] == prop}


def write_replay(prop, name, data):
    d = os.path.join(VERIF, "replays")
    os.makedirs(d, exist_ok=True)
    p = os.path.join(d, "%s-%s.json" % (prop, name.replace("/", "_")))
    with open(p, "w") as f:
        json.dump(data, f, indent=1)
    return os.path.relpath(p, VERIF)


class Report:
    def __init__(self, prop):
        self.prop = prop
        self.violations = []
        self.known_hit = {}
        self.known = load_known(prop)

    def violation(self, name, data):
        path = write_replay(self.prop, name, dict(data, property=self.prop))
        self.violations.append((path, data.get("message", "")))
        print("VIOLATION property=%s replay=%s" % (self.prop, path))
        print("  %s: %s" % (name, data.get("message", "")[:1500]))
        for l in data.get("log", [])[-25:]:
            print("    | %s" % l[:400])
        sys.stdout.flush()

    def key(self, key, msg, data):
        if key in self.known:
            if key not in self.known_hit:
                self.known_hit[key] = msg
                print("KNOWN-FINDING: property=%s %s" %
                      (self.prop, self.known[key]["what"]))
        else:
            self.violation("key-" + key, dict(data, message=msg, key=key))


def run_unit(prop, unit, exe, tier, build, report, only=None):
    """Runs one compiled harness; returns its scenario records."""
    out = exe + ".out"
    scratch = exe + ".scratch"
    os.makedirs(scratch, exist_ok=True)
    cmd = [exe, "--tier", tier, "--out", out, "--scratch", scratch,
           "--workers", "8"]
    budget = unit.get("budget", {}).get(tier)
    if budget is None:
        budget = 200 if tier == "quick" else 3600
    cmd += ["--budget", str(budget)]
    if only:
        cmd += ["--only", only]
    env = dict(os.environ, LC_ALL="C")
    env["ASAN_OPTIONS"] = ("detect_leaks=0:abort_on_error=0:exitcode=77:"
                           "max_malloc_fill_size=1048576:malloc_fill_byte=165:"
                           "handle_abort=1:allocator_may_return_null=1")
    env["UBSAN_OPTIONS"] = "print_stacktrace=0:halt_on_error=1:exitcode=77"
    r = sh(cmd, env=env, cwd=scratch)
    recs, done = [], False
    if os.path.exists(out):
        for line in open(out):
            d = json.loads(line)
            if d.get("done"):
                done = True
            else:
                recs.append(d)
    if r.returncode not in (0, 1) or not done:
        raise CheckError("harness %s ended with %s\n%s" %
                         (unit["src"], r.returncode, r.stderr[-4000:]))
    for d in recs:
        f = d.get("failure")
        base = dict(unit={k: unit[k] for k in unit if k != "prepare"},
                    scenario=d["scenario"])
        if f:
            report.violation(unit_name(unit) + "-" + d["scenario"],
                             dict(base, message=f["message"],
                                  first_seen=f["first_seen"],
                                  confirmed=f["confirmed"],
                                  history=f["history"], log=f["log"],
                                  stderr=r.stderr[-3000:]))
        for k in d.get("keys", []):
            report.key(k["key"], k["msg"], dict(base, history=k["history"]))
    return recs


def unit_name(unit):
    s = unit["src"] if isinstance(unit["src"], str) else unit["src"][0]
    n = os.path.splitext(os.path.basename(s))[0]
    return n + ("-" + unit["tag"] if unit.get("tag") else "")


def run_units(prop, units, tier, build, report, only=None):
    recs = []
    times = []
    with concurrent.futures.ThreadPoolExecutor(8) as ex:
        futs = []
        for i, u in enumerate(units):
            exe = os.path.join(build, "%d_%s" % (i, unit_name(u)))
            if "prepare" in u:
                u["prepare"](u, build)
            futs.append((u, exe, ex.submit(compile_unit, u, exe)))
        results = [(u, exe, f.result()) for u, exe, f in futs]
    for u, exe, (rc, err, t) in results:
        times.append(round(t, 2))
        if rc != 0:
            ok, perr = probe(u, build)
            if not ok:
                raise CheckError("headers do not compile:\n" + perr[-3000:])
            errs = [l for l in err.splitlines() if "error" in l][:6]
            report.violation("compile-" + unit_name(u), dict(
                unit={k: u[k] for k in u if k != "prepare"},
                message="a public operation used by the harness no longer "
                        "compiles: " + " / ".join(errs)[:1200],
                stderr=err[-6000:]))
            continue
        recs += [dict(r, unit=unit_name(u)) for r in
                 run_unit(prop, u, exe, tier, build, report, only)]
        shutil.rmtree(exe + ".scratch", ignore_errors=True)
    return recs, times


def evidence(prop, tier, recs, report, wall, extra=None):
    spec = checks.CHECKS[prop]
    samples = []
    for r in recs:
        for s in r.get("samples", [])[:1]:
            if len(samples) < 12:
                samples.append(dict(scenario=r["scenario"], **s))
    tot = lambda k: sum(r.get(k, 0) for r in recs)  # noqa: E731
    cov = dict(
        states=tot("states"),
        transitions=tot("transitions"),
        traces_validated_against_impl=tot("complete"),
        samples=samples,
        oracle_checks=tot("checks"),
        pruned_executions=tot("pruned"),
        distinct_outcomes=tot("outcomes"),
        exhaustive=bool(recs) and not any(
            r.get("capped") or r.get("table_full") for r in recs),
        scenarios=[{k: r[k] for k in ("unit", "scenario", "about", "states",
                                      "transitions", "complete", "pruned",
                                      "checks", "outcomes", "capped",
                                      "table_full", "wall_s") if k in r}
                   for r in recs],
        bounds=spec.get("bounds", ""),
        known_findings_seen=sorted(report.known_hit),
    )
    if extra:
        cov.update(extra)
    ev = dict(property=prop, tier=tier,
              seed=int(os.environ.get("VERIF_SEED", "1") or 1),
              level="model_checking", coverage=cov,
              assumptions=spec.get("assumptions", []),
              wall_s=round(wall, 2), violations=len(report.violations))
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    p = os.path.join(VERIF, "evidence", prop + ".json")
    with open(p + ".tmp", "w") as f:
        json.dump(ev, f, indent=1)
    os.replace(p + ".tmp", p)
    return cov


def check(prop, tier, only=None, keep=False):
    t0 = time.time()
    spec = checks.CHECKS[prop]
    report = Report(prop)
    os.makedirs(os.path.join(VERIF, "build"), exist_ok=True)
    build = tempfile.mkdtemp(prefix=prop + "-", dir=os.path.join(VERIF,
                                                                 "build"))
    try:
        extra = {}
        if "run" in spec:
            recs, extra = spec["run"](sys.modules[__name__], prop, tier, build,
                                      report, only)
        else:
            units = [dict(u) for u in spec["units"]
                     if tier == "thorough" or not u.get("thorough_only")]
            recs, times = run_units(prop, units, tier, build, report, only)
            extra["compile_s"] = times
        cov = evidence(prop, tier, recs, report, time.time() - t0, extra)
        print("%s %s: states=%d transitions=%d traces=%d checks=%d "
              "outcomes=%d exhaustive=%s violations=%d (%.1fs)" %
              (prop, tier, cov["states"], cov["transitions"],
               cov["traces_validated_against_impl"], cov["oracle_checks"],
               cov["distinct_outcomes"], cov["exhaustive"],
               len(report.violations), time.time() - t0))
        return 1 if report.violations else 0
    except CheckError as e:
        print("CHECK ERROR %s: %s" % (prop, e), file=sys.stderr)
        return 2
    finally:
        if not keep:
            shutil.rmtree(build, ignore_errors=True)


def replay(path):
    with open(path) as f:
        d = json.load(f)
    if "history" not in d:
        print(json.dumps(d, indent=1))
        return 0
    build = tempfile.mkdtemp(prefix="replay-", dir=os.path.join(VERIF, "build")
                             if os.path.isdir(os.path.join(VERIF, "build"))
                             else None)
    try:
        exe = os.path.join(build, "h")
        rc, err, _ = compile_unit(d["unit"], exe)
        if rc:
            print(err)
            return 2
        scratch = os.path.join(build, "scratch")
        os.makedirs(scratch)
        hist = ";".join(",".join(map(str, h)) for h in d["history"])
        r = sh([exe, "--scratch", scratch, "--replay", d["scenario"], hist],
               cwd=scratch)
        print(r.stdout + r.stderr)
        return r.returncode
    finally:
        shutil.rmtree(build, ignore_errors=True)


def main():
    a = sys.argv[1:]
    if not a:
        print(__doc__)
        return 2
    if a[0] == "replay":
        return replay(a[1])
    prop = a[0]
    tier = os.environ.get("VERIF_TIER", "quick")
    only, keep = None, False
    i = 1
    while i < len(a):
        if a[i] == "--tier":
            tier = a[i + 1]
            i += 1
        elif a[i] == "--only":
            only = a[i + 1]
            i += 1
        elif a[i] == "--keep":
            keep = True
        i += 1
    if tier not in ("quick", "thorough"):
        tier = "quick"
    return check(prop, tier, only, keep)


if __name__ == "__main__":
    try:
        sys.exit(main())
    except SystemExit:
        raise
    except BaseException:  # never exit 1 without a VIOLATION line
        import traceback
        traceback.print_exc()
        sys.exit(2)
