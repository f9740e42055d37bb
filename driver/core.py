"""Builds the harnesses from /repo's working tree, runs them, writes evidence."""
import concurrent.futures
import hashlib
import json
import os
import re
import shutil
import subprocess
import threading
import sys
import tempfile
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
INCLUDE = os.path.join(REPO, "include")
BUILD = os.path.join(VERIF, ".build")
NCPU = min(8, os.cpu_count() or 1)

CLANG = ["clang++", "-std=c++17", "-O1", "-g1", "-fsanitize=address",
         "-D_GLIBCXX_ASSERTIONS", "-Wno-everything", "-ferror-limit=20"]
CLANG_LINK = ["clang++", "-fsanitize=address", "-rdynamic"]

RUN_ENV = dict(os.environ)
RUN_ENV["ASAN_OPTIONS"] = ("detect_leaks=0:detect_odr_violation=0:exitcode=99:abort_on_error=0:"
                           "quarantine_size_mb=32:allocator_may_return_null=1:"
                           "detect_stack_use_after_return=0")
RUN_ENV["UBSAN_OPTIONS"] = "halt_on_error=1:exitcode=98:print_stacktrace=1"
RUN_ENV["TSAN_OPTIONS"] = "halt_on_error=1:exitcode=97:history_size=3"
RUN_ENV.pop("BOOST_OPENMETHOD_TRACE", None)
RUN_ENV["LC_ALL"] = "C.UTF-8"


class BuildError(Exception):
    def __init__(self, what, log):
        super().__init__(what)
        self.what = what
        self.log = log


def sh(cmd, timeout=None, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                          timeout=timeout, text=True, errors="replace", **kw)


_hash_cache = {}


def repo_hash():
    if "r" not in _hash_cache:
        h = hashlib.sha256()
        for root, dirs, files in os.walk(INCLUDE):
            dirs.sort()
            for f in sorted(files):
                p = os.path.join(root, f)
                h.update(os.path.relpath(p, INCLUDE).encode() + b"\0")
                with open(p, "rb") as fd:
                    h.update(fd.read())
        _hash_cache["r"] = h.hexdigest()
    return _hash_cache["r"]


def tag(*things):
    h = hashlib.sha256(repo_hash().encode())
    for t in things:
        h.update(t if isinstance(t, bytes) else str(t).encode())
        h.update(b"\0")
    return h.hexdigest()[:20]


def headers_of(d):
    out = b""
    for dd in (d, os.path.join(VERIF, "lib")):
        for f in sorted(os.listdir(dd)):
            if f.endswith((".hpp", ".h")):
                with open(os.path.join(dd, f), "rb") as fd:
                    out += fd.read()
    return out


JOBS = threading.Semaphore(NCPU)


def compile_one(src, flags, hdrs):
    """Compiles one translation unit, returns the object (cached)."""
    with JOBS:
        return compile_one_(src, flags, hdrs)


def compile_one_(src, flags, hdrs):
    with open(src, "rb") as f:
        t = tag(f.read(), hdrs, flags)
    os.makedirs(BUILD, exist_ok=True)
    obj = os.path.join(BUILD, os.path.basename(src) + "." + t + ".o")
    if os.path.exists(obj):
        return obj
    tmp = obj + ".%d.%d.tmp" % (os.getpid(), threading.get_ident())
    cmd = flags + ["-I" + INCLUDE, "-I" + os.path.dirname(src), "-c", src, "-o", tmp]
    for attempt in range(2):
        r = sh(cmd)
        if r.returncode == 0:
            os.replace(tmp, obj)
            return obj
        if "error:" in r.stdout and attempt == 0 and "Killed" not in r.stdout:
            break
    raise BuildError(os.path.basename(src), " ".join(cmd) + "\n" + r.stdout)


def build(name, sources, flags=None, link=None, libs=()):
    flags = flags or CLANG
    link = link or CLANG_LINK
    hdrs = headers_of(os.path.dirname(sources[0]))
    with concurrent.futures.ThreadPoolExecutor(NCPU) as ex:
        objs = list(ex.map(lambda s: compile_one(
            s, flags(s) if callable(flags) else flags, hdrs), sources))
    exe = os.path.join(BUILD, name + "." + tag(*objs, *link, *libs))
    if not os.path.exists(exe):
        tmp = exe + ".%d.tmp" % os.getpid()
        r = sh(link + objs + ["-o", tmp] + list(libs))
        if r.returncode:
            raise BuildError(name, r.stdout)
        os.replace(tmp, exe)
    return exe


def build_all(builders):
    """Runs builders at the same time; a list of executables."""
    with concurrent.futures.ThreadPoolExecutor(len(builders)) as ex:
        return list(ex.map(lambda b: b(), builders))


class Result:
    def __init__(self):
        self.evaluations = 0
        self.nontrivial = 0
        self.rule = []
        self.samples = []
        self.labels = {}
        self.violations = []  # (replay path, message)
        self.known = []       # (key, message)
        self.notes = []

    def merge_json(self, d, prefix=""):
        self.evaluations += d["evaluations"]
        self.nontrivial += d["distinct_nontrivial"]
        if d.get("rule") and d["rule"] not in self.rule:
            self.rule.append(d["rule"])
        self.samples += d.get("samples", [])[:4]
        for k, v in d.get("labels", {}).items():
            self.labels[prefix + k] = self.labels.get(prefix + k, 0) + v
        if d.get("violation"):
            self.violations.append((d["violation"]["replay"],
                                    d["violation"]["message"]))
        if d.get("unreproduced"):
            self.notes.append("a failure did not reproduce and was ignored")


def known_findings():
    """{(property, key): text} of the findings recorded but not repaired."""
    out = {}
    p = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(p):
        for line in open(p):
            m = re.match(r"known: property=(\S+) key=(\S+) (.*)", line.strip())
            if m:
                out[(m.group(1), m.group(2))] = m.group(3)
    return out


def replay_dir():
    d = os.path.join(VERIF, "evidence", "replay")
    os.makedirs(d, exist_ok=True)
    return d


def run_pbt(res, exe, prop, seed, cases, seconds, extra="", tmp=None, shrink=20,
            workers=None, env=None):
    """Runs one pbt binary and merges its outcome into res."""
    out = os.path.join(tmp, "out-%s-%s.json" % (prop, re.sub(r"\W", "_", extra)))
    e = dict(env or RUN_ENV)
    e["PBT_TMP"] = tmp
    cmd = [exe, "--prop", prop, "--seed", str(seed), "--cases", str(cases),
           "--time", str(seconds), "--workers", str(workers or NCPU), "--out", out,
           "--replay-dir", replay_dir(), "--shrink-time", str(shrink)]
    if extra:
        cmd += ["--extra", extra]
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                       text=True, errors="replace", env=e,
                       timeout=seconds + shrink + 400)
    sys.stdout.write(r.stdout[-6000:])
    if not os.path.exists(out) or r.returncode not in (0, 1):
        raise RuntimeError("%s ended with %s:\n%s" %
                           (prop, r.returncode, r.stdout[-3000:]))
    with open(out) as f:
        d = json.load(f)
    res.merge_json(d)
    return d


def main(argv):
    from driver import checks
    if argv and argv[0] == "build":
        for c in checks.CHECKS.values():
            if "build" in c:
                c["build"]()
        return 0
    if len(argv) == 3 and argv[0] == "replay":
        return checks.CHECKS[argv[1]]["replay"](argv[2])
    if len(argv) != 2 or argv[0] not in checks.CHECKS or \
            argv[1] not in ("quick", "thorough"):
        sys.stderr.write(__doc__ or "usage\n")
        sys.stderr.write("properties: %s\n" % " ".join(sorted(checks.CHECKS)))
        return 2
    prop, tier = argv
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    check = checks.CHECKS[prop]
    t0 = time.time()
    tmp = tempfile.mkdtemp(prefix="verif-%s-" % prop)
    res = Result()
    try:
        try:
            check["run"](res, tier, seed, tmp)
        except BuildError as e:
            # Client code that the documentation allows does not compile any
            # more: reported with the compiler's log as the reproduction.
            path = os.path.join(replay_dir(), "%s-build.log" % prop)
            with open(path, "w") as f:
                f.write("client code does not build: %s\n%s\n" % (e.what, e.log))
            res.violations.append((path, "client code does not build: %s\n%s" %
                                   (e.what, e.log[-1500:])))
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    listed = known_findings()
    for key, msg in res.known:
        if (prop, key) in listed:
            print("KNOWN-FINDING: property=%s %s: %s" %
                  (prop, key, listed[(prop, key)]))
        else:
            path = os.path.join(replay_dir(), "%s-%s.txt" % (prop, key))
            with open(path, "w") as f:
                f.write(msg + "\n")
            res.violations.append((path, msg))
    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": "exploration",
        "coverage": {
            "evaluations": res.evaluations,
            "distinct_nontrivial": res.nontrivial,
            "rule": check["cases"] + " Non-trivial: " + "; ".join(res.rule) + ".",
            "samples": res.samples[:8],
            "labels": res.labels,
        },
        "assumptions": check.get("assumptions", []) + res.notes,
        "wall_s": round(time.time() - t0, 2),
        "violations": len(res.violations),
    }
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    print("%s %s: %d cases, %d distinct non-trivial, %.1f s" %
          (prop, tier, res.evaluations, res.nontrivial, time.time() - t0))
    if res.violations:
        for path, msg in res.violations:
            print("  " + msg.replace("\n", "\n  "))
        print("VIOLATION property=%s replay=%s" % (prop, res.violations[0][0]))
        return 1
    return 0
