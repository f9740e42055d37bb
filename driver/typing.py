"""Decides which generated definitions compile (C25).

Items are compiled many at a time, each in a namespace of its own; an item has an
error if the compiler's output names its namespace or its lines.  Every
disagreement with the expected outcome is confirmed by compiling the item alone."""
import concurrent.futures
import importlib.util
import json
import os
import random
import re
import shutil
import tempfile
import time

from . import core
from .core import VERIF, INCLUDE, BUILD, NCPU

DIR = os.path.join(VERIF, "h8")
CLANG = ["-w", "-ferror-limit=0", "-ftemplate-backtrace-limit=0", "-fno-caret-diagnostics"]
MODES = {
    "clang++ c++17": ["clang++", "-std=c++17"] + CLANG,
    "clang++ c++20": ["clang++", "-std=c++20"] + CLANG,
    "g++ c++17": ["g++", "-std=c++17", "-w", "-ftemplate-backtrace-limit=0",
                  "-fno-diagnostics-show-caret"],
    "clang++ NDEBUG": ["clang++", "-std=c++17", "-DNDEBUG"] + CLANG,
}


def load_gen():
    spec = importlib.util.spec_from_file_location("h8_gen", os.path.join(DIR, "gen.py"))
    gen = importlib.util.module_from_spec(spec)
    spec.loader.exec_module(gen)
    return gen


gen = load_gen()
ready = {}


def prepare(mode):
    os.makedirs(BUILD, exist_ok=True)
    hdr = os.path.join(DIR, "rt.hpp")
    flags = MODES[mode] + ["-I" + INCLUDE]
    t = core.tag(open(hdr, "rb").read(), flags)
    if flags[0] == "g++":
        d = os.path.join(BUILD, "ty.%s" % t)
        os.makedirs(d, exist_ok=True)
        shutil.copy2(hdr, d)
        out, use = os.path.join(d, "rt.hpp.gch"), ["-I" + d, "-include", "rt.hpp"]
    else:
        out = os.path.join(BUILD, "ty.%s.pch" % t)
        use = ["-include-pch", out]
    if not os.path.exists(out):
        tmp = "%s.%d.tmp" % (out, os.getpid())
        r = core.sh(flags + ["-x", "c++-header", hdr, "-o", tmp])
        if r.returncode:
            raise core.BuildError(os.path.basename(out), r.stdout)
        os.replace(tmp, out)
    ready[mode] = flags + use + ["-fsyntax-only"]


def compile_text(mode, text, tmp, flags=None):
    """The compiler's messages; None if it accepts the text."""
    fd, path = tempfile.mkstemp(suffix=".cpp", dir=tmp)
    with os.fdopen(fd, "w") as f:
        f.write(text)
    try:
        for attempt in range(3):
            r = core.sh((flags or ready[mode]) + [path], timeout=300)
            if r.returncode == 0:
                return None
            # (otherwise the compiler was ended when memory was low)
            if "error:" in r.stdout and r.returncode == 1:
                return r.stdout.replace(path, "item.cpp")
        raise RuntimeError("the compiler fails: " + r.stdout[-500:])
    finally:
        os.unlink(path)


def alone(mode, s, tmp):
    if s["form"] == "headers":
        return compile_text(mode, gen.emit(s), tmp,
                            MODES[mode] + ["-I" + INCLUDE, "-I" + DIR, "-fsyntax-only"])
    return compile_text(mode, "namespace k0 {\n%s}\n" % gen.emit(s), tmp)


def batch(mode, items, tmp):
    """For each item, whether it has an error."""
    text, where, line = [], [], 1
    for i, s in enumerate(items):
        t = "namespace k%d {\n%s}\n" % (i, gen.emit(s))
        text.append(t)
        where += [i] * t.count("\n")
    out = compile_text(mode, "".join(text), tmp)
    bad = set()
    if out:
        for m in re.finditer(r"\bk(\d+)::|\bitem\.cpp:(\d+):", out):
            if m.group(1):
                bad.add(int(m.group(1)))
            elif int(m.group(2)) <= len(where):
                bad.add(where[int(m.group(2)) - 1])
    return [i in bad for i in range(len(items))]


def disagrees(mode, s, tmp):
    """None, or how the compiler's verdict differs from the expected one."""
    out = alone(mode, s, tmp)
    if gen.valid(s):
        return "does not compile:\n" + out[:2500] if out else None
    return None if out else "compiles"


def message(mode, s, what):
    return "%s, %s, with %s (%s)" % (gen.label(s), what.split("\n")[0], mode, s) + \
        "".join("\n" + x for x in what.split("\n")[1:])


def shrink(mode, s, what, tmp, seconds):
    deadline = time.time() + seconds
    progress = True
    while progress and time.time() < deadline:
        progress = False
        for q in gen.smaller(s):
            if time.time() > deadline:
                break
            # the item without the mistake must still be accepted
            t = gen.twin(q)
            if t and disagrees(mode, t, tmp):
                continue
            w = disagrees(mode, q, tmp)
            if w and w.split("\n")[0] == what.split("\n")[0]:
                s, what, progress = q, w, True
                break
    return s, what


def run(prop, res, seed, batches, size, seconds, tmp, modes, rule=""):
    with concurrent.futures.ThreadPoolExecutor(NCPU) as ex:
        list(ex.map(prepare, sorted(set(modes))))
    deadline = time.time() + seconds
    failures = []
    signatures = set()

    def one(n):
        if failures or time.time() > deadline:
            return None
        r = random.Random(seed * 1000003 + n)
        mode = modes[n % len(modes)]
        if n % 4 == 3:  # compiled by themselves
            s = gen.headers(r)
            what = disagrees(mode, s, tmp)
            if what:
                failures.append((mode, s, what, n))
            return mode, [s]
        items = []
        while len(items) < size:
            s = gen.gen_item(r)
            t = gen.twin(s)
            if t:
                items.append(t)
            items.append(s)
        found = batch(mode, items, tmp)
        for s, bad in zip(items, found):
            if failures:
                break
            if bad == gen.valid(s):
                what = disagrees(mode, s, tmp)
                if what and disagrees(mode, s, tmp):
                    failures.append((mode, s, what, n))
        return mode, items

    with concurrent.futures.ThreadPoolExecutor(NCPU) as ex:
        for out in ex.map(one, range(batches)):
            if out is None:
                continue
            mode, items = out
            res.evaluations += len(items)
            for s in items:
                k = gen.label(s)
                res.labels[k] = res.labels.get(k, 0) + 1
                signatures.add(json.dumps(gen.signature(s)))
            res.labels["with " + mode] = res.labels.get("with " + mode, 0) + len(items)
            if len(res.samples) < 8:
                res.samples.append(json.dumps(items[-1]) + " " + gen.emit(items[-1])
                                   .replace(gen.CLASSES, "")[:400])
    res.nontrivial += len(signatures)
    res.rule.append(rule)
    if failures:
        mode, s, what, n = failures[0]
        s, what = shrink(mode, s, what, tmp, 40)
        path = os.path.join(core.replay_dir(), "%s-seed%d.cpp.txt" % (prop, n))
        msg = message(mode, s, what)
        with open(path, "w") as f:
            f.write("// %s\n// item: %s\n%s" % (msg.replace("\n", "\n// "),
                                               json.dumps([mode, s]), gen.emit(s)))
        res.violations.append((path, msg))


def replay(path):
    tmp = tempfile.mkdtemp(prefix="verif-replay-")
    try:
        for line in open(path):
            if line.startswith("// item: "):
                mode, s = json.loads(line[9:])
        prepare(mode)
        what = disagrees(mode, s, tmp)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    print(message(mode, s, what) if what else "holds")
    return 1 if what else 0
