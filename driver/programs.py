"""Properties decided by generating C++ programs, building and running them.

A generator module provides gen_program(seed), emit(prog) -> {file: text},
smaller(prog) and describe(prog) -> (evaluations, {signature}, labels, sample).
Every .cpp file is compiled with the module's precompiled header and linked with
its runtime; the program prints FAILED and exits with 1, or exits with 0."""
import concurrent.futures
import importlib.util
import json
import os
import shutil
import subprocess
import tempfile
import time

from . import core
from .core import VERIF, INCLUDE, BUILD, NCPU

COMMON = ["-Wno-everything", "-D_GLIBCXX_ASSERTIONS", "-ferror-limit=5"]
MODES = {
    "c++17": ["clang++", "-std=c++17", "-O0", "-fsanitize=address"] + COMMON,
    "c++20": ["clang++", "-std=c++20", "-O0", "-fsanitize=address"] + COMMON,
    "release": ["clang++", "-std=c++17", "-O1", "-DNDEBUG", "-fsanitize=undefined",
                "-fno-sanitize-recover=undefined", "-fno-sanitize=vptr,function"] + COMMON,
    "gcc": ["g++", "-std=c++17", "-O0", "-fsanitize=address", "-w", "-D_GLIBCXX_ASSERTIONS",
            "-fmax-errors=5"],
}


MODES["checks"] = MODES["c++17"] + ["-DBOOST_OPENMETHOD_ENABLE_RUNTIME_CHECKS"]
MODES["other default"] = MODES["c++17"] + ["-DRT_OTHER_DEFAULT"]
# (with static AddressSanitizer the libraries use the executable's)
MODES["dl"] = ["clang++", "-std=c++17", "-O0", "-fPIC", "-fsanitize=address"] + COMMON
MODES["dl gcc"] = ["g++", "-std=c++17", "-O0", "-fPIC", "-w", "-D_GLIBCXX_ASSERTIONS",
                   "-fmax-errors=5"]


class Kit:
    def __init__(self, directory, generator="gen", modes=("c++17",), link=(), runtime=True):
        self.dir = os.path.join(VERIF, directory)
        self.modes = modes
        self.link = list(link)
        self.runtime = runtime
        spec = importlib.util.spec_from_file_location(
            directory + "_" + generator, os.path.join(self.dir, generator + ".py"))
        self.gen = importlib.util.module_from_spec(spec)
        spec.loader.exec_module(self.gen)
        self.ready = {}

    def flags(self, mode):
        return MODES[mode] + ["-I" + INCLUDE, "-I" + self.dir]

    def prepare(self):
        """Builds the precompiled headers and the runtimes."""
        with concurrent.futures.ThreadPoolExecutor(NCPU) as ex:
            list(ex.map(self.prepare_mode, self.modes))

    def prepare_mode(self, mode):
        os.makedirs(BUILD, exist_ok=True)
        hdr = os.path.join(self.dir, "rt.hpp")
        src = os.path.join(self.dir, "rt.cpp")
        flags = self.flags(mode)
        t = core.tag(open(hdr, "rb").read(), open(src, "rb").read() if self.runtime else "",
                     flags)
        obj = os.path.join(BUILD, "rt.%s.o" % t) if self.runtime else None
        if flags[0] == "g++":
            # found as DIR/rt.hpp.gch
            d = os.path.join(BUILD, "rt.%s" % t)
            os.makedirs(d, exist_ok=True)
            shutil.copy2(hdr, d)
            pch, use = os.path.join(d, "rt.hpp.gch"), ["-I" + d, "-include", "rt.hpp"]
            flags = [f for f in flags if f != "-I" + self.dir]
        else:
            pch = os.path.join(BUILD, "rt.%s.pch" % t)
            use = ["-include-pch", pch]
        for out, cmd in ((pch, ["-x", "c++-header", hdr]),
                         (obj, use + ["-I" + self.dir, "-c", src])):
            if out and not os.path.exists(out):
                tmp = "%s.%d.tmp" % (out, os.getpid())
                r = core.sh(flags + cmd + ["-o", tmp])
                if r.returncode:
                    raise core.BuildError(os.path.basename(out), r.stdout)
                os.replace(tmp, out)
        self.ready[mode] = (use, [obj] if obj else [])

    def build(self, prog, files, d):
        """None, or the compiler's message."""
        mode, others = prog["mode"], self.modes_of(prog)
        runtime = self.ready[mode][1]
        for name, text in files.items():
            with open(os.path.join(d, name), "w") as f:
                f.write(text)
        objs = []
        for name in files:
            if not name.endswith(".cpp"):
                continue
            o = os.path.join(d, name[:-4] + ".o")
            objs.append(o)
            m = others.get(name, mode)
            base = self.flags(m)
            if base[0] == "g++":
                base = base[:-1]
            for attempt in range(3):
                r = core.sh(base + ["-I" + d] + self.ready[m][0] + ["-I" + self.dir] +
                            ["-c", os.path.join(d, name), "-o", o], timeout=300)
                # (the compiler was ended when memory was low)
                if r.returncode >= 0 and "error:" in r.stdout or not r.returncode:
                    break
            if r.returncode:
                return name + " does not compile:\n" + r.stdout[:3000]
        if hasattr(self.gen, "libraries"):
            for lib, deps in self.gen.libraries(prog):
                o = os.path.join(d, lib + ".o")
                objs.remove(o)
                r = core.sh(self.flags(mode) + ["-shared", o] +
                            [os.path.join(d, x + ".so") for x in deps] +
                            ["-Wl,-rpath,$ORIGIN", "-Wl,-soname," + lib + ".so",
                             "-o", os.path.join(d, lib + ".so")], timeout=300)
                if r.returncode:
                    return lib + " does not link:\n" + r.stdout[:3000]
        r = core.sh(self.flags(mode) + objs + runtime + self.link + ["-o", os.path.join(d, "prog")],
                    timeout=300)
        if r.returncode:
            return "does not link:\n" + r.stdout[:3000]
        return None

    def run(self, prog):
        return self.run_files(prog, self.gen.emit(prog))

    def modes_of(self, prog):
        """Modes of the files that are not compiled like the others."""
        return self.gen.modes_of(prog) if hasattr(self.gen, "modes_of") else {}

    def run_files(self, prog, files):
        """None if the program works, else what fails."""
        d = tempfile.mkdtemp(prefix="prog-", dir=self.tmp)
        try:
            msg = self.build(prog, files, d)
            if msg:
                return "build", msg
            try:
                r = subprocess.run([os.path.join(d, "prog")], stdout=subprocess.PIPE,
                                   stderr=subprocess.STDOUT, text=True, errors="replace",
                                   env=core.RUN_ENV, timeout=60, cwd=d)
            except subprocess.TimeoutExpired:
                return "run", "the program does not end"
            if r.returncode:
                return "run", "exit %d: %s" % (r.returncode, r.stdout[:3000])
            return None
        finally:
            shutil.rmtree(d, ignore_errors=True)

    def shrink(self, prog, kind, msg, seconds):
        deadline = time.time() + seconds
        with concurrent.futures.ThreadPoolExecutor(NCPU) as ex:
            progress = True
            while progress and time.time() < deadline:
                progress = False
                cands = list(self.gen.smaller(prog))
                for i in range(0, len(cands), NCPU):
                    if time.time() > deadline:
                        break
                    batch = cands[i:i + NCPU]
                    outs = list(ex.map(lambda p: self.run(p), batch))
                    for p, o in zip(batch, outs):
                        if o and o[0] == kind:
                            prog, msg, progress = p, o[1], True
                            break
                    if progress:
                        break
        return prog, msg


def save(path, prog, files, msg):
    with open(path, "w") as f:
        f.write("// %s\n" % msg.replace("\n", "\n// "))
        f.write("// program: %s\n" % json.dumps(prog))
        for name, text in files.items():
            f.write("//==== %s\n%s" % (name, text))


def load(path):
    files, name, prog = {}, None, {}
    for line in open(path):
        if line.startswith("//==== "):
            name = line[7:].strip()
            files[name] = ""
        elif name:
            files[name] += line
        elif line.startswith("// program: "):
            prog = json.loads(line[12:])
    return prog, files


def run(kit, prop, res, seed, count, seconds, tmp, shrink_seconds=40, rule=""):
    kit.tmp = tmp
    kit.prepare()
    deadline = time.time() + seconds
    signatures = set()
    failures = []
    done = [0]

    def one(i):
        if failures or time.time() > deadline:
            return None
        prog = kit.gen.gen_program(seed * 1000003 + i)
        out = kit.run(prog)
        return prog, out

    with concurrent.futures.ThreadPoolExecutor(NCPU) as ex:
        for r in ex.map(one, range(count)):
            if r is None:
                continue
            prog, out = r
            done[0] += 1
            n, sig, labels, sample = kit.gen.describe(prog)
            res.evaluations += n
            signatures |= sig
            for k, v in labels.items():
                res.labels[k] = res.labels.get(k, 0) + v
            if len(res.samples) < 8:
                res.samples.append(sample[:600])
            if out:
                # it must fail again to count
                again = kit.run(prog)
                if again:
                    failures.append((prog, again))
                else:
                    res.notes.append("a failure did not reproduce and was ignored")
    res.labels["programs"] = res.labels.get("programs", 0) + done[0]
    res.nontrivial += len(signatures)
    if rule:
        res.rule.append(rule)
    if failures:
        prog, (kind, msg) = failures[0]
        prog, msg = kit.shrink(prog, kind, msg, shrink_seconds)
        path = os.path.join(core.replay_dir(), "%s-seed%s.cpp.txt" % (prop, prog.get("seed", 0)))
        save(path, prog, kit.gen.emit(prog), msg)
        res.violations.append((path, msg))


def replay(kit, path):
    kit.tmp = tempfile.mkdtemp(prefix="verif-replay-")
    try:
        prog, files = load(path)
        for m in {prog["mode"], *kit.modes_of(prog).values()}:
            kit.prepare_mode(m)
        out = kit.run_files(prog, files)
    finally:
        shutil.rmtree(kit.tmp, ignore_errors=True)
    print(out[1] if out else "holds")
    return 1 if out else 0
