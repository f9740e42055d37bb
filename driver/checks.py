"""The registered checks."""
import os
import subprocess

from . import core, programs, typing
from .core import VERIF

CHECKS = {}


def h1(backends):
    d = os.path.join(VERIF, "h1")
    return core.build("h1", [os.path.join(d, "main.cpp")] +
                      [os.path.join(d, "b_%s.cpp" % b) for b in backends])


def h1_big():
    d = os.path.join(VERIF, "h1")
    return core.build("h1b", [os.path.join(d, f) for f in (
        "big.cpp", "b_vec_chk.cpp", "b_small.cpp", "b_map_ind.cpp")],
        flags=core.CLANG + ["-DUNI_BIG"])


# programs of up to 140 classes, 80 methods, 100 overriders of a method, 6
# virtual parameters
BIG = [("large", h1_big, (6000, 12), (400000, 150))]
ALL = ["vec", "vec_chk", "map_chk", "ind", "map_ind", "small", "small_chk",
       "small_ind"]


def pbt_check(pid, builder, cases, quick, thorough, extras=("",), assumptions=(),
              known=(), more=()):
    """A property decided by one pbt binary.  quick / thorough: (cases, seconds)."""
    def run(res, tier, seed, tmp):
        exe, *others = core.build_all([builder] + [m[1] for m in more])
        n, secs = quick if tier == "quick" else thorough
        for x in extras:
            core.run_pbt(res, exe, pid, seed, n, secs, x, tmp)
        for (tag, _, quick2, thorough2), exe2 in zip(more, others):
            if not res.violations:
                n, secs = quick2 if tier == "quick" else thorough2
                core.run_pbt(res, exe2, pid, seed, n, secs, tag, tmp)
        for key in known:
            r = subprocess.run([exe, "--prop", pid + "-" + key, "--cases", "1",
                                "--workers", "1", "--replay-dir", tmp, "--seed", "1"],
                               stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                               text=True, errors="replace",
                               env=dict(core.RUN_ENV, PBT_TMP=tmp), timeout=120)
            if r.returncode == 1:
                res.known.append((key, r.stdout))

    def replay(path):
        with open(path) as f:
            text = f.read()
        exe = None
        for tag, builder2, _, _ in more:
            if "\nextra %s\n" % tag in text:
                exe = builder2()
        exe = exe or builder()
        return subprocess.run([exe, "--replay", path],
                              env=core.RUN_ENV).returncode

    CHECKS[pid] = dict(run=run, replay=replay, build=builder, cases=cases,
                       assumptions=list(assumptions))


WORLD = ("Each case draws a class hierarchy (forests, multiple-inheritance "
         "lattices, chains, wide and layered graphs), type ids (with aliases), a "
         "registration of it (order, splitting, redundant bases), methods of "
         "arity 1 to 4 over 29 parameter shapes with 0 to 10 overriders, and a "
         "policy configuration; ")
LARGE = (" Then the same with large programs: 20 to 140 classes, up to 80 methods "
         "with up to 100 overriders and 6 (19, in one method) virtual parameters.")
A_H1 = ["The type ids are supplied by a custom rtti policy reading a table; the "
        "C++ classes behind them are layout-identical, so pointer adjustments "
        "are covered by other properties (argument and smart pointer casts).",
        "Dispatch tables above 700 tuples are sampled, not exhausted."]

CLANG_O0 = [f if f != "-O1" else "-O0" for f in core.CLANG]


def h4():
    d = os.path.join(VERIF, "h4")
    return core.build("h4", [os.path.join(d, f) for f in sorted(os.listdir(d))
                             if f.endswith(".cpp")], flags=CLANG_O0)


pbt_check("C01", lambda: h1(ALL), WORLD +
          "every virtual argument tuple is called and compared with a "
          "brute-force model of the documented rules." + LARGE,
          (80000, 25), (3000000, 500), more=BIG, assumptions=A_H1)
pbt_check("C02", lambda: h1(ALL), WORLD +
          "every tuple without a best overrider is called." + LARGE,
          (60000, 25), (2000000, 500), more=BIG, assumptions=A_H1)
pbt_check("C03", lambda: h1(ALL), WORLD +
          "next and has_next of every selectable overrider are compared with "
          "the model." + LARGE, (60000, 25), (3000000, 500), more=BIG, assumptions=A_H1,
          known=("per-tuple",))
pbt_check("C04", lambda: h1(ALL), WORLD +
          "the program is registered twice in different ways and the complete "
          "behaviour compared.", (14000, 25), (700000, 500), assumptions=A_H1)
pbt_check("C05", lambda: h1(["vec", "map_chk", "ind", "small"]), WORLD +
          "5 to 24 methods at a time." + LARGE, (14000, 25), (500000, 500),
          more=BIG, assumptions=A_H1)
pbt_check("C06", lambda: h1(["vec", "vec_chk", "map_ind", "small_ind"]), WORLD +
          "methods return classes, initialization uses the n2216 option, and "
          "is repeated after other operations." + LARGE, (40000, 25), (900000, 500),
          more=BIG, assumptions=A_H1)
pbt_check("C07", lambda: h1(["vec", "map_chk", "small", "ind"]), WORLD +
          "the report is compared with counts made by the model and with the "
          "calls that fail." + LARGE, (50000, 25), (900000, 500), more=BIG, assumptions=A_H1)
pbt_check("C08", lambda: h1(ALL), WORLD +
          "then 3 to 7 rounds of registering / unregistering classes, changing "
          "methods, finalize, failing and successful initialize, with all calls "
          "compared after each." + LARGE, (24000, 25), (700000, 500), more=BIG, assumptions=A_H1)
pbt_check("C09", lambda: h1(["ind", "map_ind", "small_ind", "small_chk_ind", "map_chk_ind"]), WORLD +
          "then the same histories as for re-initialization, with virtual_ptrs "
          "kept alive and used throughout.", (20000, 25), (900000, 500),
          assumptions=A_H1)
pbt_check("C10", lambda: h1(ALL + ["small_chk_ind"]), WORLD +
          "the same program is run under each of the other configurations.",
          (12000, 25), (300000, 500), assumptions=A_H1)
pbt_check("C11", lambda: h1(["vec_chk", "map_chk", "ind", "small_chk", "small_chk_ind", "map_chk_ind"]), WORLD +
          "then incorrect uses: before initialize, after finalize, with objects "
          "of unregistered classes, with final pointers to derived objects; and histories of objects with "
          "embedded v-table pointers, used before initialize and after finalize; and histories of "
          "virtual_ptrs as in C15, with the same mistakes made with smart pointers.",
          (24000, 25), (1000000, 500), assumptions=A_H1 +
          ["With vptr_vector and no type_hash only ids beyond the highest "
           "registered id are used, the only ones the documentation promises "
           "to detect."],
          more=[("lifecycle", h4, (8000, 12), (800000, 200)),
                ("virtual_ptrs", lambda: h2(), (30000, 12), (1000000, 200))])
pbt_check("C13", lambda: h1(["vec", "map_chk", "map_ind", "small_chk"]), WORLD +
          "then classes or inheritance facts are left out of the registration.",
          (100000, 25), (4000000, 500), assumptions=A_H1)
pbt_check("C20", lambda: h1(["vec", "vec_chk", "map_ind", "small_ind"]), WORLD +
          "initialized with no option, with tracing off, with tracing on and with "
          "trace::from_env() under generated values of BOOST_OPENMETHOD_TRACE, in any order.", (40000, 25), (1000000, 500), assumptions=A_H1)


def h2():
    d = os.path.join(VERIF, "h2")
    # The library casts std::shared_ptrs in another way since C++20.
    cpp20 = [f.replace("17", "20") for f in CLANG_O0]
    return core.build("h2", [os.path.join(d, f) for f in sorted(os.listdir(d))
                             if f.endswith(".cpp")],
                      flags=lambda s: cpp20 if "map" in s or "np" in s or "plain" in s
                      else CLANG_O0)


VP = ("Each case is a history of 2 to 60 steps on two variables of each of fifteen "
      "virtual_ptr types and as many smart pointers, in one of seven registries; "
      "every variable is compared with the model after each step; ")
A_H2 = ["Two fixed families of classes (polymorphic with multiple and virtual "
        "inheritance; not polymorphic); casts are only made to classes the "
        "object has."]
pbt_check("C15", h2, VP + "weighted towards conversions.", (60000, 25),
          (3000000, 500), assumptions=A_H2)
pbt_check("C17", h2, VP + "weighted towards owners and calls.", (60000, 25),
          (3000000, 500), assumptions=A_H2)


def h1_counted():
    d = os.path.join(VERIF, "h1")
    return core.build("h1c", [os.path.join(d, f) for f in (
        "main.cpp", "b_vec.cpp", "b_vec_chk.cpp", "b_ind.cpp", "b_map_chk.cpp", "b_map_ind.cpp",
        "b_small.cpp", "b_small_chk_ind.cpp")],
        flags=[f for f in core.CLANG if "sanitize" not in f] + [
            "-DUNI_COUNT", "-fsanitize-coverage=func,inline-bool-flag,trace-loads,no-prune"],
        link=["clang++", "-rdynamic"])


pbt_check("C26", h1_counted, WORLD +
          "the memory reads and the lookups of dynamic types made by each call are counted, and "
          "compared with those of the same method in a program of two classes; and histories of "
          "virtual_ptrs as in C15, in registries that count the lookups of v-table pointers.",
          (60000, 25), (2000000, 500), assumptions=A_H1 + [
              "Memory reads are counted by instrumentation in the code generated by clang -O1."],
          more=[("virtual_ptrs", h2, (30000, 15), (1000000, 200))])


IP = ("Each case is a history of 2 to 40 steps (create, destroy, copy, slice, "
      "move, assign and swap whole objects and base parts, vectors, arrays, "
      "constructors that throw, initialize again) on six objects of 14 classes "
      "with embedded v-table pointers, in one of seven registries; every object "
      "is dispatched on by all its bases after each step, and in every "
      "constructor and destructor; ")
pbt_check("C18", h4, IP + "compared with the class the object has at that time.",
          (40000, 25), (3000000, 500), assumptions=[
              "No virtual inheritance: the documentation shows embedded v-table "
              "pointers with plain inheritance only."])


def h6():
    return core.build("h6", [os.path.join(VERIF, "h6", "main.cpp")])


pbt_check("C12", h6, "Each case draws one to three sets of 1 to 140 type ids (like "
          "type_info addresses, in several modules, random, small, sparse, "
          "extreme values), given to classes with one or several ids, registered in "
          "any order; five registries with the library's and a user's vptr policy; "
          "after each initialization all ids are hashed, looked up and used in "
          "calls, and 12 or more other ids are tried.", (16000, 25), (1000000, 500),
          assumptions=["The largest integer is not used as a type id: it marks empty "
                       "buckets.",
                       "A failed search is accepted when success is not "
                       "overwhelmingly likely."])


def h5():
    d = os.path.join(VERIF, "h5")
    # (forking is ten times slower with AddressSanitizer)
    return core.build("h5", [os.path.join(d, f) for f in sorted(os.listdir(d))
                             if f.endswith(".cpp")],
                      flags=[f for f in CLANG_O0 if "sanitize" not in f],
                      link=["clang++", "-rdynamic"])


pbt_check("C14", h5, "Each case is a history of 2 to 17 operations (initialize, finalize, "
          "change the registration, set a handler, seven kinds of use) on one to three of "
          "eleven registries; errors that end the program happen in a child process.",
          (30000, 25), (1000000, 500),
          assumptions=["The descriptions must contain the names of the classes, or the "
                       "words shown in the documentation; the rest of the text is free."])
pbt_check("C19", lambda: h1(ALL + ["map", "map_chk_ind"]), "Each case draws two to four registries and a "
          "world for each (often the same classes and type ids), then 3 to 12 steps "
          "(initialize, finalize, fail to initialize, register, unregister); all the "
          "registries that are initialized are called completely after each step.",
          (14000, 25), (700000, 500), assumptions=A_H1)


def h7():
    d = os.path.join(VERIF, "h7")
    return core.build("h7", [os.path.join(d, f) for f in sorted(os.listdir(d))
                             if f.endswith(".cpp")],
                      flags=[f.replace("address", "thread") for f in core.CLANG],
                      link=["clang++", "-fsanitize=thread", "-rdynamic"])


pbt_check("C24", h7, "Each case draws one or two phases; each initializes one or two of eight "
          "registries, then runs two to four threads that make 1 to 12 operations of 16 kinds on "
          "the same objects in the same registries (calls of all forms, next, virtual_ptrs made, "
          "copied and cast, errors), while others initialize and finalize other registries. The "
          "binary is built with ThreadSanitizer; the results are compared with those of the same "
          "operations made afterwards by one thread.",
          (60000, 25), (3000000, 500), assumptions=[
              "Error handlers and streams of the user are not shared between threads, or do "
              "nothing."])


# ------------------------------------------------------ generated programs
def program_check(pid, kit, cases, quick, thorough, rule, assumptions=()):
    """quick / thorough: (programs, seconds)."""
    def run(res, tier, seed, tmp):
        n, secs = quick if tier == "quick" else thorough
        programs.run(kit, pid, res, seed, n, secs, tmp, rule=rule)

    CHECKS[pid] = dict(run=run, replay=lambda path: programs.replay(kit, path),
                       build=kit.prepare, cases=cases, assumptions=list(assumptions))


program_check("C16", programs.Kit("h3", modes=("c++17", "c++20", "release", "gcc")),
              "Each case is a call in a generated program (3 to 9 classes with multiple "
              "and virtual inheritance, 5 to 9 methods with parameters and results of 66 "
              "kinds, 1 to 4 overriders that check everything they receive and forward it "
              "to next), in one of seven registries, with real or custom rtti.",
              (400, 50), (20000, 560),
              "calls that differ by registry, API, kinds of parameters and results, ways "
              "of passing them, casts needed, or length of the chain of overriders")

program_check("C22", programs.Kit("h3", "tu", modes=("c++17", "c++20", "checks",
                                                     "other default", "gcc")),
              "Each case is a call in a generated program of 2 to 4 translation units that "
              "use the macros: classes, methods and overriders in up to four namespaces, "
              "methods with the same name, overriders declared, defined or inline in headers "
              "included by several files, classes and methods of one file, friends, two "
              "registries.",
              (400, 50), (20000, 560),
              "calls that differ by compiler mode, form of the call, kinds of parameters, "
              "number of methods of that name, namespaces, kind of overrider, length of the "
              "chain of overriders",
              [])

program_check("C23", programs.Kit("h3", "dl", modes=("dl", "dl gcc"), link=["-rdynamic", "-ldl"]),
              "Each case is a history of 40 steps (dlopen, dlclose, initialize, finalize, make "
              "and destroy objects and virtual_ptrs) with calls after each, of a generated "
              "program and one to three libraries that share classes, methods and overriders, "
              "in one of six registries.",
              (300, 50), (20000, 560), "histories of different programs", [])

program_check("C21", programs.Kit("h3", "pol", modes=("c++17", "c++20", "gcc")),
              "Each case is a registry in a generated program: a chain of with and without "
              "applied to a library registry, to a list of policies, or to another registry; "
              "25 policies, of the library and of the user, in nine categories. All the "
              "results are compared with a model; two in each program are also used: "
              "initialized, called, traced, made to fail, finalized.",
              (400, 40), (20000, 560),
              "registries with at least one operation that differ by operations or policies",
              [])

program_check("C27", programs.Kit("h3", "rtti", modes=("c++17", "c++20", "gcc", "release")),
              "Each case is a call in a generated program with an object system of its own: 3 "
              "to 9 classes, ids of three forms (constant, or assigned when main starts), an rtti "
              "policy with or without dynamic_type, type_name, type_index and dynamic_cast_ref, "
              "v-tables found by vptr_vector, with or without hash, vptr_map, "
              "boost_openmethod_vptr or final constructs, and 2 to 5 methods with parameters of "
              "10 kinds; the errors of the calls without a best overrider, of objects of "
              "classes that are not registered, and of incorrect final constructs are checked.",
              (400, 50), (20000, 560),
              "calls that differ by rtti policy, registry, kinds of parameters, ways of passing "
              "them, or outcome",
              ["One registry per program."])


# ------------------------------------------------------------- compile time
TYPING = ["clang++ c++17", "clang++ c++20", "clang++ c++17", "g++ c++17"]


def typing_run(res, tier, seed, tmp):
    n, secs = (320, 100) if tier == "quick" else (12000, 600)
    typing.run("C25", res, seed, n, 30, secs, tmp, TYPING,
               "items that differ by form, registry, API, mistake, kind of the parameter "
               "concerned and of the others")


CHECKS["C25"] = dict(
    run=typing_run, replay=typing.replay, build=lambda: [typing.prepare(m) for m in set(TYPING)],
    cases="Each case is a small program, compiled: a method with 1 to 4 parameters of 25 kinds, "
          "an overrider and a call; a list of classes; a conversion between virtual_ptrs, smart "
          "pointers, objects and pointers of eleven classes; embedded v-table pointers; casts; "
          "virtual_ptrs to objects of known type; a registry with static_rtti; the "
          "library's headers, in any order. Each is correct, or has one of 20 kinds of "
          "mistakes; then the same one without the mistake is also compiled. Conversions are "
          "compared with a model of those that exist.",
    assumptions=["A program with one mistake counts as rejected when its compilation fails, "
                 "whatever the message."])
