"""Generates programs that define registries with combinations of policies (C21)."""
import copy
import random

# policy -> category
POLICIES = {
    "pol::std_rtti": "pol::rtti", "up::rtti_a": "pol::rtti", "up::rtti_d": "pol::rtti",
    "up::rtti_s": "pol::rtti", "pol::static_rtti": "pol::rtti",
    "pol::vptr_vector": "pol::vptr", "pol::vptr_map<>": "pol::vptr", "up::vptr_a": "pol::vptr",
    "up::vptr_b": "pol::vptr", "up::vptr_v": "pol::vptr",
    "pol::fast_perfect_hash": "pol::type_hash", "up::hash_a": "pol::type_hash",
    "up::hash_f": "pol::type_hash",
    "pol::default_error_handler": "pol::error_handler",
    "pol::throw_error_handler": "pol::error_handler", "up::err_a": "pol::error_handler",
    "up::err_t": "pol::error_handler",
    "pol::stderr_output": "pol::output", "up::out_a": "pol::output", "up::out_b": "pol::output",
    "pol::runtime_checks": "pol::runtime_checks", "pol::indirect_vptr": "pol::indirect_vptr",
    "up::note_a": "up::note", "up::note_b": "up::note", "up::mark": "up::mark",
}
CATEGORIES = sorted(set(POLICIES.values()))
DEFAULT = ["pol::std_rtti", "pol::vptr_vector", "pol::fast_perfect_hash",
           "pol::default_error_handler", "pol::stderr_output"]
FLAGS = ["error_handler", "output", "runtime_checks", "indirect_vptr", "vptr"]


def apply(policies, op):
    """The documented meaning of with and without."""
    res = list(policies)
    for x in op[1]:
        if op[0] == "with":
            c = POLICIES[x]
            if any(POLICIES[p] == c for p in res):
                res = [x if POLICIES[p] == c else p for p in res]
            else:
                res.append(x)
        else:
            res = [p for p in res if POLICIES[p] != x]
    return res


def base_policies(base):
    if base == "default":
        return list(DEFAULT)
    if base == "indirect":
        return DEFAULT + ["pol::indirect_vptr"]
    return list(base)


def of(policies, category):
    return next((p for p in policies if POLICIES[p] == category), None)


def runnable(ps):
    rtti, vptr, h = of(ps, "pol::rtti"), of(ps, "pol::vptr"), of(ps, "pol::type_hash")
    if rtti in (None, "pol::static_rtti"):
        return False
    return vptr not in ("pol::vptr_vector", "up::vptr_v") or h is not None or rtti == "up::rtti_s"


def gen_ops(r, n):
    ops = []
    for _ in range(n):
        if r.random() < 0.7:
            ops.append(["with", r.sample(sorted(POLICIES), r.choice([1, 1, 2, 3, 4]))])
        else:
            ops.append(["without", r.sample(CATEGORIES, r.choice([1, 1, 2, 3]))])
    return ops


def gen_program(seed):
    r = random.Random(seed)
    prog = dict(mode=r.choice(["c++17"] * 4 + ["c++20", "gcc"]), seed=seed, regs=[], run=[])
    for _ in range(r.randint(4, 9)):
        x = r.random()
        if x < 0.4:
            base = "default"
        elif x < 0.5:
            base = "indirect"
        elif x < 0.75 and prog["regs"]:
            base = r.randrange(len(prog["regs"]))
        else:
            base = [r.choice([p for p in sorted(POLICIES) if POLICIES[p] == c])
                    for c in r.sample(CATEGORIES, r.randint(1, len(CATEGORIES)))]
        prog["regs"].append(dict(base=base, ops=gen_ops(r, r.choice([0, 1, 1, 2, 3]))))
    # two that can be used, made so by the last operations
    for _ in range(2):
        ops = gen_ops(r, r.choice([1, 1, 2]))
        reg = dict(base=r.choice(["default", "indirect", r.randrange(len(prog["regs"]))]), ops=ops)
        prog["regs"].append(reg)
        i = len(prog["regs"]) - 1
        while not runnable(policies_of(prog, i)):
            ps = policies_of(prog, i)
            if of(ps, "pol::rtti") in (None, "pol::static_rtti"):
                ops.append(["with", [r.choice(["pol::std_rtti", "up::rtti_a", "up::rtti_s",
                                               "up::rtti_d"])]])
            else:
                ops.append(r.choice([
                    ["with", ["up::hash_a"]], ["with", ["pol::fast_perfect_hash"]],
                    ["with", ["up::vptr_a"]], ["with", ["up::vptr_b"]],
                    ["with", ["pol::vptr_map<>"]], ["with", ["up::rtti_s"]]]))
        prog["run"].append(i)
    return prog


def policies_of(prog, i):
    reg = prog["regs"][i]
    ps = policies_of(prog, reg["base"]) if isinstance(reg["base"], int) \
        else base_policies(reg["base"])
    for op in reg["ops"]:
        ps = apply(ps, op)
    return ps


def flags(ps):
    vptr, err, out = of(ps, "pol::vptr"), of(ps, "pol::error_handler"), of(ps, "pol::output")
    res = []
    for yes, name in (
            ("pol::runtime_checks" in ps, "checks"), ("pol::indirect_vptr" in ps, "indirect"),
            (vptr, "has_vptr"), (vptr in ("up::vptr_a", "up::vptr_b"), "user_vptr"),
            (vptr in ("pol::vptr_vector", "up::vptr_v"), "vector_vptr"),
            ("up::hash_a" in ps, "hash_is_a"),
            (err == "pol::default_error_handler", "default_handler"),
            (err in ("pol::throw_error_handler", "up::err_t"), "throw_handler"),
            (err == "up::err_a", "user_handler"),
            (out in ("up::out_a", "up::out_b"), "user_out"),
            (out == "pol::stderr_output", "stderr_out")):
        if yes:
            res.append("up::" + name)
    return " | ".join(res) or "0"


def expression(prog, i):
    reg = prog["regs"][i]
    b = reg["base"]
    e = {"default": "bom::default_registry", "indirect": "bom::indirect_registry"}[b] \
        if isinstance(b, str) else "R%d" % b if isinstance(b, int) \
        else "bom::registry<%s>" % ", ".join(b)
    for op, xs in reg["ops"]:
        e += "::%s<%s>" % (op, ", ".join(xs))
    return e


def emit(prog):
    out = ['#include "pol.hpp"']
    for i in range(len(prog["regs"])):
        out.append("struct R%d : %s {};" % (i, expression(prog, i)))
    out += ["int main() {", '    if (!freopen("err.txt", "w", stderr)) return 2;']

    def same(i, what, expr):
        out.append('    up::same(%s, "R%d = %s: %s");' % (expr, i, expression(prog, i), what))
    for i in range(len(prog["regs"])):
        ps = policies_of(prog, i)
        for c in CATEGORIES + ["pol::deferred_static_rtti"]:
            p = of(ps, c)
            if c == "pol::deferred_static_rtti":
                p = "up::rtti_d" if "up::rtti_d" in ps else None
            want = "up::fn<R%d, %s>" % (i, p) if p else "void"
            same(i, "policy<%s>" % c, "std::is_same_v<up::found<R%d, %s>, %s>" % (i, c, want))
            if c[5:] in ("rtti", "vptr", "error_handler", "output"):
                same(i, c[5:], "std::is_same_v<typename R%d::%s, %s>" % (i, c[5:], want))
            if c[5:] in FLAGS + ["deferred_static_rtti"]:
                same(i, "has_" + c[5:], "R%d::has_%s == %s" % (
                    i, c[5:], "true" if p else "false"))
        same(i, "number of policies",
             "boost::mp11::mp_size<R%d::policy_list>::value == %d" % (i, len(ps)))
        for p in ps:
            same(i, "has " + p,
                 "boost::mp11::mp_contains<R%d::policy_list, %s>::value" % (i, p))
        # nothing changes
        for p in ps[:1]:
            same(i, "with what it has", "std::is_same_v<R%d::with<%s>, R%d::registry_type>" % (
                i, p, i))
        none = [c for c in CATEGORIES if not of(ps, c)]
        for c in none[:1]:
            same(i, "without what it does not have",
                 "std::is_same_v<R%d::without<%s>, R%d::registry_type>" % (i, c, i))
    for i in prog["run"]:
        out.append('    rt::begin("R%d = %s"); up::Run<R%d, %s>::run(%d);' % (
            i, expression(prog, i), i, flags(policies_of(prog, i)), 10 * i))
    out += ["    return 0;", "}"]
    return {"main.cpp": "\n".join(out) + "\n"}


def describe(prog):
    sigs, labels = set(), {}
    for i in range(len(prog["regs"])):
        ps = policies_of(prog, i)
        run = i in prog["run"]
        if prog["regs"][i]["ops"]:
            sigs.add(repr((prog["regs"][i]["ops"], policies_of(prog, i), run)))
        for p in ps:
            k = ("used: " if run else "defined: ") + p
            labels[k] = labels.get(k, 0) + 1
        for op, xs in prog["regs"][i]["ops"]:
            k = "%s %d" % (op, len(xs))
            labels[k] = labels.get(k, 0) + 1
    sample = ["%s R%d = %s -> %s" % ("use" if i in prog["run"] else "define", i,
                                     expression(prog, i), ", ".join(policies_of(prog, i)))
              for i in prog["run"]]
    return len(prog["regs"]), sigs, labels, "; ".join(sample)


def smaller(prog):
    n = len(prog["regs"])
    for i in range(n):
        if len(prog["run"]) and prog["run"] == [i]:
            q = copy.deepcopy(prog)
            q["run"] = []
            yield q
        if i in prog["run"] and len(prog["run"]) > 1:
            q = copy.deepcopy(prog)
            q["run"].remove(i)
            yield q
        if i not in prog["run"] and all(x["base"] != i for x in prog["regs"]) and n > 1:
            q = copy.deepcopy(prog)
            del q["regs"][i]
            for x in q["regs"]:
                if isinstance(x["base"], int) and x["base"] > i:
                    x["base"] -= 1
            q["run"] = [j - (j > i) for j in q["run"]]
            yield q
    for i in range(n):
        for k in range(len(prog["regs"][i]["ops"])):
            q = copy.deepcopy(prog)
            del q["regs"][i]["ops"][k]
            if all(runnable(policies_of(q, j)) for j in q["run"]):
                yield q
            if len(prog["regs"][i]["ops"][k][1]) > 1:
                for m in range(len(prog["regs"][i]["ops"][k][1])):
                    q = copy.deepcopy(prog)
                    del q["regs"][i]["ops"][k][1][m]
                    if all(runnable(policies_of(q, j)) for j in q["run"]):
                        yield q


if __name__ == "__main__":
    import sys
    for name, text in emit(gen_program(int(sys.argv[1]))).items():
        print("//==== " + name)
        print(text)
