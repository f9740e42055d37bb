"""Generates programs that load and unload libraries (C23).

The histories are drawn at run time (dl_main.hpp)."""
import copy
import random

from h3.gen import Hierarchy, gen_hierarchy

REGS = ["dl_registry", "dl_checked_registry", "dl_map_registry", "dl_indirect_registry",
        "dl_indirect_registry", "dl_indirect_checked_registry", "dl_indirect_map_registry"]
MT = {"vp": "bom::virtual_ptr<%s, Reg>", "cvp": "const bom::virtual_ptr<%s, Reg>&",
      "vpc": "bom::virtual_ptr<const %s, Reg>",
      "ref": "bom::virtual_<%s&>", "cref": "bom::virtual_<const %s&>", "ptr": "bom::virtual_<%s*>"}
OT = {"vp": MT["vp"], "cvp": MT["cvp"], "vpc": MT["vpc"], "ref": "%s&", "cref": "const %s&",
      "ptr": "%s*"}


def gen_program(seed):
    r = random.Random(seed)
    h = gen_hierarchy(r, True)
    k = r.randint(1, 3)
    glob = r.random() < 0.4
    prog = dict(mode=r.choice(["dl"] * 5 + ["dl gcc"]), reg=r.choice(REGS), bases=h.bases, k=k,
                glob=glob, deps={}, seed=seed, methods=[], over=[], reg_in=[],
                own=[r.random() < 0.3 for _ in range(k + 1)], hist=10, steps=40,
                split=r.random() < 0.5)
    if glob and k > 1 and r.random() < 0.5:
        prog["deps"][str(k)] = [1]
    # modules that register (and make) each class
    for c in range(h.n):
        s = {m for m in range(k + 1) if r.random() < (0.5 if m == 0 else 0.4)}
        prog["reg_in"].append(sorted(s or {r.randrange(k + 1)}))
    for i in range(r.randint(2, 4)):
        nv = r.choice([1, 1, 2])
        home = r.choice([0, 0, 0] + list(range(1, k + 1)))
        users = [home]
        if home == 0:
            users += [m for m in range(1, k + 1) if r.random() < 0.5]
        else:
            users += [int(m) for m, d in prog["deps"].items() if home in d and r.random() < 0.7]
        ps = []
        for _ in range(nv):
            b = r.randrange(h.n)
            if r.random() < 0.6:
                b = r.choice(h.roots(b))
            ps.append([r.choice(["vp", "vp", "cvp", "vpc", "ref", "cref", "ptr"]), b])
        prog["methods"].append(dict(params=ps, home=home, users=users))
        seen = set()
        for _ in range(r.randint(1, 6)):
            t = tuple(r.choice(h.derived(b)) if r.random() < 0.8 else b for _, b in ps)
            # the same overrider in two libraries, sometimes: an ambiguity
            mod = r.choice(users + ([m for m in range(1, k + 1)] if home == 0 else []))
            inline = home == 0 and r.random() < 0.15
            if (t, mod) in seen or inline and any(x == t for x, _ in seen):
                continue
            if any(x == t for x, _ in seen) and r.random() < 0.8:
                continue
            seen.add((t, mod))
            prog["over"].append(dict(method=i, module=0 if inline else mod, params=list(t),
                                     inline=inline, next=nv == 1 and r.random() < 0.5))
    return prog


def uses(prog):
    """Classes that each module must register, with their bases."""
    h = Hierarchy(prog["bases"], [])
    res = [set() for _ in range(prog["k"] + 1)]
    for c, ms in enumerate(prog["reg_in"]):
        for m in ms:
            res[m].add(c)
    for m in prog["methods"]:
        for u in m["users"]:
            res[u] |= {b for _, b in m["params"]}
    for o in prog["over"]:
        # (inline ones are in all the modules)
        for u in range(prog["k"] + 1) if o["inline"] else [o["module"]]:
            res[u] |= set(o["params"])
            res[u] |= {b for _, b in prog["methods"][o["method"]]["params"]}
    for s in res:
        for c in list(s):
            s |= {b for b in range(h.n) if h.derives(c, b)}
    return res


def plist(m, o=None):
    ps = m["params"]
    if o is None:
        return ", ".join((MT[k] % ("K%d" % b)) + " a%d" % j for j, (k, b) in enumerate(ps))
    return ", ".join((OT[k] % ("K%d" % c)) + " a%d" % j
                     for j, ((k, _), c) in enumerate(zip(ps, o["params"])))


def emit(prog):
    h = Hierarchy(prog["bases"], [])
    need = uses(prog)
    out = ["#pragma once", '#include "rt.hpp"', "using Reg = rt::%s;" % prog["reg"]]
    for c in range(h.n):
        bs = ["%sK%d" % ("virtual " if v else "", b) for b, v in prog["bases"][c]]
        out += ["struct K%d%s {" % (c, (" : " + ", ".join(bs)) if bs else "")]
        if not bs:
            out.append("    virtual ~K%d() = default;" % c)
        out += ["    virtual int v%d() { return %d; }" % (c, c), "    int tag%d = %d;" % (c, c),
                "};"]
    for i, m in enumerate(prog["methods"]):
        out.append("BOOST_OPENMETHOD(m%d, (%s), int, Reg);" % (i, plist(m)))

    def over(k, macro):
        o = prog["over"][k]
        m = prog["methods"][o["method"]]
        ls = ["BOOST_OPENMETHOD_%s(m%d, (%s), int) {" % (macro, o["method"], plist(m, o)),
              "    rt::entered.push_back(%d);" % k]
        for j, (kind, _) in enumerate(m["params"]):
            x = ("(%s)" if kind in ("ref", "cref") else "(*%s)") % ("a%d" % j)
            ls.append("    RT_CHECK(rt::whole(%s) == rt::want[%d] && %s.tag%d == %d, "
                      "\"overrider %d: argument %d is not the caller's\");" % (
                          x, j, x, o["params"][j], o["params"][j], k, j))
        if o["next"]:
            ls.append("    if (has_next()) next(a0);")
        return ls + ["    return %d;" % k, "}"]
    for k, o in enumerate(prog["over"]):
        if o["inline"]:
            out += over(k, "INLINE_OVERRIDE")
    files = {"all.hpp": "\n".join(out) + "\n"}
    for mod in range(prog["k"] + 1):
        out = ['#include "all.hpp"', "static rt::dl_mark<%d> mark;" % mod]
        cs = sorted(need[mod], reverse=bool(mod % 2))
        if prog["split"]:
            for c in cs:
                out.append("BOOST_OPENMETHOD_CLASSES(%s, Reg);" % ", ".join(
                    "K%d" % x for x in [c] + [b for b, _ in prog["bases"][c]]))
        elif cs:
            out.append("BOOST_OPENMETHOD_CLASSES(%s, Reg);" % ", ".join("K%d" % c for c in cs))
        # duplicates of an overrider need their own container
        out.append("namespace module%d {" % mod)
        for k, o in enumerate(prog["over"]):
            if o["module"] == mod and not o["inline"]:
                out += over(k, "OVERRIDE")
        out.append("}")
        out.append("namespace {")
        if prog["own"][mod] and mod:
            # (a registry is its policies: one of its own makes it different)
            out += ["struct own%d { using category = own%d; template<class> struct fn {}; };" % (
                        mod, mod),
                    "struct own_registry : bom::registry<pol::std_rtti, pol::vptr_vector, "
                    "pol::fast_perfect_hash, pol::throw_error_handler, pol::runtime_checks, "
                    "own%d> {};" % mod,
                    "struct A { virtual ~A() {} }; struct B : A {};",
                    "BOOST_OPENMETHOD_CLASSES(A, B, own_registry);",
                    "BOOST_OPENMETHOD(own, (bom::virtual_ptr<A, own_registry>), int, "
                    "own_registry);",
                    "BOOST_OPENMETHOD_OVERRIDE(own, (bom::virtual_ptr<A, own_registry>), int) "
                    "{ return 0; }",
                    "BOOST_OPENMETHOD_OVERRIDE(own, (bom::virtual_ptr<B, own_registry> a), int) "
                    "{ return 4000 + next(a); }"]
        for i, m in enumerate(prog["methods"]):
            if mod not in m["users"]:
                continue
            for vp in (False, True):
                if vp and any(k in ("ref", "cref", "ptr", "vpc") for k, _ in m["params"]):
                    continue
                args = []
                for j, (k, b) in enumerate(m["params"]):
                    if vp:
                        args.append("*static_cast<bom::virtual_ptr<K%d, Reg>*>(p[%d])" % (b, j))
                    else:
                        args.append(("%sstatic_cast<K%d*>(p[%d])") % (
                            "" if k == "ptr" else "*", b, j))
                out += ["int call%s%d(void** p) {" % ("_vp" if vp else "", i),
                        "    try { return m%d(%s); }" % (i, ", ".join(args)),
                        "    catch (bom::no_overrider&) { return -1; }",
                        "    catch (bom::ambiguous_call&) { return -2; }",
                        "    catch (bom::openmethod_error&) { return -3; }", "}"]
        for c in sorted(need[mod]):
            out += ["void make%d(rt::dl_object& o) {" % c, "    auto p = new K%d;" % c,
                    "    o.whole = rt::whole(*p);"]
            for b in range(h.n):
                if h.derives(c, b):
                    out.append("    o.base[%d] = static_cast<K%d*>(p);" % (b, b))
            out += ["    o.destroy = [](const void* w) { delete static_cast<const K%d*>(w); };"
                    % c, "}"]
        vpcls = sorted({b for m in prog["methods"] for k, b in m["params"]
                        if k in ("vp", "cvp") and mod in m["users"]} & need[mod]) \
            if "indirect" in prog["reg"] else []
        for b in vpcls:
            out += ["void* make_vp%d(void* p) { return new bom::virtual_ptr<K%d, Reg>("
                    "*static_cast<K%d*>(p)); }" % (b, b, b),
                    "void drop_vp%d(void* p) { delete static_cast<bom::virtual_ptr<K%d, Reg>*>"
                    "(p); }" % (b, b)]
        out.append("}")
        out.append('extern "C" rt::dl_module* dl_module_%d() {' % mod)
        out.append("    static rt::dl_module m;")
        for c in sorted(need[mod]):
            out.append("    m.make[%d] = make%d;" % (c, c))
        for b in vpcls:
            out.append("    m.make_vp[%d] = make_vp%d; m.drop_vp[%d] = drop_vp%d;" % (b, b, b, b))
        for i, m in enumerate(prog["methods"]):
            if mod in m["users"]:
                out.append("    m.call[%d] = call%d;" % (i, i))
                if not any(k in ("ref", "cref", "ptr", "vpc") for k, _ in m["params"]):
                    out.append("    m.call_vp[%d] = call_vp%d;" % (i, i))
        if prog["own"][mod] and mod:
            out += ["    m.own_initialize = [] { bom::initialize<own_registry>(); };",
                    "    m.own_finalize = [] { bom::finalize<own_registry>(); };",
                    "    m.own_call = [] { B b; return own(b) + %d; };" % mod]
        out += ["    return &m;", "}"]
        if mod == 0:
            out.append('#include "dl_main.hpp"')
            out.append("int rt::dl_loaded[16];")
            out.append("rt::dl_module* rt::dl_exe() { return dl_module_0(); }")
            out.append("namespace dl {")
            out.append("const int n_classes = %d, n_modules = %d;" % (h.n, prog["k"] + 1))
            out.append("const bool derives[][16] = {%s};" % ", ".join(
                "{%s}" % ", ".join(str(int(h.derives(d, b))) for b in range(h.n))
                for d in range(h.n)))
            out.append("const unsigned registered[] = {%s};" % ", ".join(
                str(sum(1 << m for m in range(prog["k"] + 1) if c in need[m]))
                for c in range(h.n)))
            out.append("const std::vector<Meth> methods = {%s};" % ", ".join(
                "{%d, {%s}, %s}" % (
                    sum(1 << u for u in set(m["users"])),
                    ", ".join(str(b) for _, b in m["params"]),
                    "false" if any(k in ("ref", "cref", "ptr", "vpc")
                                   for k, _ in m["params"]) else "true")
                for m in prog["methods"]))
            out.append("const std::vector<Over> overriders = {%s};" % ", ".join(
                "{%d, %d, {%s}, %s}" % (o["method"], o["module"],
                                        ", ".join(map(str, o["params"])),
                                        "true" if o["next"] else "false")
                for o in prog["over"]))
            out.append("const bool indirect = %s, global = %s;" % (
                "true" if "indirect" in prog["reg"] else "false",
                "true" if prog["glob"] else "false"))
            out.append("void initialize() { bom::initialize<Reg>(); }")
            out.append("void finalize() { bom::finalize<Reg>(); }")
            out.append("}")
            out.append("int main() { return dl::main(%d, %d, %d); }" % (
                prog["seed"] % 10000000, prog["hist"], prog["steps"]))
        files["%s.cpp" % ("main" if mod == 0 else "lib%d" % mod)] = "\n".join(out) + "\n"
    return files


def libraries(prog):
    """[(library, libraries it needs)] in the order to build them."""
    return [("lib%d" % i, ["lib%d" % d for d in prog["deps"].get(str(i), [])])
            for i in range(1, prog["k"] + 1)]


def describe(prog):
    sigs, labels = set(), {}

    def label(s, n=1):
        labels[s] = labels.get(s, 0) + n
    label("registry " + prog["reg"])
    label("mode " + prog["mode"])
    label("RTLD_GLOBAL" if prog["glob"] else "RTLD_LOCAL")
    label("libraries", prog["k"])
    if prog["deps"]:
        label("a library needs another")
    label("overriders in libraries", sum(o["module"] > 0 for o in prog["over"]))
    label("methods of a library", sum(m["home"] > 0 for m in prog["methods"]))
    label("classes of several modules", sum(len(s) > 1 for s in prog["reg_in"]))
    label("steps", prog["hist"] * prog["steps"])
    for i in range(prog["hist"]):
        sigs.add((prog["seed"], i))
    return prog["hist"], {repr(s) for s in sigs}, labels, \
        "%s: %d libraries (%s), classes registered in modules %s, methods of modules %s, " \
        "overriders in modules %s; %d histories of %d steps" % (
            prog["reg"], prog["k"], "global" if prog["glob"] else "local", prog["reg_in"],
            [m["home"] for m in prog["methods"]], [o["module"] for o in prog["over"]],
            prog["hist"], prog["steps"])


def smaller(prog):
    for i in range(len(prog["over"])):
        p = copy.deepcopy(prog)
        del p["over"][i]
        yield p
    if prog["hist"] > 1:
        p = copy.deepcopy(prog)
        p["hist"] = 1
        yield p
    if prog["steps"] > 3:
        for n in (prog["steps"] // 2, prog["steps"] - 1):
            p = copy.deepcopy(prog)
            p["steps"] = n
            yield p
    if any(prog["own"]):
        p = copy.deepcopy(prog)
        p["own"] = [False] * len(p["own"])
        yield p
    for i, m in enumerate(prog["methods"]):
        if len(prog["methods"]) > 1:
            p = copy.deepcopy(prog)
            del p["methods"][i]
            p["over"] = [dict(o, method=o["method"] - (o["method"] > i))
                         for o in p["over"] if o["method"] != i]
            yield p


if __name__ == "__main__":
    import sys
    for name, text in emit(gen_program(int(sys.argv[1]))).items():
        print("//==== " + name)
        print(text)
