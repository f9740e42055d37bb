"""Generates programs that use the rtti system of a user (C27).

Which functions the rtti policy has, what the type ids are and when they are known
varies, within what the documentation (custom_rtti.adoc) says can be omitted."""
import copy
import importlib.util
import os
import random

_spec = importlib.util.spec_from_file_location(
    "h3_gen_base", os.path.join(os.path.dirname(os.path.abspath(__file__)), "gen.py"))
_gen = importlib.util.module_from_spec(_spec)
_spec.loader.exec_module(_gen)
Hierarchy, gen_hierarchy, dispatch, next_of = (
    _gen.Hierarchy, _gen.gen_hierarchy, _gen.dispatch, _gen.next_of)
applicable = _gen.applicable

# kind: (parameter of the method, of the overrider, object, smart pointer, virtual_ptr)
KINDS = {
    "vp": ("bom::virtual_ptr<%s, Reg>", "bom::virtual_ptr<%s, Reg>", "*%s", 0, 1),
    "vpc": ("const bom::virtual_ptr<%s, Reg>&", "const bom::virtual_ptr<%s, Reg>&", "*%s", 0, 1),
    "vs": ("bom::shared_virtual_ptr<%s, Reg>", "bom::shared_virtual_ptr<%s, Reg>", "*%s", 1, 1),
    "vsc": ("const bom::shared_virtual_ptr<%s, Reg>&",
            "const bom::shared_virtual_ptr<%s, Reg>&", "*%s", 1, 1),
    "vu": ("bom::unique_virtual_ptr<%s, Reg>", "bom::unique_virtual_ptr<%s, Reg>", "*%s", 1, 1),
    "r": ("bom::virtual_<%s&>", "%s&", "%s", 0, 0),
    "rc": ("bom::virtual_<const %s&>", "const %s&", "%s", 0, 0),
    "rr": ("bom::virtual_<%s&&>", "%s&&", "%s", 0, 0),
    "p": ("bom::virtual_<%s*>", "%s*", "*%s", 0, 0),
    "sp": ("bom::virtual_<const std::shared_ptr<%s>&>", "const std::shared_ptr<%s>&",
           "*%s", 1, 0),
}


def poly(prog, h, c):
    return any(prog["poly"][b] for b in h.roots(c))


def dynamic(prog):
    """virtual_ptrs can be made from objects of any dynamic type."""
    return prog["scheme"] != "final" and prog["node_polymorphic"]


def kinds(prog, h, c):
    res = []
    for k, (_, _, _, smart, vptr) in KINDS.items():
        if smart and h.has_virtual() and not poly(prog, h, c):
            continue    # std::dynamic_pointer_cast is used
        if smart and k == "vu" and not poly(prog, h, c):
            continue    # deleted through a base
        if not vptr and prog["scheme"] == "final":
            continue
        res.append(k)
    return res


def gen_ids(r, n, kind, other):
    if kind == "small":
        pool = r.sample(range(1, 64), 3 * n)
        return [["%d" % pool[3 * i + j] for j in range(3)] for i in range(n)]
    if kind == "address":
        pool = r.sample(range(0, 4096, 8), 3 * n)
        return [["%d" % pool[3 * i + j] for j in range(3)] for i in range(n)]
    pool = set()
    while len(pool) < 3 * n:
        pool.add(r.getrandbits(r.choice([20, 40, 63])) or 1)
    pool = list(pool)
    r.shuffle(pool)
    return [["%d" % pool[3 * i + j] for j in range(3)] for i in range(n)]


def gen_program(seed):
    r = random.Random(seed)
    scheme = r.choice(["dynamic"] * 5 + ["final"] * 2 + ["function"] * 3)
    h = gen_hierarchy(r, True)
    n = h.n
    prog = dict(mode=r.choice(["c++17"] * 4 + ["c++20", "c++20", "gcc", "release"]), seed=seed,
                bases=h.bases, mixins=h.mixins, scheme=scheme,
                poly=[r.random() < 0.5 for _ in range(n)],
                node_polymorphic=scheme == "dynamic" or r.random() < 0.5,
                deferred=r.random() < 0.3, other=r.choice(["zero", "address"]),
                checks=r.random() < 0.5, indirect=r.random() < 0.3,
                key=r.choice(["none", "none", "long", "string", "int"]),
                names=r.random() < 0.6, cast=h.has_virtual() or r.random() < 0.4,
                output=r.random() < 0.4, first=r.randrange(2), methods=[],
                stock=False, again=r.random() < 0.5, finalize=r.random() < 0.5)
    prog["vptr"] = r.choice(["vector", "hash", "map"] if scheme == "dynamic" else
                            ["none", "vector", "hash", "map"])
    # the library's own minimal policy
    if scheme == "final" and not prog["deferred"] and not h.has_virtual() and r.random() < 0.3:
        prog.update(stock=True, node_polymorphic=False, key="none", names=False, cast=False,
                    vptr=r.choice(["none", "hash", "map"]))
    idk = "small" if prog["vptr"] == "vector" else r.choice(["small", "address", "random"])
    prog["idk"] = idk
    prog["ids"] = [gen_ids(r, n, idk, prog["other"]) for _ in range(2)]
    # other ids of the same classes
    prog["aliases"] = []
    if several(prog):
        prog["aliases"] = sorted(r.sample(range(n), r.randint(1, n)))
    # a class that is not registered
    leaves = [c for c in range(n) if h.derived(c) == [c] and h.bases[c]]
    prog["unregistered"] = r.choice(leaves) if leaves and scheme == "dynamic" and \
        prog["vptr"] != "vector" and prog["checks"] and r.random() < 0.7 else None
    prog["order"] = r.sample([c for c in range(n) if c != prog["unregistered"]],
                             n - (prog["unregistered"] is not None))
    for i in range(r.randint(2, 5)):
        prog["methods"].append(gen_method(r, prog, h, i))
    return prog


def several(prog):
    """Classes may have several ids."""
    return prog["key"] != "none" and not prog["deferred"]


def gen_method(r, prog, h, i):
    any_sel = lambda: r.randrange(3) if several(prog) else prog["first"]
    known = lambda cs: [c for c in cs if c != prog["unregistered"]]
    params = []
    for _ in range(r.choice([1, 1, 2, 2, 3])):
        c = r.choice(known(range(h.n)))
        if r.random() < 0.5:
            c = r.choice(h.roots(c))
        params.append(dict(cls=c, kind=r.choice(kinds(prog, h, c))))
    m = dict(id=i, params=params, over=[], calls=[], sel=any_sel())
    seen = set()
    for _ in range(r.randint(1, 5)):
        ps = tuple(r.choice(known(h.derived(p["cls"]))) for p in params)
        if ps not in seen:
            seen.add(ps)
            m["over"].append(dict(params=list(ps), next=False, sel=any_sel()))
    for _ in range(r.randint(3, 8)):
        if r.random() < 0.5:
            args = [r.choice(known(h.derived(c))) for c in r.choice(m["over"])["params"]]
        else:
            args = [r.choice(known(h.derived(p["cls"]))) for p in params]
        call = dict(args=args, forms=[r.randrange(60) for _ in args], stat=[], sels=[])
        for a, p in zip(args, params):
            call["stat"].append(r.choice([s for s in range(h.n) if h.derives(a, s) and
                                          h.derives(s, p["cls"])]))
            call["sels"].append(r.randrange(2) if a in prog["aliases"] else prog["first"])
        m["calls"].append(call)
    # next, where the answer does not depend on the arguments (see C03)
    for k, o in enumerate(m["over"]):
        if r.random() < 0.5 or any(p["kind"] == "rr" for p in params):
            continue
        nx = next_of(h, m, k)
        if nx is not None and all(dispatch(h, m, c["args"], without=k) == nx for c in m["calls"]
                                  if k in applicable(h, m, c["args"])):
            o["next"] = True
    return m


def chain(h, m, args):
    k = dispatch(h, m, args)
    if k is None:
        return None
    res = [k]
    while m["over"][k]["next"]:
        k = next_of(h, m, k)
        if k is None or k in res:
            return None
        res.append(k)
    return res


# ------------------------------------------------------------------ emission
def emit(prog):
    h = Hierarchy(prog["bases"], prog["mixins"])
    n = h.n
    out = ['#include "rtti.hpp"', ""]
    w = out.append
    for c in range(n):
        bs = (["ct::Pad<%d>" % c] if h.mixins[c] else []) + [
            ("virtual " if v else "") + "K%d" % b for b, v in h.bases[c]]
        w("struct K%d%s {" % (c, " : " + ", ".join(bs) if bs else ""))
        w("    static constexpr int number = %d;" % c)
        if not h.bases[c]:
            w("    ct::Node node;")
            if prog["poly"][c]:
                w("    virtual ~K%d() = default;" % c)
        w("    long data%d = %d;" % (c, c))
        w("    K%d() {" % c)
        for b in h.roots(c):
            w("        %snode = {ct::id(number), this};" % ("" if b == c else "K%d::" % b))
        w("        ct::last = this;")
        w("    }")
        w("    const ct::Node& node_of() const {")
        w("        return %snode;" % ("" if not h.bases[c] else "K%d::" % h.roots(c)[0]))
        w("    }")
        w("};")
    w("namespace ct {")
    w("const int n_classes = %d;" % n)
    w("const bool addresses = %s;" % ("true" if prog["idk"] == "address" else "false"))
    w("bool assigned = %s;" % ("false" if prog["deferred"] else "true"))
    w("int sel = %d;" % prog["first"])
    w("const std::uintptr_t table[max_rounds][max_classes][max_ids] = {")
    for ids in prog["ids"]:
        w("    {%s}," % ", ".join("{%s}" % ", ".join(x + "u" for x in row) for row in ids))
    w("};")
    w("const Up up[max_classes][max_classes] = {")
    for c in range(n):
        w("    {%s}," % ", ".join("up_fn<K%d, K%d>" % (c, b) if h.derives(c, b) else "nullptr"
                                  for b in range(n)))
    w("};")
    w("}")
    w("")
    if prog["stock"]:
        rtti = "pol::static_rtti"
    else:
        rtti = "user_rtti"
        emit_rtti(prog, w)
    pols = [rtti, "pol::throw_error_handler"]
    pols += {"none": [], "vector": ["pol::vptr_vector"], "map": ["pol::vptr_map<>"],
             "hash": ["pol::vptr_vector", "pol::fast_perfect_hash"]}[prog["vptr"]]
    pols += ["pol::runtime_checks"] * prog["checks"] + ["pol::indirect_vptr"] * prog["indirect"]
    pols += ["pol::stderr_output"] * prog["output"]
    w("struct Reg : bom::registry<%s> {};" % ", ".join(pols))
    if prog["scheme"] == "function":
        # (in K0's namespace)
        w("const bom::vptr_type& vptr_of(tid id) {")
        w("    switch (ct::number_of(id)) {")
        for c in prog["order"]:
            w("    case %d: return Reg::static_vptr<K%d>;" % (c, c))
        w("    }")
        w('    rt::fail("unknown id");')
        w("}")
        for c in range(n):
            w("%s boost_openmethod_vptr(const K%d& k, Reg*) {" % (
                "const bom::vptr_type&" if prog["indirect"] else "bom::vptr_type", c))
            w("    return vptr_of(k.node_of().id);")
            w("}")
    w("")
    regs = [prog["first"], 1 - prog["first"]]
    w("static ct::Sel sel_a(%d);" % regs[0])
    w("static bom::use_classes<%s, Reg> classes_a;" % ", ".join("K%d" % c for c in prog["order"]))
    al = [c for c in prog["order"] if c in prog["aliases"]]
    if al:
        w("static ct::Sel sel_b(%d);" % regs[1])
        w("static bom::use_classes<%s, Reg> classes_b;" % ", ".join("K%d" % c for c in al))
    for m in prog["methods"]:
        emit_method(prog, h, m, w)
    w("void calls() {")
    for m in prog["methods"]:
        for i, c in enumerate(m["calls"]):
            emit_call(prog, h, m, i, c, w)
    emit_more(prog, h, w)
    w("}")
    w("")
    w("int main() {")
    if prog["output"]:
        w('    if (!freopen("err.txt", "w", stderr)) return 2;')
    w('    rt::begin("static initialization");')
    if prog["deferred"]:
        w('    RT_CHECK(ct::unassigned == 0, "type ids read before initialize");')
        w("    ct::assigned = true;")
    w("    ct::sel = %d;" % prog["first"])
    w('    rt::begin("initialize");')
    w("    bom::initialize<Reg>(%s);" % ("bom::trace(true)" if prog["output"] else ""))
    if prog["output"] and prog["names"]:
        for c in prog["order"]:
            w("    ct::traced(%d);" % c)
    w("    calls();")
    if prog["again"]:
        if prog["finalize"]:
            w("    bom::finalize<Reg>();")
        if prog["deferred"]:
            w("    ct::round = 1;")
        w("    ct::sel = %d;" % prog["first"])
        w('    rt::begin("initialize again");')
        w("    bom::initialize<Reg>();")
        w("    calls();")
    w('    printf("calls %d\\n", rt::calls);')
    w("    return 0;")
    w("}")
    return {"main.cpp": "\n".join(out) + "\n"}


def emit_rtti(prog, w):
    key = prog["key"]
    w("struct user_rtti : pol::%s {" % ("deferred_static_rtti" if prog["deferred"] else "rtti"))
    w("    template<class Registry>")
    w("    struct fn : defaults {")
    w("        template<class C>")
    w("        static constexpr bool is_polymorphic = %s;" % (
        "ct::has_number<C>::value" if prog["node_polymorphic"] else "false"))
    w("        template<class C>")
    w("        static auto static_type() -> bom::type_id {")
    w("            return ct::static_id<%s, C>();" % ("true" if prog["other"] == "zero" else "false"))
    w("        }")
    if prog["scheme"] == "dynamic":
        w("        template<class C>")
        w("        static auto dynamic_type(const C& c) -> bom::type_id {")
        w("            return ct::dynamic_id(c);")
        w("        }")
    if prog["names"]:
        w("        template<class S>")
        w("        static auto type_name(bom::type_id id, S& os) -> void {")
        w("            os << ct::name(ct::number_of(id)).c_str();")
        w("        }")
    if key == "long":
        w("        static auto type_index(bom::type_id id) -> long {")
        w("            int n = ct::number_of(id);")
        w("            return n < 0 ? long(id) + 1000 : n;")
        w("        }")
    if key == "int":
        w("        static auto type_index(bom::type_id id) -> int {")
        w("            return ct::number_of(id);")
        w("        }")
    if key == "string":
        w("        static auto type_index(bom::type_id id) -> std::string {")
        w("            return ct::name(ct::number_of(id));")
        w("        }")
    if prog["cast"]:
        w("        template<class D, class B>")
        w("        static auto dynamic_cast_ref(B&& b) -> D {")
        w("            return ct::dynamic_cast_ref<D>(b);")
        w("        }")
    w("    };")
    w("};")


def emit_method(prog, h, m, w):
    i = m["id"]
    w("")
    w("struct M%d_id;" % i)
    w("static ct::Sel sel_m%d(%d);" % (i, m["sel"]))
    w("using M%d = bom::method<M%d_id, int(%s), Reg>;" % (
        i, i, ", ".join(KINDS[p["kind"]][0] % ("K%d" % p["cls"]) for p in m["params"])))
    w("static auto& use_m%d = M%d::fn;" % (i, i))
    for k, o in enumerate(m["over"]):
        w("static int o%d_%d(%s)%s {" % (
            i, k, ", ".join("%s a%d" % (KINDS[p["kind"]][1] % ("K%d" % c), j)
                            for j, (p, c) in enumerate(zip(m["params"], o["params"]))), ""))
        w("    rt::entered.push_back(%d);" % k)
        for j, p in enumerate(m["params"]):
            w("    ct::arg(%d, %s);" % (j, KINDS[p["kind"]][2] % ("a%d" % j)))
        if o["next"]:
            w("    return 100 + M%d::next<o%d_%d>(%s);" % (i, i, k, ", ".join(
                ("std::move(a%d)" if p["kind"] == "vu" else "a%d") % j
                for j, p in enumerate(m["params"]))))
        else:
            w("    return %d;" % k)
        w("}")
        w("static ct::Sel sel_o%d_%d(%d);" % (i, k, o["sel"]))
        w("static M%d::override<o%d_%d> reg_o%d_%d;" % (i, i, k, i, k))


def argument(prog, kind, form, j, a, s, b):
    """(declarations, expression): object 'a' seen as 's', for parameter of class 'b'."""
    A, S, B, v = "K%d" % a, "K%d" % s, "K%d" % b, "x%d" % j
    smart, vptr = KINDS[kind][3], KINDS[kind][4]
    dyn = dynamic(prog)
    decl = []
    if kind in ("vp", "vpc"):
        decl.append("%s %s;" % (A, v))
        decl.append("ct::want[%d] = &%s;" % (j, v))
        forms = ["bom::final_virtual_ptr<Reg>(%s)" % v,
                 "bom::virtual_ptr<%s, Reg>::final(%s)" % (A, v),
                 "bom::virtual_ptr<%s, Reg>(bom::final_virtual_ptr<Reg>(%s))" % (S, v)]
        if dyn:
            forms += ["bom::virtual_ptr<%s, Reg>(static_cast<%s&>(%s))" % (S, S, v),
                      "bom::virtual_ptr<%s, Reg>(static_cast<%s*>(&%s))" % (S, S, v),
                      "static_cast<%s&>(%s)" % (S, v)]
        return decl, forms[form % len(forms)]
    if smart and vptr:
        ptr = "unique" if kind == "vu" else "shared"
        if form % 3 == 0:
            decl.append("auto %s = bom::make_%s_virtual<%s, Reg>();" % (v, ptr, A))
            decl.append("ct::want[%d] = ct::last;" % j)
            return decl, "std::move(%s)" % v
        decl.append("std::%s_ptr<%s> %s(new %s);" % (ptr, A, v, A))
        decl.append("ct::want[%d] = ct::last;" % j)
        if form % 3 == 1 or not dyn:
            return decl, "bom::final_virtual_ptr<Reg>(std::move(%s))" % v
        return decl, "bom::virtual_ptr<std::%s_ptr<%s>, Reg>(std::%s_ptr<%s>(std::move(%s)))" % (
            ptr, S, ptr, S, v)
    if kind == "sp":
        decl.append("std::shared_ptr<%s> %s = std::make_shared<%s>();" % (B, v, A))
        decl.append("ct::want[%d] = ct::last;" % j)
        return decl, v
    decl.append("%s %s;" % (A, v))
    decl.append("ct::want[%d] = &%s;" % (j, v))
    x = {"r": "static_cast<%s&>(%s)" % (S, v), "rc": "static_cast<const %s&>(%s)" % (S, v),
         "rr": "static_cast<%s&&>(%s)" % (S, v), "p": "static_cast<%s*>(&%s)" % (S, v)}[kind]
    return decl, x


def emit_call(prog, h, m, i, call, w):
    ch = chain(h, m, call["args"])
    app = applicable(h, m, call["args"])
    if app and dispatch(h, m, call["args"]) is not None and ch is None:
        return
    w("    {")
    w('        rt::begin("method %d, call %d (%s)");' % (
        m["id"], i, ", ".join("K%d" % a for a in call["args"])))
    exprs = []
    for j, (p, a, s, sel, form) in enumerate(zip(m["params"], call["args"], call["stat"],
                                                 call["sels"], call["forms"])):
        w("        ct::sel = %d;" % sel)
        decl, x = argument(prog, p["kind"], form, j, a, s, p["cls"])
        for d in decl:
            w("        " + d)
        exprs.append(x)
    w("        ct::sel = %d;" % prog["first"])
    e = "M%d::fn(%s)" % (m["id"], ", ".join(exprs))
    if ch is not None:
        w("        int r = %s;" % e)
        w("        rt::end({%s});" % ", ".join(map(str, ch)))
        w('        RT_CHECK(r == %d, "result");' % (100 * (len(ch) - 1) + ch[-1]))
    else:
        types = ["ct::get(%d, %d)" % (a, s) for a, s in zip(call["args"], call["sels"])] \
            if prog["scheme"] == "dynamic" else []
        w("        ct::fails([&] { %s; }, ct::%s, %d, {%s}, Reg::rtti::static_type<M%d>(), %s);" % (
            e, "ambiguous" if app else "missing", len(call["args"]), ", ".join(types), m["id"],
            "true" if prog["names"] else "false"))
        w("        rt::end({});")
    w("    }")


def emit_more(prog, h, w):
    names = "true" if prog["names"] else "false"
    # v-table pointers
    for c in prog["order"]:
        for sel in ([0, 1] if c in prog["aliases"] else [prog["first"]]):
            w("    {")
            w('        rt::begin("virtual_ptr to K%d");' % c)
            w("        ct::sel = %d;" % sel)
            w("        K%d x;" % c)
            w("        ct::sel = %d;" % prog["first"])
            w("        auto f = bom::final_virtual_ptr<Reg>(x);")
            w('        RT_CHECK(f.get() == &x && f.vptr() == Reg::static_vptr<K%d>, "final");' % c)
            for b in range(h.n):
                if h.derives(c, b) and b != prog["unregistered"]:
                    w("        bom::virtual_ptr<K%d, Reg> f%d = f;" % (b, b))
                    if dynamic(prog):
                        w("        bom::virtual_ptr<K%d, Reg> v%d = static_cast<K%d&>(x);" % (
                            b, b, b))
                        w('        RT_CHECK(v%d.vptr() == f.vptr(), "v-table");' % b)
                        w("        f%d = v%d;" % (b, b))
                    w('        RT_CHECK(f%d.get() == &x && f%d.vptr() == f.vptr(), "upcast");' % (
                        b, b))
                    w('        RT_CHECK(f%d.template cast<K%d>().get() == &x, "cast");' % (b, c))
                    if prog["scheme"] == "dynamic" and prog["checks"] and b != c:
                        w("        ct::fails([&] { bom::final_virtual_ptr<Reg>("
                          "static_cast<K%d&>(x)); }, ct::final_, 0, "
                          "{ct::get(%d, 0), ct::get(%d, %d)}, nullptr, %s);" % (
                              b, b, c, sel, names))
            w("    }")
    u = prog["unregistered"]
    if u is not None:
        w("    {")
        w('        rt::begin("K%d is not registered");' % u)
        w("        K%d x;" % u)
        for b in range(h.n):
            if h.derives(u, b) and b != u:
                w("        ct::fails([&] { bom::virtual_ptr<K%d, Reg>(static_cast<K%d&>(x)); }, "
                  "ct::missing_class, 0, {ct::get(%d, %d)}, nullptr, %s);" % (
                      b, b, u, prog["first"], names))
        w("    }")


# ---------------------------------------------------------------- description
def describe(prog):
    h = Hierarchy(prog["bases"], prog["mixins"])
    sigs, labels = set(), {}

    def label(k):
        labels[k] = labels.get(k, 0) + 1
    conf = tuple(prog[k] for k in ("scheme", "stock", "node_polymorphic", "deferred", "other",
                                   "checks", "indirect", "key", "names", "cast", "vptr", "idk"))
    for k in ("scheme", "vptr", "idk", "key", "mode", "other"):
        label("%s: %s" % (k, prog[k]))
    for k in ("stock", "deferred", "checks", "indirect", "names", "cast", "node_polymorphic"):
        if prog[k]:
            label(k)
    label("aliases" if prog["aliases"] else "one id per class")
    label("virtual inheritance" if h.has_virtual() else "no virtual inheritance")
    if prog["unregistered"] is not None:
        label("class not registered")
    n = 0
    for m in prog["methods"]:
        for c in m["calls"]:
            n += 1
            ch = chain(h, m, c["args"])
            sigs.add(repr((conf, [p["kind"] for p in m["params"]],
                           [f % 6 for f in c["forms"]], ch and len(ch))))
            label("call that fails" if ch is None else "call")
            for p in m["params"]:
                label("parameter " + p["kind"])
    sample = "%s rtti%s (%s), %s, %d classes, %s" % (
        prog["scheme"], " deferred" if prog["deferred"] else "",
        ", ".join(x for x, y in (("names", prog["names"]), ("key " + prog["key"], True),
                                 ("casts", prog["cast"]), ("aliases", prog["aliases"])) if y),
        prog["vptr"] + (", checks" if prog["checks"] else "") +
        (", indirect" if prog["indirect"] else ""), h.n,
        "; ".join("M%d(%s): %d overriders, %d calls" % (
            m["id"], ", ".join("%s K%d" % (p["kind"], p["cls"]) for p in m["params"]),
            len(m["over"]), len(m["calls"])) for m in prog["methods"]))
    return n, sigs, labels, sample


def smaller(prog):
    for i in range(len(prog["methods"])):
        q = copy.deepcopy(prog)
        del q["methods"][i]
        yield q
    for i, m in enumerate(prog["methods"]):
        for k in range(len(m["calls"])):
            q = copy.deepcopy(prog)
            del q["methods"][i]["calls"][k]
            yield q
        for k in range(len(m["over"])):
            q = copy.deepcopy(prog)
            del q["methods"][i]["over"][k]
            for o in q["methods"][i]["over"]:
                o["next"] = False
            if q["methods"][i]["over"]:
                yield q
    for k, v in (("again", False), ("output", False), ("indirect", False), ("checks", False),
                 ("names", False), ("mode", "c++17"), ("unregistered", None)):
        if prog[k] != v and not (k == "checks" and prog["unregistered"] is not None):
            q = copy.deepcopy(prog)
            q[k] = v
            if k == "unregistered":
                q["order"] = sorted(range(len(prog["bases"])))
            yield q
    if any(prog["mixins"]):
        q = copy.deepcopy(prog)
        q["mixins"] = [False] * len(q["mixins"])
        yield q
    used = {c for m in prog["methods"] for c in
            [p["cls"] for p in m["params"]] + [x for o in m["over"] for x in o["params"]] +
            [x for c in m["calls"] for x in c["args"] + c["stat"]]}
    n = len(prog["bases"])
    for c in reversed(range(n)):
        if c not in used and c != prog["unregistered"] and n > 1 and not any(
                b == c for bs in prog["bases"] for b, _ in bs):
            yield without_class(prog, c)


def without_class(prog, c):
    q = copy.deepcopy(prog)
    f = lambda x: x - (x > c)
    q["bases"] = [[[f(b), v] for b, v in bs] for i, bs in enumerate(prog["bases"]) if i != c]
    for k in ("mixins", "poly"):
        del q[k][c]
    for ids in q["ids"]:
        del ids[c]
    for k in ("order", "aliases"):
        q[k] = [f(x) for x in q[k] if x != c]
    if q["unregistered"] is not None:
        q["unregistered"] = f(q["unregistered"])
    for m in q["methods"]:
        for p in m["params"]:
            p["cls"] = f(p["cls"])
        for o in m["over"]:
            o["params"] = [f(x) for x in o["params"]]
        for x in m["calls"]:
            x["args"] = [f(y) for y in x["args"]]
            x["stat"] = [f(y) for y in x["stat"]]
    return q


if __name__ == "__main__":
    import sys
    for name, text in emit(gen_program(int(sys.argv[1]))).items():
        print("//==== " + name)
        print(text)
