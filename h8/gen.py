"""Generates small definitions, valid or with one mistake that must not compile (C25)."""
import random

REGS = ["def", "ind", "chk", "map", "thr", "ind_chk"]

# In each item: P <- A <- B <- C, and V with the virtual base A; U unrelated;
# X and Y have A as a private and as an ambiguous base; N <- NN have no virtual
# function, but M, that derives from NN, has.  I is incomplete.  S.. are like A..
# with an abstract class at the top.
CLASSES = """struct P { virtual ~P() {} }; struct A : P {}; struct B : A {}; struct C : B {};
struct V : virtual A {}; struct U { virtual ~U() {} }; class X : A {};
struct L1 : A {}; struct L2 : A {}; struct Y : L1, L2 {}; struct N {}; struct NN : N {};
struct M : NN { virtual ~M() {} }; struct I;
struct S { virtual void s() = 0; virtual ~S() {} }; struct SA : S { void s() override {} };
class SX : S { void s() override {} }; struct S1 : S {}; struct S2 : S {};
struct SY : S1, S2 { void s() override {} }; struct SV : virtual S { void s() override {} };
template<class T> void intrusive_ptr_add_ref(T*); template<class T> void intrusive_ptr_release(T*);
"""
BELOW = {"P": ["P", "A", "B", "C", "V"], "A": ["A", "B", "C", "V"], "B": ["B", "C"]}

# kind -> parameter of the method, of the overrider, an argument for it
VIRTUAL = {
    "ref": ("virt<T&>", "T&", "T&"),
    "cref": ("virt<const T&>", "const T&", "const T&"),
    "rref": ("virt<T&&>", "T&&", "T&&"),
    "ptr": ("virt<T*>", "T*", "T*"),
    "cptr": ("virt<const T*>", "const T*", "const T*"),
    "vptr": ("vptr<T, R>", "vptr<T, R>", "vptr<T, R>"),
    "vptrc": ("const vptr<T, R>&", "const vptr<T, R>&", "vptr<T, R>"),
    "cvptr": ("vptr<const T, R>", "vptr<const T, R>", "vptr<const T, R>"),
    "svptr": ("svptr<T, R>", "svptr<T, R>", "svptr<T, R>"),
    "svptrc": ("const svptr<T, R>&", "const svptr<T, R>&", "svptr<T, R>"),
    "uvptr": ("uvptr<T, R>", "uvptr<T, R>", "uvptr<T, R>"),
    "sh": ("virt<shared<T>>", "shared<T>", "shared<T>"),
    "shc": ("virt<const shared<T>&>", "const shared<T>&", "shared<T>"),
    "un": ("virt<unique<T>>", "unique<T>", "unique<T>"),
    "ivptr": ("ivptr<T, R>", "ivptr<T, R>", "ivptr<T, R>"),
    "ivptrc": ("const ivptr<T, R>&", "const ivptr<T, R>&", "ivptr<T, R>"),
    "in": ("virt<intr<T>>", "intr<T>", "intr<T>"),
    "inc": ("virt<const intr<T>&>", "const intr<T>&", "intr<T>"),
}
VPTRS = ["vptr", "vptrc", "cvptr", "svptr", "svptrc", "uvptr", "ivptr", "ivptrc"]
PLAIN = {
    "int": ["long", "int&", "const int&", "unsigned", "char", "bool"],
    "const std::string&": ["std::string", "std::string&", "std::string&&", "const char*"],
    "double*": ["const double*", "double", "void*", "double&"],
    "U&": ["const U&", "U*", "U&&"],
    "shared<int>": ["const shared<int>&", "unique<int>", "shared<const int>"],
    "unique<int>": ["unique<int>&", "shared<int>", "unique<int>&&"],
    "int (*)(int)": ["int (*)(long)", "long (*)(int)"],
}
# what may not stand in an overrider for such a parameter
WRONG = {
    "ref": ["T*", "T&&", "vptr<T, R>", "virt<T&>", "shared<T>", "const T*"],
    "cref": ["T&", "T*", "T&&", "const T*", "vptr<T, R>", "virt<const T&>"],
    "rref": ["T&", "T*", "const T&", "vptr<T, R>"],
    "ptr": ["T&", "T&&", "const T&", "shared<T>", "virt<T*>", "unique<T>"],
    "cptr": ["T*", "T&", "const T&", "shared<T>"],
    "vptr": ["T&", "T*", "const vptr<T, R>&", "vptr<T, R>&", "vptr<T, R>&&", "svptr<T, R>",
             "uvptr<T, R>", "virt<T&>", "const svptr<T, R>&", "shared<T>"],
    "vptrc": ["T&", "T*", "vptr<T, R>", "vptr<T, R>&", "const svptr<T, R>&", "svptr<T, R>"],
    "cvptr": ["vptr<T, R>", "const vptr<const T, R>&", "const T&", "svptr<const T, R>"],
    "svptr": ["vptr<T, R>", "uvptr<T, R>", "const svptr<T, R>&", "shared<T>", "svptr<T, R>&",
              "T&"],
    "svptrc": ["vptr<T, R>", "svptr<T, R>", "const vptr<T, R>&", "const shared<T>&",
               "svptr<T, R>&", "const uvptr<T, R>&"],
    "uvptr": ["vptr<T, R>", "svptr<T, R>", "unique<T>", "const uvptr<T, R>&", "uvptr<T, R>&"],
    "sh": ["unique<T>", "shared<T>&", "T&", "T*", "svptr<T, R>"],
    "shc": ["shared<T>&", "T&", "unique<T>", "T*", "const svptr<T, R>&"],
    "un": ["T&", "unique<T>&", "T*", "uvptr<T, R>"],
    "ivptr": ["vptr<T, R>", "uvptr<T, R>", "svptr<T, R>", "const ivptr<T, R>&", "intr<T>",
              "ivptr<T, R>&", "T*"],
    "ivptrc": ["vptr<T, R>", "ivptr<T, R>", "const vptr<T, R>&", "const intr<T>&",
               "ivptr<T, R>&", "const svptr<T, R>&"],
    "in": ["unique<T>", "intr<T>&", "T&", "T*", "svptr<T, R>", "shared<T>"],
    "inc": ["intr<T>&", "T&", "shared<T>", "T*", "const svptr<T, R>&"],
}
# arguments that may not be passed ("O": another registry)
WRONG_ARG = {
    "ref": ["const T&", "T", "U&", "T*", "N&", "X&", "Y&"],
    "cref": ["U&", "T*", "N&", "const X&"],
    "rref": ["T&", "const T&", "U&&", "T*"],
    "ptr": ["const T*", "U*", "T&", "X*", "Y*"],
    "cptr": ["U*", "T&", "const N*"],
    "vptr": ["const T&", "U&", "U*", "const T*", "vptr<T, O>", "vptr<U, R>", "vptr<const T, R>",
             "svptr<const T, R>", "svptr<U, R>", "shared<T>", "std::nullptr_t", "X&", "Y&", "N&"],
    "vptrc": ["const T&", "U&", "U*", "const T*", "vptr<T, O>", "vptr<U, R>", "vptr<const T, R>",
              "svptr<T, O>", "unique<T>", "X*", "Y*"],
    "cvptr": ["U&", "const U*", "vptr<T, O>", "vptr<U, R>", "svptr<const U, R>", "Y&"],
    "svptr": ["T&", "T*", "vptr<T, R>", "uvptr<T, R>", "svptr<const T, R>", "svptr<T, O>",
              "svptr<U, R>", "shared<U>", "shared<const T>", "svptr<X, R>", "shared<Y>"],
    "svptrc": ["T&", "T*", "vptr<T, R>", "uvptr<T, R>", "svptr<const T, R>", "svptr<T, O>",
               "svptr<U, R>", "shared<U>", "shared<X>"],
    "uvptr": ["T&", "T*", "vptr<T, R>", "svptr<T, R>", "uvptr<T, R>&", "uvptr<T, O>",
              "uvptr<U, R>", "unique<T>&", "unique<const T>", "uvptr<Y, R>"],
    "sh": ["T&", "T*", "unique<U>", "shared<U>", "shared<const T>", "shared<X>"],
    "shc": ["T&", "T*", "shared<U>", "shared<const T>", "shared<Y>"],
    "un": ["T&", "T*", "unique<T>&", "shared<T>", "unique<U>", "unique<const T>"],
    "ivptr": ["T&", "vptr<T, R>", "svptr<T, R>", "ivptr<const T, R>", "ivptr<T, O>",
              "ivptr<U, R>", "intr<U>", "intr<const T>", "ivptr<X, R>", "intr<Y>"],
    "ivptrc": ["T&", "vptr<T, R>", "uvptr<T, R>", "ivptr<const T, R>", "ivptr<T, O>",
               "ivptr<U, R>", "intr<U>", "intr<X>"],
    "in": ["T&", "unique<U>", "shared<T>", "intr<U>", "intr<const T>", "intr<X>"],
    "inc": ["T&", "shared<T>", "intr<U>", "intr<const T>", "intr<Y>"],
}
RETURNS = {
    "void": (["void"], ["int", "A*"]),
    "int": (["int"], ["std::string", "void", "A&", "int*"]),
    "std::string": (["std::string"], ["void", "A", "double*", "std::string*"]),
    "A&": (["A&", "B&", "V&"], ["U&", "P&", "const A&", "A", "A*", "X&", "Y&"]),
    "A*": (["A*", "B*", "C*"], ["U*", "P*", "const A*", "A&", "X*", "Y*", "void*"]),
    "const A&": (["const A&", "A&", "const B&"], ["U&", "const P&", "A*", "const X&"]),
    "unique<A>": (["unique<A>", "unique<B>"], ["unique<U>", "unique<P>", "shared<A>", "A*"]),
    "shared<A>": (["shared<A>", "shared<C>", "unique<A>"], ["shared<U>", "shared<P>", "A*"]),
    "intr<A>": (["intr<A>", "intr<B>", "A*"], ["intr<U>", "intr<P>", "shared<A>"]),
    "ivptr<A, R>": (["ivptr<A, R>", "ivptr<C, R>", "intr<B>"],
                    ["ivptr<U, R>", "ivptr<P, R>", "vptr<A, R>", "svptr<A, R>", "ivptr<A, O>"]),
    "vptr<A, R>": (["vptr<A, R>", "vptr<B, R>", "svptr<A, R>"],
                   ["vptr<U, R>", "vptr<P, R>", "vptr<const A, R>", "vptr<A, O>"]),
}


def sub(text, cls, reg, other):
    import re
    return re.sub(r"\b[TRO]\b", lambda m: {"T": cls, "R": "regs::" + reg,
                                           "O": "regs::" + other}[m.group(0)], text)


def definition(r, valid):
    """A method, an overrider and a call."""
    s = dict(form="definition", reg=r.choice(REGS), api=r.choice(["core", "core", "macro"]),
             params=[], ret=r.choice(sorted(RETURNS)), wrong=None)
    s["other"] = r.choice([x for x in REGS if x != s["reg"]])
    n = r.choice([1, 1, 2, 2, 3, 4])
    for i in range(n):
        if r.random() < 0.35:
            s["params"].append([r.choice(sorted(PLAIN)), None, None])
        else:
            m = r.choice(["A", "A", "P", "B"])
            s["params"].append([r.choice(sorted(VIRTUAL)), m, r.choice(BELOW[m])])
    if all(p[1] is None for p in s["params"]):
        s["params"][r.randrange(n)] = ["ref", "A", r.choice(BELOW["A"])]
    s["oret"] = r.choice(RETURNS[s["ret"]][0])
    if valid:
        return s
    i = r.randrange(n)
    kind, m, o = s["params"][i]
    virtuals = [k for k in range(n) if s["params"][k][1]]
    options = ["overrider arity", "result", "call arity"] * 2 + ["no virtual parameter"]
    if m is None:
        options += ["plain parameter"] * 8
    else:
        options += ["category"] * 7 + ["argument"] * 7 + ["virtual by value", "not polymorphic"]
        if kind in VPTRS or s["api"] == "macro":
            options += ["class"] * 6
        if kind in VPTRS:
            options += ["overrider registry"] * 3 + ["method registry"] * 3
        if kind in ("sh", "shc", "svptr", "svptrc", "in", "inc"):
            options += ["shared by reference"] * 3
    if s["api"] == "macro":
        options += ["no such method"]
    w = r.choice(options)
    s["wrong"] = [w, i]
    if w == "plain parameter":
        s["wrong"].append(r.choice(PLAIN[kind]))
    elif w == "category":
        s["wrong"].append(r.choice(WRONG[kind]))
    elif w == "argument":
        s["wrong"].append(r.choice(WRONG_ARG[kind]))
    elif w == "class":
        s["wrong"].append(r.choice(["U", "X", "Y"] + (["P"] if m != "P" else []) +
                                   (["A"] if m == "B" else [])))
        if s["wrong"][2] in "XY" and m != "P":
            s["params"][i][1:] = ["A", "B"]
    elif w == "result":
        s["wrong"].append(r.choice(RETURNS[s["ret"]][1]))
    elif w == "overrider arity":
        s["wrong"].append(r.choice(["less", "more"]))
    elif w == "call arity":
        s["wrong"].append(r.choice(["less", "more"]))
    elif w == "no virtual parameter":
        s["api"] = "core"
        for k in virtuals:
            s["params"][k] = [r.choice(sorted(PLAIN)), None, None]
    return s


def emit_definition(s):
    reg, other = s["reg"], s["other"]
    w = s["wrong"] or [None, -1]

    def t(text, cls="A"):
        return sub(text, cls, reg, other)
    mp, op, args = [], [], []
    for i, (kind, m, o) in enumerate(s["params"]):
        here = i == w[1]
        if m is None:
            mp.append(kind)
            op.append(w[2] if here and w[0] == "plain parameter" else kind)
            args.append("get<%s>()" % kind)
            continue
        pm, po, pa = VIRTUAL[kind]
        if here and w[0] == "virtual by value":
            mp.append(t("virt<T>", m))
            op.append(t("T", o))
            args.append(t("get<T&>()", o))
            continue
        if here and w[0] == "not polymorphic":
            k = kind if kind not in VPTRS else "ref"
            pm, po, pa = VIRTUAL[k]
            mp.append(t(pm, "N"))
            op.append(t(po, "NN"))
            args.append(t("get<%s>()" % pa, "NN"))
            continue
        if here and w[0] == "shared by reference":
            p = t({"s": "shared<T>&", "i": "intr<T>&"}[kind[0]] if "vptr" not in kind else
                  kind[0] + "vptr<T, R>&", m)
            mp.append(p if "vptr" in kind else "virt<%s>" % p)
            op.append(p)
            args.append("get<%s>()" % p)
            continue
        mp.append(t(pm, m) if not (here and w[0] == "method registry") else
                  sub(pm, m, other, reg))
        if here and w[0] == "category":
            op.append(t(w[2], o))
        elif here and w[0] == "class":
            op.append(t(po, w[2]))
        elif here and w[0] in ("overrider registry", "method registry"):
            op.append(sub(po, o, other, reg))
        else:
            op.append(t(po, o))
        if here and w[0] == "argument":
            args.append("get<%s>()" % t(w[2], o))
        elif here and w[0] == "method registry":
            args.append("get<%s>()" % sub(pa, o, other, reg))
        else:
            args.append("get<%s>()" % t(pa, o))
    if w[0] == "overrider arity":
        if w[2] == "less":
            del op[w[1]]
        else:
            op.insert(w[1], "int")
    if w[0] == "call arity":
        if w[2] == "less":
            del args[w[1]]
        else:
            args.insert(w[1], "1")
    ret, oret = t(s["ret"]), t(w[2] if w[0] == "result" else s["oret"])
    if s["api"] == "core":
        return CLASSES + """struct id; using m = bom::method<id, %s(%s), regs::%s>;
static bom::use_classes<P, A, B, C, V, regs::%s> classes;
inline %s f(%s) { throw 0; }
static m::override<f> over;
inline %s call() { return m::fn(%s); }
""" % (ret, ", ".join(mp), reg, reg, oret, ", ".join(op), ret, ", ".join(args))
    if reg == "def":
        regarg = ""
    else:
        regarg = ", regs::" + reg
    return CLASSES + """BOOST_OPENMETHOD(m, (%s), %s%s);
BOOST_OPENMETHOD_CLASSES(P, A, B, C, V%s);
BOOST_OPENMETHOD_OVERRIDE(%s, (%s), %s) { throw 0; }
inline %s call() { return m(%s); }
""" % (", ".join(mp), ret, regarg, regarg, "mm" if w[0] == "no such method" else "m",
       ", ".join(op), oret, ret, ", ".join(args))


# ------------------------------------------------------------ use_classes
def classes(r, valid):
    s = dict(form="classes", reg=r.choice(REGS), list=r.sample(["P", "A", "B", "C", "V", "U"],
                                                             r.randint(1, 5)),
             macro=r.random() < 0.3, wrong=None)
    if r.random() < 0.3:
        s["list"] += r.sample(["N", "NN"], r.randint(1, 2))
    if r.random() < 0.3:
        s["list"] += r.sample(["S", "SA", "SV"], r.randint(1, 3))
    r.shuffle(s["list"])
    if valid:
        return s
    w = r.choice(["private base", "repeated base", "registry first"])
    s["wrong"] = [w]
    if w == "registry first":
        s["macro"] = False
    else:
        culprits = r.choice([("P", "A", "X"), ("S", "SX")] if w == "private base" else
                            [("P", "A", "L1", "L2", "Y"), ("S", "S1", "S2", "SY")])
        for c in culprits:
            if c in s["list"]:
                s["list"].remove(c)
            if c in ("X", "Y", "A", "S", "SX", "SY") or r.random() < 0.5:
                s["list"].insert(r.randint(0, len(s["list"])), c)
    return s


def emit_classes(s):
    items = list(s["list"])
    if s["wrong"] == ["registry first"]:
        items.insert(len(items) // 2, "regs::" + s["reg"])
        if items[-1].startswith("regs"):
            items.append("P")
    else:
        items.append("regs::" + s["reg"])
    if s["macro"]:
        return CLASSES + "BOOST_OPENMETHOD_CLASSES(%s);\n" % ", ".join(items)
    return CLASSES + "static bom::use_classes<%s> classes;\n" % ", ".join(items)


# ------------------------------------------------------------ conversions
DERIVES = {"P": "", "A": "P", "B": "AP", "C": "BAP", "V": "AP", "U": "", "X": "", "Y": "", "I": "",
           "N": "", "NN": ["N"], "M": ["N", "NN"]}


def is_a(d, b):
    return d == b or b in DERIVES[d]


def conversion(r, valid):
    """One conversion, that exists or not."""
    world = r.choice(["PABCVUXY"] * 4 + ["n"])
    pick = (lambda: r.choice(list(world))) if world != "n" else (
        lambda: r.choice(["N", "NN", "M"]))
    s = dict(form="conversion", reg=r.choice(REGS + ["srt"]), wrong=None,
             to=[r.choice(["vptr", "svptr", "uvptr", "ivptr"]), pick(), r.random() < 0.3],
             source=[r.choice(["vptr", "svptr", "uvptr", "ivptr", "obj", "ptr", "shared", "unique",
                               "intr", "null"]),
                     pick(), r.random() < 0.3],
             cat=r.choice(["&", " const&", "&&"]), same_reg=r.random() < 0.85,
             how=r.choice(["construct", "convert", "assign", "use"]))
    if r.random() < 0.5:  # more of those that exist
        for _ in range(20):
            if is_a(s["source"][1], s["to"][1]):
                break
            s["source"][1] = pick()
    s["other"] = r.choice([x for x in REGS if x != s["reg"]])
    if s["source"][0] == "ptr" and r.random() < 0.1:
        s["source"][1] = "I"
    if s["to"][0] == "ivptr" and s["how"] == "assign":  # the traits of intrusive_ptr lie
        s["how"] = "construct"
    for x in s["to"], s["source"]:  # which are hard errors of intrusive_ptr's
        if s["to"][0][0] == "i" and x[1] in "XY":
            x[1] = "U"
    if s["source"][0] == "obj" and s["cat"] == " const&":
        s["cat"] = "&"
        s["source"][2] = True
    if s["source"][0] == "obj" and s["cat"] == "&&":
        s["source"][2] = False
    return s


def exists(s):
    """The documented conversions."""
    to, kt, ct = s["to"]
    src, ks, cs = s["source"]
    cat, how = s["cat"], s["how"]
    if src == "null":
        return how != "convert"
    if not is_a(ks, kt) or cs and not ct:
        return False
    poly = ks not in ("N", "NN") and s["reg"] != "srt"
    if src in ("vptr", "svptr", "uvptr", "ivptr") and not s["same_reg"]:
        return False
    if to == "vptr":
        if src == "obj":
            return poly and cat != "&&"
        if src == "ptr":
            return poly
        return src in ("vptr", "svptr", "uvptr", "ivptr")
    if src == "vptr" or src in ("obj", "ptr"):
        return False
    if src[0] != to[0]:
        return False
    if src in ("shared", "unique", "intr") and not poly:
        return False
    return to != "uvptr" or cat == "&&"


def emit_conversion(s):
    def ty(k, c, q, reg):
        c = ("const " if q else "") + c
        return {"vptr": "vptr<%s, regs::%s>", "svptr": "svptr<%s, regs::%s>",
                "uvptr": "uvptr<%s, regs::%s>", "ivptr": "ivptr<%s, regs::%s>"}[k] % (c, reg) if k.endswith("vptr") else \
            {"obj": c, "ptr": c + "*", "shared": "shared<%s>" % c, "unique": "unique<%s>" % c,
             "intr": "intr<%s>" % c, "null": "std::nullptr_t"}[k]
    to = ty(*s["to"], s["reg"])
    src = ty(*s["source"], s["reg"] if s["same_reg"] else s["other"])
    cat = s["cat"]
    src += "&&" if s["source"][0] == "null" else " " + cat
    yes = exists(s)
    if s["how"] == "use" and yes:
        return CLASSES + ("inline void use(%s x, %s y) { %s a(static_cast<%s>(x)); "
                          "%s b; b = static_cast<%s>(y); }\n" % (src, src, to, src, to, src))
    e = {"construct": "std::is_constructible_v<%s, %s>", "use": "std::is_constructible_v<%s, %s>",
         "convert": "std::is_convertible_v<%s, %s>",
         "assign": "std::is_assignable_v<%s&, %s>"}[s["how"]] % (
             (src, to) if s["how"] == "convert" else (to, src))
    return CLASSES + "static_assert(%s == %s);\n" % (e, "true" if yes else "false")


# ----------------------- embedded v-table pointers, casts, objects of known type
def other(r, valid):
    w = r.choice(["inplace", "inplace registry", "cast", "final"])
    s = dict(form=w, reg=r.choice(REGS), wrong=None if valid else [r.randrange(4)],
             how=[r.randrange(6) for _ in range(4)])
    s["other"] = r.choice([x for x in REGS if x != s["reg"]])
    return s


def emit_other(s):
    reg, o, h = "regs::" + s["reg"], "regs::" + s["other"], s["how"]
    w = s["wrong"][0] if s["wrong"] else -1
    if s["form"] == "inplace":
        root = "bom::inplace_vptr_base<Q, %s>" % reg
        mixin = "bom::inplace_vptr_derived<D, Q>"
        two = "bom::inplace_vptr_derived<E, Q, Z>"
        if w == 0:  # the base has no v-table pointer
            root = "Q0"
        elif w == 1:  # a registry for a derived class
            mixin = "bom::inplace_vptr_derived<D, %s>" % reg
        elif w == 2:
            two = "bom::inplace_vptr_derived<E, Q, %s>" % reg
        elif w == 3:
            two = "bom::inplace_vptr_derived<E, %s, Z>" % reg
        return CLASSES + """struct Q0 {}; struct Q : %s {}; struct D : Q, %s {};
struct Z : bom::inplace_vptr_base<Z, %s> {}; struct E : Q, Z, %s {};
inline void make() { %s; }
""" % (root, mixin, reg, two, ["D d", "E e; D d", "D d; E e; (void)e"][h[0] % 3])
    if s["form"] == "inplace registry":
        # no virtual function: only the registry of the v-table pointer will do
        p = ["virt<Q&>", "virt<const Q&>", "virt<Q*>", "virt<shared<Q>>"][h[0] % 4]
        q = ["D&", "const D&", "D*", "shared<D>"][h[0] % 4]
        return CLASSES + """struct Q : bom::inplace_vptr_base<Q, %s> {};
struct D : Q, bom::inplace_vptr_derived<D, Q> {};
struct id; using m = bom::method<id, void(%s%s), %s>;
inline void f(%s%s) {} static m::override<f> over;
inline void call() { m::fn(%sget<%s>()); }
""" % (reg, "int, " if h[1] % 2 else "", p, reg if w < 0 else o, "int, " if h[1] % 2 else "",
            q, "1, " if h[1] % 2 else "", q)
    if s["form"] == "final":
        fn = ["bom::final_virtual_ptr<%s>" % reg, "vptr<P, %s>::final" % reg,
              "svptr<U, %s>::final" % reg, "uvptr<B, %s>::final" % reg][h[1] % 4]
        cls = ["A", "B", "C", "V", "N", "NN"][h[2]]
        k = h[0] if w < 0 or w == 2 else 0
        arg = ["T&", "T&", "shared<T>", "shared<T>&", "unique<T>", "const shared<T>&"][k]
        if w == 0:
            arg = ["T*", "T*&", "unique<T>&", "vptr<T, R>", "const unique<T>&", "T*"][h[0]]
        to = "vptr" if k < 2 else [["uvptr", "svptr"][k != 4], "vptr"][h[3] % 2]
        above = {"N": "N", "NN": "N"}.get(cls, "A")
        to = "%s<%s, %s>" % (to, "U" if w == 1 else above, o if w == 3 else reg)
        if w == 2:
            to = ["svptr<T, R>", "uvptr<T, R>", "uvptr<T, R>", "uvptr<T, R>",
                  "svptr<T, R>", "uvptr<T, R>"][k]
        elif h[3] == 5 and w < 0 or w == 0:
            to = "auto"
        arg = sub(arg, cls, s["reg"], s["other"])
        if w != 0 and k in (2, 4) and h[3] < 4:
            fn, arg = "bom::make_%s_virtual<%s, %s>" % (
                "shared" if k == 2 else "unique", cls, reg), ""
        return CLASSES + "inline void make() { %s p = %s(%s); }\n" % (
            sub(to, above, s["reg"], s["other"]), fn, "get<%s>()" % arg if arg else "")
    # cast
    kind = ["vptr", "svptr", "uvptr", "ivptr"][h[0] % 4]
    src, dst = [("P", "C"), ("C", "P"), ("A", "V"), ("B", "B"), ("A", "P"), ("V", "P")][h[1]]
    if w >= 0:
        src, dst = [("A", "U"), ("B", "V"), ("U", "C"), ("C", "V")][w]
    if kind == "uvptr":
        return CLASSES + "inline auto cast(uvptr<%s, %s>&& p) { return std::move(p).cast<%s>(); }\n" \
            % (src, reg, dst)
    q = ["", "const "][h[2] % 2]
    return CLASSES + "inline auto cast(%s%s<%s, %s>& p) { return p.template cast<%s>(); }\n" % (
        q, kind, src, reg, dst)


# ------------------------------------ static_rtti: only v-table pointers are known
def static(r, valid):
    return dict(form="static", reg="srt", other="def",
                wrong=None if valid else [r.randrange(5), r.randrange(6)],
                how=[r.randrange(6) for _ in range(3)])


def emit_static(s):
    h, w = s["how"], s["wrong"] or [-1, 0]
    cls, src = [("A", "B"), ("P", "A"), ("A", "C"), ("B", "C"), ("P", "P"), ("N", "NN")][h[0]]
    kind = ["vptr", "svptr", "uvptr", "vptrc", ["svptrc", "ivptr"][h[2] // 3], "cvptr"][h[1]]
    pm, po, arg = VIRTUAL[kind]
    arg = {"vptr": "bom::final_virtual_ptr<R>(get<T&>())",
           "svptr": "bom::make_shared_virtual<T, R>()",
           "uvptr": "bom::make_unique_virtual<T, R>()",
           "ivptr": "bom::make_boost_intrusive_virtual<T, R>()"}[arg.split("<")[0]] if h[2] % 2 else \
        "get<%s>()" % arg
    if kind == "cvptr" and h[2] % 2:
        arg = "bom::final_virtual_ptr<R>(get<const T&>())"
    more = ""
    if w[0] == 0:  # the class of the object cannot be found
        pm, po, arg = VIRTUAL[["ref", "cref", "ptr", "sh", "shc", "cptr"][w[1]]]
        arg = "get<%s>()" % arg
    elif w[0] == 1:
        arg = {"vptr": ["get<T&>()", "get<T*>()"], "svptr": ["get<shared<T>>()"] * 2,
               "uvptr": ["get<unique<T>>()"] * 2,
               "ivptr": ["get<intr<T>>()", "get<intr<T>&>()"]}[pm.replace("const ", "").split("<")[0]][w[1] % 2]
    elif w[0] == 2:
        more = "inline void make() { vptr<%s, R> p%s; }\n" % (
            cls, ["(get<T&>())", " = get<T*>()", "(get<T*>())", "; p = get<T&>()",
                  "; p = get<T*>()", "{get<T&>()}"][w[1]])
    elif w[0] == 3:
        more = "inline void make() { %svptr<%s, R> p%s; }\n" % (
            ("s", cls, ["(get<shared<T>>())", " = get<shared<T>&>()", "; p = get<shared<T>>()"][w[1] % 3])
            if w[1] < 3 else
            ("u", cls, ["(get<unique<T>>())", " = get<unique<T>>()", "; p = get<unique<T>>()"][w[1] % 3]))
    elif w[0] == 4:
        more = "inline void make() { auto p = bom::final_virtual_ptr<R>(get<%s>()); }\n" % [
            "T*", "const T* &", "unique<T>&", "vptr<T, R>", "int", "const unique<T>&"][w[1]]
    reg = s["reg"]
    q = ["virt<Q&>", "virt<const Q&>", "virt<Q*>"][h[2] % 3]
    d = ["D&", "const D&", "D*"][h[2] % 3]
    return CLASSES + sub("""struct id; using m = bom::method<id, void(%s), R>;
inline void f(%s) {} static m::override<f> over;
inline void call() { m::fn(%s); }
%sstruct Q : bom::inplace_vptr_base<Q, R> {}; struct D : Q, bom::inplace_vptr_derived<D, Q> {};
struct id2; using m2 = bom::method<id2, void(%s), R>; inline void f2(%s) {}
static m2::override<f2> over2; inline void call2() { m2::fn(get<%s>()); }
""" % (sub(pm, cls, reg, "def"), sub(po, src, reg, "def"), sub(arg, src, reg, "def"), more, q, d, d),
        src, reg, "def")


# ----------------- headers, in any order, alone or before a program that uses all
HEADERS = ["core", "default_registry", "inplace_vptr", "initialize", "interop/boost_intrusive_ptr",
           "interop/std_shared_ptr", "interop/std_unique_ptr", "macros",
           "policies/default_error_handler", "policies/fast_perfect_hash", "policies/static_rtti",
           "policies/std_rtti", "policies/stderr_output", "policies/throw_error_handler",
           "policies/vptr_map", "policies/vptr_vector", "preamble", ""]


def headers(r):
    return dict(form="headers", wrong=None, list=[
        r.choice(HEADERS) for _ in range(r.choice([1, 1, 2, 3, 4, 6]))],
        program=definition(r, True) if r.random() < 0.3 else None)


def emit_headers(s):
    return "".join("#include <boost/openmethod%s.hpp>\n" % ("/" + h if h else "")
                   for h in s["list"]) + (
        '#include "rt.hpp"\n' + emit_definition(s["program"]) if s["program"] else "")


FORMS = {"definition": (definition, emit_definition), "classes": (classes, emit_classes),
         "conversion": (conversion, emit_conversion), "other": (other, emit_other),
         "static": (static, emit_static), "headers": (None, emit_headers)}


def gen_item(r):
    valid = r.random() < 0.3
    f = r.choice(["definition"] * 6 + ["classes"] + ["conversion"] * 4 + ["other", "static"])
    return FORMS[f][0](r, valid)


def emit(s):
    return (FORMS.get(s["form"]) or FORMS["other"])[1](s)


def valid(s):
    return s["wrong"] is None


def twin(s):
    """The same item without the mistake."""
    if s["wrong"] is None or s["wrong"][0] == "no virtual parameter":
        return None
    t = dict(s, wrong=None)
    if s["form"] == "classes":
        t["list"] = [c for c in s["list"] if c not in ("X", "Y", "SX", "SY")]
    return t


def signature(s):
    """Two items with the same one are the same test."""
    if s["form"] == "definition":
        w = s["wrong"] or [None, -1]
        around = [p[0] if i == w[1] else "virtual" if p[1] else "plain"
                  for i, p in enumerate(s["params"])]
        return [s["reg"], s["api"], w[0], w[2:], around,
                s["ret"] if w[0] in (None, "result") else ""]
    if s["form"] == "conversion":
        return [s[k] for k in ("form", "to", "source", "cat", "same_reg", "how")]
    if s["form"] == "headers":
        return [s["form"], s["list"]]
    return [s["form"], s["reg"], s["wrong"], s.get("list", s.get("how"))]


def label(s):
    if s["form"] == "headers":
        return "headers" + (" and a program" if s["program"] else "")
    if s["form"] == "conversion":
        return "conversions that " + ("exist" if exists(s) else "do not exist")
    if s["form"] in ("definition", "classes"):
        return s["form"] + ": " + (s["wrong"][0] if s["wrong"] else "correct")
    return s["form"] + ": " + ("incorrect" if s["wrong"] else "correct")


def smaller(s):
    import copy
    if s["form"] == "definition":
        w = s["wrong"] or [None, -1]
        for i in range(len(s["params"])):
            if i != w[1] and sum(1 for k, p in enumerate(s["params"]) if p[1] and k != i) > 0:
                q = copy.deepcopy(s)
                del q["params"][i]
                if w[1] > i:
                    q["wrong"][1] -= 1
                yield q
        if s["ret"] != "void" and w[0] != "result":
            yield dict(s, ret="void", oret="void")
        for i, p in enumerate(s["params"]):
            if p[1] and i != w[1] and p[0] != "ref":
                q = copy.deepcopy(s)
                q["params"][i] = ["ref", "A", "B"]
                yield q
    if s["form"] == "classes":
        for i in range(len(s["list"])):
            if s["list"][i] not in ("X", "Y", "A", "S", "SX", "SY"):
                yield dict(s, list=s["list"][:i] + s["list"][i + 1:])
    if s["form"] == "headers":
        if s["program"]:
            yield dict(s, program=None)
        for i in range(len(s["list"])):
            if len(s["list"]) > 1:
                yield dict(s, list=s["list"][:i] + s["list"][i + 1:])
        return
    if s["form"] == "static":
        return
    if s["reg"] != "def" and s.get("other") != "def":
        yield dict(s, reg="def")


if __name__ == "__main__":
    import sys
    s = gen_item(random.Random(int(sys.argv[1])))
    print(s)
    print(emit(s))
