"""Generates C++ programs whose expected behaviour is known (C16).

A program is a Python structure (so that it can be shrunk by removing parts of
it); emit() turns it into C++."""
import copy
import random

REGISTRIES = {
    # name: (type, init, custom rtti)
    "default": ("rt::default_registry", "rt::init_default", False),
    "checked": ("rt::checked_registry", "rt::init_checked", False),
    "indirect": ("rt::indirect_registry", "rt::init_indirect", False),
    "map": ("rt::map_registry", "rt::init_map", False),
    "id": ("rt::id_registry", "rt::init_id", True),
    "id_ind": ("rt::id_ind_registry", "rt::init_id_ind", True),
    "def": ("rt::def_registry", "rt::init_def", True),
}


# ------------------------------------------------------------- hierarchies
class Hierarchy:
    def __init__(self, bases, mixins):
        self.bases = bases      # [[(base, virtual)]]
        self.mixins = mixins    # [bool]
        self.n = len(bases)
        self._sub = {}

    def sub(self, d):
        if d not in self._sub:
            res = set()

            def walk(c, prefix):
                key = prefix + (c,)
                res.add(key)
                for b, v in self.bases[c]:
                    walk(b, ("v",) if v else key)
            walk(d, ())
            self._sub[d] = res
        return self._sub[d]

    def count(self, d, b):
        return sum(1 for k in self.sub(d) if k[-1] == b)

    def derives(self, d, b):
        return self.count(d, b) > 0

    def ok(self):
        return all(self.count(d, b) <= 1 for d in range(self.n) for b in range(self.n))

    def has_virtual(self):
        return any(v for bs in self.bases for _, v in bs)

    def roots(self, d):
        return [b for b in range(self.n) if self.derives(d, b) and not self.bases[b]]

    def derived(self, b):
        return [d for d in range(self.n) if self.derives(d, b)]


def gen_hierarchy(r, allow_virtual):
    for _ in range(200):
        n = r.randint(3, 9)
        style = r.choice(["single", "multi", "multi", "virtual", "virtual"])
        if not allow_virtual and style == "virtual":
            style = "multi"
        bases = []
        for i in range(n):
            if i == 0 or (style != "single" and r.random() < 0.2 and i < 4):
                bases.append([])
                continue
            k = 1 if style == "single" else r.choice([1, 1, 2, 2, 3])
            bs = r.sample(range(i), min(k, i))
            bases.append([(b, style == "virtual" and r.random() < 0.6) for b in bs])
        h = Hierarchy(bases, [r.random() < 0.3 for _ in range(n)])
        # a direct base that is also an indirect one would be ambiguous or useless
        if h.ok() and all(
                not any(h.derives(b2, b) for b2, _ in bs if b2 != b)
                for bs in bases for b, _ in bs):
            return h
    raise RuntimeError("no hierarchy")


# -------------------------------------------------- kinds of virtual parameters
class VKind:
    """mt: method's parameter; ot: overrider's; deref: the object in the overrider;
    fwd: argument for next; args: ways of passing an argument."""

    def __init__(self, name, mt, ot, deref, fwd, who=False, intrusive=False):
        self.name, self.mt, self.ot, self.deref, self.fwd, self.who, self.intrusive = \
            name, mt, ot, deref, fwd, who, intrusive


VP = "bom::virtual_ptr<%s, Reg>"
VKINDS = {k.name: k for k in [
    VKind("ref", "bom::virtual_<%s&>", "%s&", "%s", "%s"),
    VKind("cref", "bom::virtual_<const %s&>", "const %s&", "%s", "%s"),
    VKind("rref", "bom::virtual_<%s&&>", "%s&&", "%s", "std::move(%s)"),
    VKind("ptr", "bom::virtual_<%s*>", "%s*", "*%s", "%s"),
    VKind("cptr", "bom::virtual_<const %s*>", "const %s*", "*%s", "%s"),
    VKind("vp", VP, VP, "*%s", "%s", True),
    VKind("cvpref", "const " + VP + "&", "const " + VP + "&", "*%s", "%s", True),
    VKind("vpc", VP % "const %s", VP % "const %s", "*%s", "%s", True),
    VKind("cvpcref", "const " + VP % "const %s" + "&", "const " + VP % "const %s" + "&",
          "*%s", "%s", True),
    VKind("sp", "bom::virtual_<std::shared_ptr<%s>>", "std::shared_ptr<%s>", "*%s",
          "std::move(%s)"),
    VKind("spc", "bom::virtual_<std::shared_ptr<const %s>>", "std::shared_ptr<const %s>",
          "*%s", "std::move(%s)"),
    VKind("csp", "bom::virtual_<const std::shared_ptr<%s>&>", "const std::shared_ptr<%s>&",
          "*%s", "%s"),
    VKind("svp", VP % "std::shared_ptr<%s>", VP % "std::shared_ptr<%s>", "*%s",
          "std::move(%s)"),
    VKind("csvp", "const " + VP % "std::shared_ptr<%s>" + "&",
          "const " + VP % "std::shared_ptr<%s>" + "&", "*%s", "%s"),
    VKind("up", "bom::virtual_<std::unique_ptr<%s>>", "std::unique_ptr<%s>", "*%s",
          "std::move(%s)"),
    VKind("uvp", VP % "std::unique_ptr<%s>", VP % "std::unique_ptr<%s>", "*%s",
          "std::move(%s)"),
    VKind("ip", "bom::virtual_<boost::intrusive_ptr<%s>>", "boost::intrusive_ptr<%s>", "*%s",
          "std::move(%s)", intrusive=True),
    VKind("cip", "bom::virtual_<const boost::intrusive_ptr<%s>&>",
          "const boost::intrusive_ptr<%s>&", "*%s", "%s", intrusive=True),
    VKind("ivp", VP % "boost::intrusive_ptr<%s>", VP % "boost::intrusive_ptr<%s>", "*%s",
          "std::move(%s)", intrusive=True),
    VKind("civp", "const " + VP % "boost::intrusive_ptr<%s>" + "&",
          "const " + VP % "boost::intrusive_ptr<%s>" + "&", "*%s", "%s", intrusive=True),
]}
# several parameters out of ten are of the most common kinds
VWEIGHTS = (["ref", "cref", "rref", "ptr", "cptr", "vp", "cvpref", "vpc", "cvpcref"] * 2 +
            list(VKINDS))


def varg(kind, form, j, X, S, B):
    """(declarations, argument, object expression, checks after the call)."""
    o, p = "o%d" % j, "p%d" % j
    K = "K%d" % X
    Sn = "K%d" % S
    Bn = "K%d" % B
    post = []
    if kind in ("ref", "cref"):
        return ["%s %s;" % (K, o)], "static_cast<%s%s&>(%s)" % (
            "const " if kind == "cref" and form % 2 else "", Sn, o), o, []
    if kind == "rref":
        return ["%s %s;" % (K, o)], "static_cast<%s&&>(%s)" % (Sn, o), o, []
    if kind in ("ptr", "cptr"):
        return ["%s %s;" % (K, o)], "static_cast<%s%s*>(&%s)" % (
            "const " if kind == "cptr" and form % 2 else "", Sn, o), o, []
    if kind in ("vp", "cvpref", "vpc", "cvpcref"):
        c = "const " if kind in ("vpc", "cvpcref") and form % 2 else ""
        f = form % 5
        if f == 0:
            return ["%s %s;" % (K, o)], "static_cast<%s%s&>(%s)" % (c, Sn, o), o, []
        if f == 1:
            return ["%s %s;" % (K, o)], "%s(static_cast<%s%s&>(%s))" % (
                VP % (c + Sn), c, Sn, o), o, []
        if f == 2:
            return ["%s %s;" % (K, o), "%s %s(static_cast<%s%s&>(%s));" % (
                VP % (c + Sn), p, c, Sn, o)], p, o, [
                "RT_CHECK(rt::whole(*%s) == rt::whole(%s), \"the argument was changed\");" %
                (p, o)]
        if f == 3:
            return ["%s %s;" % (K, o)], "bom::final_virtual_ptr<Reg>(%s)" % o, o, []
        return ["%s %s;" % (K, o), "const auto %s = bom::final_virtual_ptr<Reg>(%s);" %
                (p, o)], p, o, []
    if kind in ("sp", "spc", "csp"):
        d = ["std::shared_ptr<%s%s> %s = std::make_shared<%s>();" % (
            "const " if kind == "spc" and form % 3 == 2 else "", Sn, p, K),
            "auto& %s = dynamic_cast<const %s&>(*%s);" % (o, K, p)]
        if form % 2 == 0:
            post = ["RT_CHECK(%s && %s.use_count() == 1, \"owners of the argument\");" % (p, p)]
            return d, p, o, post
        d.append("auto k%d = %s;" % (j, p))
        post = ["RT_CHECK(k%d.use_count() == %s, \"owners of a moved argument\");" % (
            j, "1" if kind != "csp" and S == B and ("const" in d[0]) == (kind == "spc")
            else "1 + bool(%s)" % p)]
        return d, "std::move(%s)" % p, o, post
    if kind in ("svp", "csvp"):
        d = ["std::shared_ptr<%s> q%d = std::make_shared<%s>();" % (Sn, j, K),
             "auto& %s = dynamic_cast<const %s&>(*q%d);" % (o, K, j)]
        f = form % 4
        post = ["RT_CHECK(q%d.use_count() == 1, \"owners of the argument\");" % j]
        if f == 0:
            return d, "q%d" % j, o, post
        if f == 1:
            d.append("auto %s = std::make_unique<%s>(q%d);" % (p, VP % ("std::shared_ptr<%s>" % Sn), j))
            return d, "*" + p, o, [
                "RT_CHECK(%s->get() == q%d.get() && q%d.use_count() == 2, "
                "\"owners of the argument\");" % (p, j, j), "%s.reset();" % p] + post
        if f == 2:
            return d, "%s(q%d)" % (VP % ("std::shared_ptr<%s>" % Sn), j), o, post
        d = ["auto %s = bom::make_shared_virtual<%s, Reg>();" % (p, K),
             "auto& %s = *%s;" % (o, p)]
        return d, p, o, ["RT_CHECK(%s.pointer().use_count() == 1, "
                         "\"owners of the argument\");" % p]
    if kind == "up":
        d = ["std::unique_ptr<%s> %s = std::make_unique<%s>();" % (Sn, p, K),
             "auto& %s = dynamic_cast<const %s&>(*%s);" % (o, K, p)]
        return d, "std::move(%s)" % p, o, ["RT_CHECK(!%s, \"the argument was not moved\");" % p]
    if kind == "uvp":
        f = form % 3
        d = ["std::unique_ptr<%s> q%d = std::make_unique<%s>();" % (Sn, j, K),
             "auto& %s = dynamic_cast<const %s&>(*q%d);" % (o, K, j)]
        if f == 0:
            return d, "std::move(q%d)" % j, o, []
        if f == 1:
            d.append("%s %s(std::move(q%d));" % (VP % ("std::unique_ptr<%s>" % Sn), p, j))
            return d, "std::move(%s)" % p, o, [
                "RT_CHECK(%s.get() == nullptr, \"the argument was not moved\");" % p]
        d = ["auto %s = bom::make_unique_virtual<%s, Reg>();" % (p, K),
             "auto& %s = *%s;" % (o, p)]
        return d, "std::move(%s)" % p, o, []
    if kind in ("ip", "cip", "ivp", "civp"):
        d = ["boost::intrusive_ptr<%s> q%d(new %s);" % (Sn, j, K),
             "auto& %s = dynamic_cast<const %s&>(*q%d);" % (o, K, j)]
        post = ["RT_CHECK(q%d->rc == 1, \"owners of the argument\");" % j]
        f = form % 3
        if f == 0 or (f == 2 and kind in ("ip", "cip")):
            return d, "q%d" % j, o, post
        if f == 1:
            d.append("auto %s = q%d;" % (p, j))
            return d, "std::move(%s)" % p, o, [
                "RT_CHECK(q%d->rc == 1 + bool(%s), \"owners of a moved argument\");" % (j, p)]
        return d, "%s(q%d)" % (VP % ("boost::intrusive_ptr<%s>" % Sn), j), o, post
    raise KeyError(kind)


# ---------------------------------------------- kinds of other parameters
# name: (type, forms); naarg gives (declarations, argument, checks in the
# overrider as a function of parameter and argument address, after the call)
NKINDS = {
    "int": "int", "cint": "const int", "bool": "bool", "double": "double",
    "color": "rt::Color", "fun": "int (*)(int)", "cstr": "const char*",
    "tr": "rt::Tr", "trc": "const rt::Tr&", "trl": "rt::Tr&", "trr": "rt::Tr&&",
    "trp": "rt::Tr*", "trcp": "const rt::Tr*", "uniq": "std::unique_ptr<int>",
    "uniqr": "std::unique_ptr<int>&&",
    "nc": "rt::NC&", "cnc": "const rt::NC&", "abs": "rt::Abs&", "cabs": "const rt::Abs&",
    "big": "rt::Big", "str": "std::string", "cstrr": "const std::string&",
    "arr": "int (&)[3]", "shared": "std::shared_ptr<rt::NC>", "vec": "std::vector<int>&",
    "conv": "rt::Conv", "intref": "int&", "ll": "long long", "cvint": "const volatile int&",
}
NFWD = {"tr": "std::move(%s)", "trr": "std::move(%s)", "uniq": "std::move(%s)",
        "uniqr": "std::move(%s)", "shared": "std::move(%s)", "str": "std::move(%s)"}


def ndecl(kind, name):
    t = NKINDS[kind]
    if kind == "fun":
        return "int (*%s)(int)" % name
    if kind == "arr":
        return "int (&%s)[3]" % name
    return t + " " + name


def narg(kind, form, j, v):
    """(declarations, argument, checks after the call).  want[16 + j] is the address
    of the argument, if it must be preserved; the value comes from rt_value."""
    n = "n%d" % j
    addr = "rt::want[16 + %d] = std::addressof(%s);" % (j, n)
    if kind in ("int", "cint", "ll"):
        return ([], str(v), []) if form % 2 else (["int %s = %d;" % (n, v)], n, [
            "RT_CHECK(%s == %d, \"an argument was changed\");" % (n, v)])
    if kind == "conv":
        return [], str(v), []
    if kind == "bool":
        return [], "true" if v % 2 else "false", []
    if kind == "double":
        return [], "%d.25" % v, []
    if kind == "color":
        return [], "rt::Color(%d)" % (v % 3), []
    if kind == "fun":
        return [], "rt::twice" if v % 2 else "&rt::thrice", []
    if kind == "cstr":
        return ["static const char %s[] = \"s%d\";" % (n, v),
                "rt::want[16 + %d] = %s;" % (j, n)], n, []
    if kind == "tr":
        if form % 2:
            return ["int c%d = 0; (void)c%d;" % (j, j), "rt_copies[%d] = 0;" % j], \
                "rt::Tr(%d)" % v, []
        return ["rt::Tr %s(%d);" % (n, v), "rt_copies[%d] = 1;" % j], n, [
            "RT_CHECK(%s.v == %d && !%s.moved && !%s.copies, \"an argument was changed\");" %
            (n, v, n, n)]
    if kind in ("trc", "trl"):
        d = ["rt::Tr %s(%d);" % (n, v), addr]
        if kind == "trl":
            return d, n, ["RT_CHECK(%s.v == %d + rt_depth, \"changes of an argument are "
                          "lost\");" % (n, v)]
        return d, n, ["RT_CHECK(!%s.moved, \"an argument was moved from\");" % n]
    if kind == "trr":
        return ["rt::Tr %s(%d);" % (n, v), addr], "std::move(%s)" % n, [
            "RT_CHECK(!%s.moved, \"an argument was moved from\");" % n]
    if kind in ("trp", "trcp"):
        return ["rt::Tr %s(%d);" % (n, v), addr], "&" + n, []
    if kind == "uniq":
        if form % 2:
            return ["rt::want[16 + %d] = nullptr;" % j], "std::make_unique<int>(%d)" % v, []
        return ["auto %s = std::make_unique<int>(%d);" % (n, v),
                "rt::want[16 + %d] = %s.get();" % (j, n)], "std::move(%s)" % n, [
            "RT_CHECK(!%s, \"the argument was not moved\");" % n]
    if kind == "uniqr":
        return ["auto %s = std::make_unique<int>(%d);" % (n, v), addr], "std::move(%s)" % n, [
            "RT_CHECK(%s && *%s == %d, \"an argument was moved from\");" % (n, n, v)]
    if kind in ("nc", "cnc"):
        return ["rt::NC %s(%d);" % (n, v), addr], n, []
    if kind in ("abs", "cabs"):
        return ["rt::Abs1 %s(%d);" % (n, v),
                "rt::want[16 + %d] = static_cast<rt::Abs*>(&%s);" % (j, n)], n, []
    if kind == "big":
        return ["auto %s = rt::big(%d);" % (n, v)], n, [
            "RT_CHECK(rt::same(%s, %d), \"an argument was changed\");" % (n, v)]
    if kind == "str":
        s = "std::string(\"string number %d, a long one\")" % v
        if form % 2:
            return [], s, []
        return ["auto %s = %s;" % (n, s)], n, [
            "RT_CHECK(%s == %s, \"an argument was changed\");" % (n, s)]
    if kind == "cstrr":
        if form % 2:
            return ["rt::want[16 + %d] = nullptr;" % j], "\"string number %d, a long one\"" % v, []
        return ["std::string %s = \"string number %d, a long one\";" % (n, v), addr], n, []
    if kind == "arr":
        return ["int %s[3] = {%d, %d, %d};" % (n, v, v + 1, v + 2),
                "rt::want[16 + %d] = %s;" % (j, n)], n, []
    if kind == "shared":
        d = ["auto %s = std::make_shared<rt::NC>(%d);" % (n, v),
             "rt::want[16 + %d] = %s.get();" % (j, n)]
        if form % 2:
            return d + ["rt_copies[%d] = 1;" % j], "std::move(%s)" % n, [
                "RT_CHECK(!%s, \"the argument was not moved\");" % n]
        return d + ["rt_copies[%d] = 2;" % j], n, [
            "RT_CHECK(%s.use_count() == 1, \"owners of an argument\");" % n]
    if kind == "vec":
        return ["std::vector<int> %s(3, %d);" % (n, v), addr], n, [
            "RT_CHECK(%s.size() == 3u + rt_depth, \"changes of an argument are lost\");" % n]
    if kind in ("intref", "cvint"):
        return ["int %s = %d;" % (n, v), "rt::want[16 + %d] = &%s;" % (j, n)], n, []
    raise KeyError(kind)


def ncheck(kind, j, p):
    """What the overrider checks; rt_value[j] is the value."""
    w = "rt::want[16 + %d]" % j
    v = "rt_value[%d]" % j
    c = {
        "int": "%(p)s == %(v)s", "cint": "%(p)s == %(v)s", "ll": "%(p)s == %(v)s",
        "conv": "%(p)s.v == %(v)s",
        "bool": "%(p)s == (%(v)s %% 2 != 0)", "double": "%(p)s == %(v)s + 0.25",
        "color": "%(p)s == rt::Color(%(v)s %% 3)",
        "fun": "%(p)s == (%(v)s %% 2 ? rt::twice : rt::thrice)",
        "cstr": "%(p)s == %(w)s",
        "tr": "%(p)s.v == %(v)s && !%(p)s.moved && %(p)s.copies == rt_copies[%(j)d]",
        "trc": "&%(p)s == %(w)s && %(p)s.v == %(v)s",
        "trl": "&%(p)s == %(w)s && ++%(p)s.v == %(v)s + int(rt::entered.size())",
        "trr": "&%(p)s == %(w)s && %(p)s.v == %(v)s && !%(p)s.moved",
        "trp": "%(p)s == %(w)s", "trcp": "%(p)s == %(w)s",
        "uniq": "%(p)s && *%(p)s == %(v)s && (!%(w)s || %(p)s.get() == %(w)s)",
        "uniqr": "&%(p)s == %(w)s && %(p)s && *%(p)s == %(v)s",
        "nc": "&%(p)s == %(w)s", "cnc": "&%(p)s == %(w)s",
        "abs": "&%(p)s == %(w)s && %(p)s.v() == %(v)s",
        "cabs": "&%(p)s == %(w)s && %(p)s.v() == %(v)s",
        "big": "rt::same(%(p)s, %(v)s)",
        "str": "%(p)s == \"string number \" + std::to_string(%(v)s) + \", a long one\"",
        "cstrr": "%(p)s == \"string number \" + std::to_string(%(v)s) + \", a long one\" && "
                 "(!%(w)s || &%(p)s == %(w)s)",
        "arr": "%(p)s == %(w)s && %(p)s[2] == %(v)s + 2",
        "shared": "%(p)s.get() == %(w)s && %(p)s.use_count() == rt_copies[%(j)d]",
        "vec": "&%(p)s == %(w)s && (%(p)s.push_back(1), true)",
        "intref": "&%(p)s == %(w)s", "cvint": "&%(p)s == %(w)s",
    }[kind]
    return c % dict(p=p, v=v, w=w, j=j)


# ----------------------------------------------------------- return types
RKINDS = ["void", "int", "tr", "trl", "trc", "trp", "uniq", "str", "bptr", "bref", "cbptr",
          "vp", "nc", "big", "shared", "trr", "bool"]


def rtype(m, k=None):
    """Return type of the method (k is None) or of its overrider."""
    kind = m["ret"]
    b = "K%d" % m["retcls"]
    d = b if k is None else "K%d" % m["over"][k]["ret"]
    return {"void": "void", "int": "int", "tr": "rt::Tr", "trl": "rt::Tr&",
            "trc": "const rt::Tr&", "trp": "rt::Tr*", "uniq": "std::unique_ptr<int>",
            "str": "std::string", "bptr": d + "*", "bref": d + "&",
            "cbptr": "const " + d + "*", "vp": "VpRet%d" % m["id"], "nc": "rt::NC&",
            "big": "rt::Big", "shared": "std::shared_ptr<rt::NC>", "trr": "rt::Tr&&",
            "bool": "bool"}[kind]


def covariant(m):
    return m["ret"] in ("bptr", "bref", "cbptr")


# ------------------------------------------------------------------- programs
def dispatch(h, m, args, without=None):
    """Index of the overrider, or None."""
    app = [k for k, o in enumerate(m["over"]) if k != without and
           all(h.derives(a, p) for a, p in zip(args, o["params"]))]
    return best(h, m, app)


def best(h, m, app):
    def dominates(a, b):
        pa, pb = m["over"][a]["params"], m["over"][b]["params"]
        strict = lambda x, y: x != y and h.derives(x, y)
        return any(strict(x, y) for x, y in zip(pa, pb)) and \
            not any(strict(y, x) for x, y in zip(pa, pb))
    top = [a for a in app if not any(dominates(b, a) for b in app)]
    return top[0] if len(top) == 1 else None


def next_of(h, m, k):
    """As the library: the best of those that k could call with its own types."""
    params = m["over"][k]["params"]
    return dispatch(h, m, params, without=k)


def chain(h, m, args):
    """Overriders that run, or None if the call is an error."""
    k = dispatch(h, m, args)
    if k is None:
        return None
    res = [k]
    while m["over"][k]["next"]:
        k = next_of(h, m, k)
        if k is None or k in res:
            return None
        res.append(k)
    return res


def gen_program(seed):
    r = random.Random(seed)
    reg = r.choice(["default", "default", "checked", "indirect", "map", "id", "id_ind", "def"])
    h = gen_hierarchy(r, reg == "def" or not REGISTRIES[reg][2])
    mode = r.choice(["c++17"] * 5 + ["c++20"] * 4 + ["release"] * 3 + ["gcc"])
    prog = dict(mode=mode, reg=reg, bases=h.bases, mixins=h.mixins, methods=[], seed=seed,
                split=r.random() < 0.4, order=r.sample(range(h.n), h.n))
    for i in range(r.randint(5, 9)):
        m = gen_method(r, h, i)
        if m["calls"]:
            prog["methods"].append(m)
    return prog


def gen_method(r, h, i):
    nv = r.choice([1, 1, 2, 2, 3])
    m = dict(id=i, macro=r.random() < 0.5, params=[], over=[], calls=[],
             ret=r.choice(RKINDS), retcls=r.randrange(h.n), explicit_reg=r.random() < 0.5,
             together=r.random() < 0.5)
    slots = ["v"] * nv + ["n"] * r.choice([0, 1, 1, 2, 3])
    r.shuffle(slots)
    for s in slots:
        if s == "v":
            # often a base of many classes
            b = r.randrange(h.n)
            if r.random() < 0.5:
                b = r.choice(h.roots(b))
            kind = r.choice(VWEIGHTS)
            if VKINDS[kind].intrusive and any(
                    len(h.roots(d)) != 1 for d in range(h.n)):
                kind = "vp"
            m["params"].append(dict(v=True, kind=kind, cls=b))
        else:
            m["params"].append(dict(v=False, kind=r.choice(list(NKINDS))))
    vparams = [p for p in m["params"] if p["v"]]
    seen = set()
    for _ in range(r.randint(1, 4)):
        ps = tuple(r.choice(h.derived(p["cls"])) if r.random() < 0.8 else p["cls"]
                   for p in vparams)
        if ps in seen:
            continue
        seen.add(ps)
        m["over"].append(dict(params=list(ps), next=False,
                              ret=r.choice(h.derived(m["retcls"])),
                              throws=r.random() < 0.05))
    # calls
    for _ in range(60):
        if len(m["calls"]) >= r.randint(3, 6):
            break
        if r.random() < 0.6:
            o = r.choice(m["over"])
            args = [r.choice(h.derived(p)) for p in o["params"]]
        else:
            args = [r.choice(h.derived(p["cls"])) for p in vparams]
        if dispatch(h, m, args) is None:
            continue
        call = dict(args=args, stat=[], forms=[], vals=[])
        for a, p in zip(args, vparams):
            call["stat"].append(r.choice([s for s in range(h.n) if h.derives(a, s) and
                                          h.derives(s, p["cls"])]))
        for p in m["params"]:
            call["forms"].append(r.randrange(60))
            call["vals"].append(r.randrange(2, 900))
        m["calls"].append(call)
    # next, where the answer does not depend on the arguments (see C03)
    for k, o in enumerate(m["over"]):
        if o["throws"] or r.random() < 0.4:
            continue
        n = next_of(h, m, k)
        if n is None:
            continue
        if all(dispatch(h, m, c["args"], without=k) == n for c in m["calls"]
               if k in applicable(h, m, c["args"])):
            o["next"] = True
    m["calls"] = [c for c in m["calls"] if chain(h, m, c["args"]) is not None]
    return m


def applicable(h, m, args):
    return [k for k, o in enumerate(m["over"])
            if all(h.derives(a, p) for a, p in zip(args, o["params"]))]


# ------------------------------------------------------------------ emission
def emit(prog):
    h = Hierarchy(prog["bases"], prog["mixins"])
    reg, init, custom = REGISTRIES[prog["reg"]]
    out = ['#include "rt.hpp"', "", "using Reg = %s;" % reg, ""]
    w = out.append
    single_root = all(len(h.roots(d)) == 1 for d in range(h.n))
    w("static int rt_value[16], rt_copies[16], rt_depth;")
    w("struct Ex { int code; };")
    for i in range(h.n):
        bs = ["%sK%d" % ("virtual " if v else "", b) for b, v in h.bases[i]]
        if h.mixins[i]:
            w("struct Mix%d { int mix[3] = {}; };" % i)
            bs.insert(0, "Mix%d" % i)
        w("struct K%d%s {" % (i, (" : " + ", ".join(bs)) if bs else ""))
        if not h.bases[i]:
            w("    K%d() = default;" % i)
            w("    virtual ~K%d() = default;" % i)
            w("    rt::Live alive;")
            if single_root:
                w("    mutable int rc = 0;")
                w("    friend void intrusive_ptr_add_ref(const K%d* p) { ++p->rc; }" % i)
                w("    friend void intrusive_ptr_release(const K%d* p) "
                  "{ if (!--p->rc) delete p; }" % i)
        if custom:
            if prog["reg"] == "def":
                w("    inline static int class_id;")
            else:
                w("    static constexpr int class_id = %d;" % (i + 1))
            w("    virtual int get_class_id() const { return class_id; }")
        w("    virtual int v%d() { return %d; }" % (i, i))
        w("    int tag%d = %d;" % (i, 0x3000 + i))
        w("};")
    w("")
    if prog["split"]:
        for i in prog["order"]:
            cl = ["K%d" % i] + ["K%d" % b for b, _ in h.bases[i]]
            w("BOOST_OPENMETHOD_CLASSES(%s, Reg);" % ", ".join(cl))
    else:
        w("BOOST_OPENMETHOD_CLASSES(%s, Reg);" % ", ".join("K%d" % i for i in prog["order"]))
    # one method per root tells the class of a virtual_ptr
    for b in range(h.n):
        if h.bases[b]:
            continue
        w("struct who%d_id;" % b)
        w("using who%d = bom::method<who%d_id, int(%s), Reg>;" % (b, b, VP % ("const K%d" % b)))
        for d in h.derived(b):
            w("static int who%d_%d(%s) { return %d; }" % (b, d, VP % ("const K%d" % d), d))
        w("static who%d::override<%s> who%d_reg;" % (
            b, ", ".join("who%d_%d" % (b, d) for d in h.derived(b)), b))
    for m in prog["methods"]:
        emit_method(h, m, w)
    w("")
    w("int main() {")
    if prog["reg"] == "def":
        for i in range(h.n):
            w("    K%d::class_id = %d;" % (i, 1 + (i * 5 + prog["seed"]) % 17))
    w("    %s();" % init)
    w("    const long live0 = rt::live;")
    n = 0
    for m in prog["methods"]:
        for c in m["calls"]:
            n += 1
            emit_call(h, m, c, w, n)
    w("    printf(\"calls %d\\n\", rt::calls);")
    w("}")
    return {"main.cpp": "\n".join(out) + "\n"}


def plist(m, k=None):
    """Parameter list of the method, or of an overrider."""
    res, v = [], 0
    for j, p in enumerate(m["params"]):
        name = "a%d" % j
        if p["v"]:
            if k is None:
                t = VKINDS[p["kind"]].mt % ("K%d" % p["cls"])
            else:
                t = VKINDS[p["kind"]].ot % ("K%d" % m["over"][k]["params"][v])
            v += 1
            res.append(t + " " + name)
        else:
            res.append(ndecl(p["kind"], name))
    return ", ".join(res)


def emit_method(h, m, w):
    i = m["id"]
    w("")
    w("// method %d" % i)
    if m["ret"] == "vp":
        w("using VpRet%d = %s;" % (i, VP % ("K%d" % m["retcls"])))
    reg = ", Reg"
    if m["macro"]:
        w("BOOST_OPENMETHOD(m%d, (%s), %s%s);" % (i, plist(m), rtype(m), reg))
    else:
        w("struct m%d_id;" % i)
        w("using m%d = bom::method<m%d_id, %s(%s), Reg>;" % (i, i, rtype(m), plist(m)))
    for k, o in enumerate(m["over"]):
        g = "r_%d_%d" % (i, k)
        code = 1000 * i + 10 * k + 7
        if m["ret"] in ("trl", "trc", "trp", "trr"):
            w("static rt::Tr %s(%d);" % (g, code))
        elif m["ret"] == "nc":
            w("static rt::NC %s(%d);" % (g, code))
        elif m["ret"] == "shared":
            w("static std::shared_ptr<rt::NC> %s = std::make_shared<rt::NC>(%d);" % (g, code))
        elif covariant(m) or m["ret"] == "vp":
            w("static K%d %s;" % (o["ret"], g))
        if m["macro"]:
            w("BOOST_OPENMETHOD_OVERRIDE(m%d, (%s), %s) {" % (i, plist(m, k), rtype(m, k)))
        else:
            w("static %s o_%d_%d(%s) {" % (rtype(m, k), i, k, plist(m, k)))
        w("    rt::entered.push_back(%d);" % (100 * i + k))
        v = 0
        fwd = []
        for j, p in enumerate(m["params"]):
            a = "a%d" % j
            if p["v"]:
                kind = VKINDS[p["kind"]]
                d = o["params"][v]
                x = "(" + kind.deref % a + ")"
                w("    RT_CHECK(rt::whole(%s) == rt::want[%d], \"method %d overrider %d: "
                  "parameter %d (%s) is not the caller's object\");" % (
                      x, j, i, k, j, p["kind"]))
                w("    RT_CHECK(%s.tag%d == %d, \"method %d overrider %d: parameter %d (%s) "
                  "points to another sub-object\");" % (x, d, 0x3000 + d, i, k, j, p["kind"]))
                if kind.who:
                    for b in h.roots(d):
                        w("    RT_CHECK(who%d::fn(%s) == rt_value[%d], \"method %d overrider "
                          "%d: parameter %d (%s) has the v-table of another class\");" % (
                              b, a, j, i, k, j, p["kind"]))
                fwd.append(kind.fwd % a)
                v += 1
            else:
                w("    RT_CHECK(%s, \"method %d overrider %d: parameter %d (%s)\");" % (
                    ncheck(p["kind"], j, a), i, k, j, p["kind"]))
                fwd.append(NFWD.get(p["kind"], "%s") % a)
        if o["throws"]:
            w("    throw Ex{%d};" % code)
        if o["next"]:
            call = "%s(%s)" % ("next" if m["macro"] else "m%d::next<o_%d_%d>" % (i, i, k),
                               ", ".join(fwd))
            if m["macro"]:
                w("    RT_CHECK(has_next(), \"has_next\");")
            else:
                w("    RT_CHECK((m%d::has_next<o_%d_%d>()), \"has_next\");" % (i, i, k))
            if covariant(m) or m["ret"] == "void":
                w("    %s;" % call)
            else:
                w("    return %s;" % call)
        ret = {"void": "", "int": str(code), "tr": "rt::Tr(%d)" % code, "trl": g, "trc": g,
               "trr": "std::move(%s)" % g, "bool": "true" if k % 2 else "false",
               "trp": "&" + g, "uniq": "std::make_unique<int>(%d)" % code,
               "str": "\"result number %d, a long one\"" % code, "bptr": "&" + g, "cbptr": "&" + g,
               "bref": g, "vp": "VpRet%d(%s)" % (i, g), "nc": g, "big": "rt::big(%d)" % code,
               "shared": g}[m["ret"]]
        if not o["throws"] and not (o["next"] and not covariant(m) and m["ret"] != "void"):
            w("    return %s;" % ret)
        w("}")
    if not m["macro"]:
        fns = ["o_%d_%d" % (i, k) for k in range(len(m["over"]))]
        if m["together"]:
            w("static m%d::override<%s> reg%d;" % (i, ", ".join(fns), i))
        else:
            for f in fns:
                w("BOOST_OPENMETHOD_REGISTER(m%d::override<%s>);" % (i, f))


def emit_call(h, m, c, w, n):
    i = m["id"]
    ch = chain(h, m, c["args"])
    last = ch[-1]
    code = 1000 * i + 10 * last + 7
    own = ch[0]  # covariant results come from the first one
    throws = m["over"][last]["throws"]
    w("    { // call %d" % n)
    args, post, v = [], [], 0
    for j, p in enumerate(m["params"]):
        if p["v"]:
            X, S = c["args"][v], c["stat"][v]
            v += 1
            d, a, o, q = varg(p["kind"], c["forms"][j], j, X, S, p["cls"])
            for l in d:
                w("        " + l)
            w("        rt::want[%d] = rt::whole(%s);" % (j, o))
            w("        rt_value[%d] = %d;" % (j, X))
        else:
            d, a, q = narg(p["kind"], c["forms"][j], j, c["vals"][j])
            for l in d:
                w("        " + l)
            w("        rt_value[%d] = %d;" % (j, c["vals"][j]))
        args.append(a)
        post += q
    w("        rt_depth = %d;" % len(ch))
    call = "m%d%s(%s)" % (i, "" if m["macro"] else "::fn", ", ".join(args))
    w("        rt::begin(\"call %d, method %d, with %s\");" % (
        n, i, " ".join("K%d" % a for a in c["args"])))
    g = "r_%d_%d" % (i, own if covariant(m) else last)
    if throws:
        w("        int thrown = 0;")
        w("        try { (void)%s; } catch (Ex& e) { thrown = e.code; }" % call)
        w("        RT_CHECK(thrown == %d, \"the exception of the overrider\");" % code)
        post = []
    else:
        B = m["retcls"]
        res = {
            "void": ("", "true"), "int": ("auto res = ", "res == %d" % code),
            "bool": ("auto res = ", "res == %s" % ("true" if last % 2 else "false")),
            "tr": ("rt::Tr res = ", "res.v == %d && !res.copies && !res.moved" % code),
            "trl": ("rt::Tr& res = ", "&res == &%s" % g),
            "trr": ("rt::Tr&& res = ", "&res == &%s && !res.moved" % g),
            "trc": ("const rt::Tr& res = ", "&res == &%s" % g),
            "trp": ("rt::Tr* res = ", "res == &%s" % g),
            "uniq": ("std::unique_ptr<int> res = ", "res && *res == %d" % code),
            "str": ("std::string res = ", "res == \"result number %d, a long one\"" % code),
            "bptr": ("K%d* res = " % B, "rt::whole(*res) == rt::whole(%s) && res->tag%d == %d" % (
                g, B, 0x3000 + B)),
            "cbptr": ("const K%d* res = " % B,
                      "rt::whole(*res) == rt::whole(%s) && res->tag%d == %d" % (
                          g, B, 0x3000 + B)),
            "bref": ("K%d& res = " % B, "rt::whole(res) == rt::whole(%s) && res.tag%d == %d" % (
                g, B, 0x3000 + B)),
            "vp": ("auto res = ", "rt::whole(*res) == rt::whole(%s)" % g +
                   "".join(" && who%d::fn(res) == %d" % (b, m["over"][last]["ret"])
                           for b in h.roots(B))),
            "nc": ("rt::NC& res = ", "&res == &%s" % g),
            "big": ("rt::Big res = ", "rt::same(res, %d)" % code),
            "shared": ("auto res = ", "res == %s && res.use_count() == 2" % g),
        }[m["ret"]]
        w("        %s%s;" % (res[0], call))
        w("        RT_CHECK(%s, \"the result\");" % res[1])
    w("        rt::end({%s});" % ", ".join(str(100 * i + k) for k in ch))
    for q in post:
        w("        " + q)
    w("    }")
    w("    RT_CHECK(rt::live == live0, \"objects are left, or were destroyed twice\");")


# ------------------------------------------------------------------ shrinking
def smaller(prog):
    """Programs with something removed, biggest removals first."""
    ms = prog["methods"]
    for i in range(len(ms)):
        if len(ms) > 1:
            p = copy.deepcopy(prog)
            p["methods"] = [copy.deepcopy(ms[i])]
            yield p
    for i, m in enumerate(ms):
        for j in range(len(m["calls"])):
            if len(m["calls"]) > 1:
                p = copy.deepcopy(prog)
                p["methods"][i]["calls"] = [m["calls"][j]]
                yield p
    for i, m in enumerate(ms):
        for j, q in enumerate(m["params"]):
            if not q["v"]:
                p = copy.deepcopy(prog)
                del p["methods"][i]["params"][j]
                for c in p["methods"][i]["calls"]:
                    del c["forms"][j], c["vals"][j]
                yield p
        for k in range(len(m["over"])):
            if len(m["over"]) > 1:
                p = copy.deepcopy(prog)
                del p["methods"][i]["over"][k]
                h = Hierarchy(p["bases"], p["mixins"])
                q = p["methods"][i]
                for o in q["over"]:
                    o["next"] = False
                if all(chain(h, q, c["args"]) for c in q["calls"]):
                    yield p
        if m["ret"] != "int":
            p = copy.deepcopy(prog)
            p["methods"][i]["ret"] = "int"
            yield p


def describe(prog):
    """(number of calls, their signatures, labels, a sample)."""
    h = Hierarchy(prog["bases"], prog["mixins"])
    n, sigs, labels, sample = 0, set(), {}, ""

    def label(s):
        labels[s] = labels.get(s, 0) + 1
    for m in prog["methods"]:
        for c in m["calls"]:
            n += 1
            ch = chain(h, m, c["args"])
            sig, v, forms = [prog["reg"], m["ret"], m["macro"], len(ch)], 0, []
            for j, p in enumerate(m["params"]):
                if p["v"]:
                    X, S, O = c["args"][v], c["stat"][v], m["over"][ch[0]]["params"][v]
                    # what is known of the classes of the argument at each stage
                    sig.append((p["kind"], c["forms"][j], S != p["cls"], X != O,
                                O != p["cls"], any(x for _, x in h.bases[O]),
                                bool(h.bases[O]) and h.bases[O][0][0] != p["cls"]))
                    v += 1
                else:
                    sig.append((p["kind"], c["forms"][j] % 2))
                label("parameter " + p["kind"])
            label("result " + m["ret"])
            label("registry " + prog["reg"])
            label("mode " + prog["mode"])
            label("macros" if m["macro"] else "core API")
            if len(ch) > 1:
                label("next")
            if m["over"][ch[-1]]["throws"]:
                label("exception")
            sigs.add(repr(sig))
            sample = "%s m%d(%s) called with (%s), overriders %s run, in %s" % (
                rtype(m), m["id"], plist(m), ", ".join("K%d" % a for a in c["args"]),
                ch, prog["reg"])
    return n, sigs, labels, sample


if __name__ == "__main__":
    import sys
    for name, text in emit(gen_program(int(sys.argv[1]))).items():
        print(text)
