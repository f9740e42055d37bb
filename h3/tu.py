"""Generates programs of several translation units that use the macros (C22).

The generator follows the rules of C++ name lookup to find which method an
overrider or a call designates, and only writes those that designate one."""
import copy
import random

from h3.gen import Hierarchy, gen_hierarchy, best

NS = ["", "a", "a::b", "c", "a::b::d"]
KINDS = {
    # kind: (in the method, in the overrider, the object, needs an lvalue of a class)
    "ref": ("bom::virtual_<%s&>", "%s&", "%s"),
    "cref": ("bom::virtual_<const %s&>", "const %s&", "%s"),
    "ptr": ("bom::virtual_<%s*>", "%s*", "*%s"),
    "cptr": ("bom::virtual_<const %s*>", "const %s*", "*%s"),
    "vp": ("bom::virtual_ptr<%s@>", "bom::virtual_ptr<%s@>", "*%s"),
    "cvp": ("const bom::virtual_ptr<%s@>&", "const bom::virtual_ptr<%s@>&", "*%s"),
    "vpc": ("bom::virtual_ptr<const %s@>", "bom::virtual_ptr<const %s@>", "*%s"),
    "csvp": ("const bom::virtual_ptr<std::shared_ptr<%s>@>&",
             "const bom::virtual_ptr<std::shared_ptr<%s>@>&", "*%s"),
    "csp": ("bom::virtual_<const std::shared_ptr<%s>&>", "const std::shared_ptr<%s>&", "*%s"),
}
RETS = ["int", "void", "std::string", "std::pair<int, int>", "std::map<int, int>::value_type"]


# ------------------------------------------------------------------ the model
class World:
    def __init__(self, prog):
        self.p = prog
        self.h = Hierarchy(prog["bases"], [False] * len(prog["bases"]))

    def home(self, c):
        """Namespace of a class; those local to a file have their own."""
        ns = self.p["cns"][c]
        tu = self.p["ctu"][c]
        return ns if tu is None else "%s#%d" % (ns, tu)

    def assoc(self, params, args):
        """Namespaces associated with the arguments."""
        res, i = set(), 0
        for q in params:
            if q["v"]:
                for b in range(self.h.n):
                    if self.h.derives(args[i], b):
                        res.add(self.home(b))
                i += 1
            elif q["kind"] in ("tag", "tagref"):
                res.add(self.p["tags"][q["tag"]])
        return res

    def visible(self, name, ns, tu, params, args):
        """Methods found by unqualified lookup, from ns in tu, and by the arguments."""
        ms = [m for m in self.p["methods"] if m["name"] == name and
              (m["tu"] is None or m["tu"] == tu)]
        found = set()
        scope = ns
        while True:
            here = [m["id"] for m in ms if m["ns"] == scope]
            if here:
                found |= set(here)
                break
            if not scope:
                break
            scope = scope.rpartition("::")[0]
        for a in self.assoc(params, args):
            for m in ms:
                if a == (m["ns"] if m["tu"] is None else "%s#%d" % (m["ns"], m["tu"])):
                    found.add(m["id"])
        return found

    def viable(self, m, other, args):
        """Can m be called with arguments for the parameters of other? Errs by yes."""
        if len(m["params"]) != len(other["params"]):
            return False
        i = 0
        for q, o in zip(m["params"], other["params"]):
            if q["v"] != o["v"]:
                return False
            if q["v"]:
                if not self.h.derives(args[i], q["cls"]):
                    return False
                i += 1
            elif q["kind"].replace("ref", "") != o["kind"].replace("ref", "") or \
                    q.get("tag") != o.get("tag"):
                return False
        return True

    def found(self, m, ns, tu, args):
        """Does the name designate m, and nothing else?"""
        ids = self.visible(m["name"], ns, tu, m["params"], args)
        return m["id"] in ids and not any(
            o["id"] in ids and o is not m and self.viable(o, m, args)
            for o in self.p["methods"])

    def dispatch(self, m, args, without=None):
        app = [k for k, o in enumerate(m["over"]) if k != without and
               all(self.h.derives(a, q) for a, q in zip(args, o["params"]))]
        return best(self.h, m, app)

    def next_of(self, m, k):
        return self.dispatch(m, m["over"][k]["params"], without=k)

    def trace(self, m, k, depth=0):
        """Overriders that run when k is called; None if it ends with an error."""
        if k is None or depth > 8:
            return None
        o = m["over"][k]
        res = [k]
        for f, t in (("direct", o["direct"]), ("next", self.next_of(m, k))):
            if o[f] is None or o[f] is False:
                continue
            r = self.trace(m, t, depth + 1)
            if r is None:
                return None
            res += r
        return res


def call_target(w, m, c):
    return c["over"] if c["form"] == "direct" else w.dispatch(m, c["args"])


def valid(prog):
    w = World(prog)
    for m in prog["methods"]:
        for c in m["calls"]:
            if w.trace(m, call_target(w, m, c)) is None:
                return False
    return True


# ----------------------------------------------------------------- generation
def gen_program(seed):
    for i in range(50):
        prog = try_program(random.Random(seed * 64 + i))
        if sum(len(m["calls"]) for m in prog["methods"]) >= 6:
            prog["seed"] = seed
            return prog
    raise RuntimeError("no program")


def try_program(r):
    mode = r.choice(["c++17"] * 5 + ["c++20"] * 2 + ["checks", "other default"] * 2 + ["gcc"])
    h = gen_hierarchy(r, True)
    ntu = r.randint(2, 4)
    nss = [""] + r.sample(NS[1:], r.randint(1, 3))
    if "a::b::d" in nss or "a::b" in nss:
        nss = [n for n in NS if n in nss or n in ("a",) or
               (n == "a::b" and "a::b::d" in nss)]
    bases = [list(b) for b in h.bases]
    cns = [r.choice(nss) for _ in bases]
    ctu = [None] * len(bases)
    for tu in range(ntu):
        for _ in range(r.choice([0, 0, 1, 1, 2])):
            bases.append([(r.randrange(h.n), False)])
            cns.append(r.choice(nss))
            ctu.append(tu)
    w_h = Hierarchy(bases, [False] * len(bases))
    prog = dict(mode=mode, ntu=ntu, nss=nss, bases=bases, cns=cns, ctu=ctu,
                tags=[r.choice(nss) for _ in range(2)], methods=[],
                headers=[sorted(r.sample(range(ntu), r.randint(1, ntu))) for _ in range(2)],
                link=r.sample(range(ntu), ntu), friends=r.random() < 0.5,
                second=r.random() < 0.4,
                # registration: every class with its bases, spread over the files
                reg=[], mixed=None)
    order = r.sample(range(len(bases)), len(bases))
    at_once = r.random() < 0.3
    if at_once:
        prog["reg"].append((r.randrange(ntu), [c for c in order if ctu[c] is None]))
        for c in order:
            if ctu[c] is not None:
                prog["reg"].append((ctu[c], [c] + [b for b, _ in bases[c]]))
    else:
        for c in order:
            prog["reg"].append((r.randrange(ntu) if ctu[c] is None else ctu[c],
                                [c] + [b for b, _ in bases[c]]))
            if r.random() < 0.2:  # twice
                prog["reg"].append((r.randrange(ntu) if ctu[c] is None else ctu[c],
                                    [b for b, _ in bases[c]] + [c]))
    w = World(prog)
    for i in range(r.randint(4, 8)):
        prog["methods"].append(gen_method(r, w, prog, i))
    for m in prog["methods"]:
        gen_overriders(r, w, prog, m)
    prog["methods"] = [m for m in prog["methods"] if m["over"]]
    for m in prog["methods"]:
        gen_calls(r, w, prog, m)
    if r.random() < 0.08 and mode == "c++17":
        prog["mixed"] = r.randrange(1, ntu)
    return prog


def gen_method(r, w, prog, i):
    tu = r.randrange(prog["ntu"]) if r.random() < 0.15 else None
    m = dict(id=i, tu=tu, name="loc" if tu is not None else r.choice(["m", "m", "m", "act"]),
             ns=r.choice(prog["nss"]), second=prog["second"] and r.random() < 0.4,
             params=[], ret=r.choice(RETS), over=[], calls=[])
    slots = ["v"] * r.choice([1, 1, 1, 2, 2]) + ["n"] * r.choice([0, 0, 1, 1, 2])
    r.shuffle(slots)
    for s in slots:
        if s == "v":
            b = r.choice([c for c in range(w.h.n) if prog["ctu"][c] is None])
            if r.random() < 0.6:
                b = r.choice(w.h.roots(b))
            m["params"].append(dict(v=True, kind=r.choice(list(KINDS)), cls=b))
        else:
            k = r.choice(["int", "str", "tag", "tagref"])
            q = dict(v=False, kind=k)
            if k.startswith("tag"):
                q["tag"] = r.randrange(2)
            m["params"].append(q)
    return m


def twin(m, o):
    return (m["name"], m["ret"], o["ns"], o["tu"] if m["tu"] is not None else None,
            repr([(q["kind"], q.get("tag")) for q in m["params"]]), repr(o["params"]),
            m["second"])


def gen_overriders(r, w, prog, m):
    vparams = [q for q in m["params"] if q["v"]]
    used = {twin(n, o) for n in prog["methods"] for o in n["over"]}
    for _ in range(r.randint(1, 6)):
        ps = [r.choice(w.h.derived(q["cls"])) if r.random() < 0.85 else q["cls"]
              for q in vparams]
        if ps in [o["params"] for o in m["over"]]:
            continue
        local = {prog["ctu"][c] for c in ps} - {None}
        if m["tu"] is not None:
            local.add(m["tu"])
        if len(local) > 1:
            continue
        how = "over" if local else r.choice(["over", "over", "over", "inline", "declare"])
        tu = local.pop() if local else r.randrange(prog["ntu"])
        if m["tu"] is not None:
            ns = m["ns"]
        else:
            # mostly not where the method is
            ns = r.choice(prog["nss"])
        o = dict(params=ps, ns=ns, how=how, tu=tu, header=r.randrange(2), next=False,
                 direct=None)
        if not w.found(m, ns, tu, ps):
            continue
        if how != "over" and any(not w.found(m, ns, t, ps) for t in range(prog["ntu"])):
            continue
        if how == "declare" and tu not in prog["headers"][o["header"]]:
            o["tu"] = prog["headers"][o["header"]][0]
        if twin(m, o) in used:
            continue
        used.add(twin(m, o))
        m["over"].append(o)


def gen_calls(r, w, prog, m):
    vparams = [q for q in m["params"] if q["v"]]
    for k, o in enumerate(m["over"]):
        if r.random() < 0.3:
            t = [j for j in range(k) if declared_before(prog, m, j, k) and
                 all(w.h.derives(a, b) for a, b in zip(o["params"], m["over"][j]["params"]))]
            if t:
                o["direct"] = r.choice(t)
    for _ in range(60):
        if len(m["calls"]) >= 6:
            break
        o = r.choice(m["over"])
        args = [r.choice(w.h.derived(q)) for q in o["params"]]
        if r.random() < 0.2:
            args = [r.choice(w.h.derived(q["cls"])) for q in vparams]
        if w.dispatch(m, args) is None:
            continue
        local = {prog["ctu"][c] for c in args} - {None}
        if m["tu"] is not None:
            local.add(m["tu"])
        if len(local) > 1:
            continue
        tu = local.pop() if local else r.randrange(prog["ntu"])
        form = r.choice(["name", "name", "name", "qualified", "type", "direct"])
        c = dict(args=args, tu=tu, ns=r.choice(prog["nss"]), form=form, stat=[],
                 vals=[r.randrange(1, 900) for _ in m["params"]], over=None)
        for a, q in zip(args, vparams):
            c["stat"].append(r.choice([s for s in range(w.h.n) if w.h.derives(a, s) and
                                       w.h.derives(s, q["cls"]) and
                                       prog["ctu"][s] in (None, tu)]))
        if form == "direct":
            ok = [k for k, o in enumerate(m["over"]) if reachable(prog, m, k, tu) and
                  all(w.h.derives(a, b) for a, b in zip(args, o["params"]))]
            if not ok:
                continue
            c["over"] = r.choice(ok)
            c["stat"] = list(m["over"][c["over"]]["params"])
        elif form == "type" or m["tu"] is not None:
            c["ns"] = m["ns"]
        if form == "name" and not w.found(m, c["ns"], tu, c["stat"]):
            continue
        if form == "qualified" and any(
                n is not m and n["name"] == m["name"] and n["ns"] == m["ns"] and
                n["tu"] in (None, tu) and w.viable(n, m, c["stat"])
                for n in prog["methods"]):
            continue
        m["calls"].append(c)
    # next, where the answer does not depend on the arguments (see C03)
    for k, o in enumerate(m["over"]):
        if r.random() < 0.4:
            continue
        n = w.next_of(m, k)
        if n is not None and all(
                w.dispatch(m, c["args"], without=k) == n for c in m["calls"]
                if all(w.h.derives(a, b) for a, b in zip(c["args"], o["params"]))):
            o["next"] = True
    m["calls"] = [c for c in m["calls"] if w.trace(m, call_target(w, m, c)) is not None]


def reachable(prog, m, k, tu):
    """Is the overrider declared in that file?"""
    o = m["over"][k]
    if o["how"] == "over":
        return o["tu"] == tu
    return tu in prog["headers"][o["header"]]


def declared_before(prog, m, j, k):
    a, b = m["over"][j], m["over"][k]
    if b["how"] == "over":
        return a["how"] != "over" and b["tu"] in prog["headers"][a["header"]] or \
            a["how"] == "over" and a["tu"] == b["tu"]
    if b["how"] == "inline":
        return a["how"] != "over" and a["header"] == b["header"]
    return a["how"] != "over" and a["header"] == b["header"]


# ------------------------------------------------------------------- emission
def q(ns):
    return "::" + ns + "::" if ns else "::"


def emit(prog):
    w = World(prog)
    h = w.h
    locals_of = {}
    names = []
    for c in range(h.n):
        if prog["ctu"][c] is None:
            names.append("K%d" % c)
        elif prog["mode"] == "gcc":  # the same names in all the files
            k = (prog["ctu"][c], prog["cns"][c])
            locals_of[k] = locals_of.get(k, 0) + 1
            names.append("L%d" % locals_of[k])
        else:  # clang makes equal type_info objects for them (with libstdc++)
            names.append("L%d" % c)

    def cls(c):
        return q(prog["cns"][c]) + names[c]

    def tag(i):
        return "%sT%d" % (q(prog["tags"][i]), i)

    def ptype(m, j, c=None):
        x = m["params"][j]
        if x["v"]:
            t = KINDS[x["kind"]][0 if c is None else 1]
            t = t.replace("@", ", rt::checked_registry" if m["second"] else "")
            return t % cls(x["cls"] if c is None else c)
        return {"int": "int", "str": "const std::string&"}.get(x["kind"]) or (
            tag(x["tag"]) if x["kind"] == "tag" else "const %s&" % tag(x["tag"]))

    def plist(m, o=None, named=True):
        res, v = [], 0
        for j, x in enumerate(m["params"]):
            c = None
            if x["v"]:
                c = o["params"][v] if o else None
                v += 1
            res.append(ptype(m, j, c) + (" a%d" % j if named else ""))
        return ", ".join(res)

    def nested(out, ns, lines):
        if ns:
            out.append("namespace %s {" % ns)
        out.extend(lines)
        if ns:
            out.append("}")

    # ----------------------------------------------------------- all.hpp
    out = ["#pragma once", '#include "rt.hpp"']
    conts = set()
    for m in prog["methods"]:
        if m["tu"] is None:
            conts |= {(o["ns"], m["name"]) for o in m["over"]}
    conts = sorted(conts)
    for c in range(h.n):
        if prog["ctu"][c] is None:
            nested(out, prog["cns"][c], ["struct K%d;" % c])
    for i, ns in enumerate(prog["tags"]):
        nested(out, ns, ["class T%d;" % i])
    if prog["friends"]:
        for ns, name in conts:
            nested(out, ns, ["template<typename...> struct BOOST_OPENMETHOD_OVERRIDERS(%s);" %
                             name])

    def friends(c=None, t=None):
        res = []
        if not prog["friends"]:
            return res
        if c is not None:
            for ns, name in conts:
                res.append("    template<typename...> friend struct %sBOOST_OPENMETHOD_"
                           "OVERRIDERS(%s);" % (q(ns), name))
            return res
        for m in prog["methods"]:
            if m["tu"] is None and any(x.get("tag") == t for x in m["params"]):
                for o in m["over"]:
                    if all(prog["ctu"][x] is None for x in o["params"]):
                        res.append("    friend struct %sBOOST_OPENMETHOD_OVERRIDER(%s, (%s), "
                                   "%s);" % (q(o["ns"]), m["name"], plist(m, o), m["ret"]))
        return res

    for i, ns in enumerate(prog["tags"]):
        nested(out, ns, ["class T%d {" % i, "    int secret = %d;" % (70 + i)] +
               friends(t=i) + ["  public:", "    int open = 1;", "};"])

    def klass(c):
        bs = ["%s%s" % ("virtual " if v else "", cls(b)) for b, v in prog["bases"][c]]
        ls = ["struct %s%s {" % (names[c], (" : " + ", ".join(bs)) if bs else "")]
        if not bs:
            ls.append("    virtual ~%s() = default;" % names[c])
        ls.append("  private:")
        ls.append("    int secret = %d;" % c)
        if prog["ctu"][c] is None:
            ls += friends(c=c)
        ls.append("};")
        return ls
    for c in range(h.n):
        if prog["ctu"][c] is None:
            nested(out, prog["cns"][c], klass(c))

    def method(m):
        return ["BOOST_OPENMETHOD(%s, (%s), %s%s);" % (
            m["name"], plist(m), m["ret"], ", rt::checked_registry" if m["second"] else "")]
    for m in prog["methods"]:
        if m["tu"] is None:
            nested(out, m["ns"], method(m))
    # --------------------------------------------------------- overriders
    rets = {"int": "%d", "void": "", "std::string": "\"overrider %d, a long string\"",
            "std::pair<int, int>": "std::pair<int, int>(%d, 1)",
            "std::map<int, int>::value_type": "std::map<int, int>::value_type(%d, 2)"}

    def value(m, k):
        code = 100 * m["id"] + k
        return rets[m["ret"]] % code if "%d" in rets[m["ret"]] else ""

    def body(m, k):
        o = m["over"][k]
        code = 100 * m["id"] + k
        ls = ["    rt::entered.push_back(%d);" % code]
        v = 0
        args = []
        for j, x in enumerate(m["params"]):
            args.append("a%d" % j)
            if x["v"]:
                obj = "(" + KINDS[x["kind"]][2] % ("a%d" % j) + ")"
                ls.append("    RT_CHECK(rt::whole(%s) == rt::want[%d], \"%s: argument %d is not "
                          "the caller's\");" % (obj, j, code, j))
                d = o["params"][v]
                v += 1
                if prog["friends"] and prog["ctu"][d] is None and m["tu"] is None:
                    ls.append("    RT_CHECK(%s.secret == %d, \"%s: parameter %d points to "
                              "another class\");" % (obj, d, code, j))
            elif x["kind"].startswith("tag"):
                ls.append("    (void)a%d.open;" % j)
                if prog["friends"] and m["tu"] is None and \
                        all(prog["ctu"][y] is None for y in o["params"]):
                    ls.append("    RT_CHECK(a%d.secret == %d, \"tag\");" % (j, 70 + x["tag"]))
            elif x["kind"] == "int":
                ls.append("    RT_CHECK(a%d == rt::ints[%d], \"%s: argument %d\");" % (
                    j, j, code, j))
            else:
                ls.append("    RT_CHECK(a%d == std::to_string(rt::ints[%d]), \"%s: argument "
                          "%d\");" % (j, j, code, j))
        args = ", ".join(args)

        def use(call, t):
            if m["ret"] == "void":
                return "    %s;" % call
            return "    RT_CHECK((%s == %s), \"result\");" % (call, value(m, t))
        if o["direct"] is not None:
            t = m["over"][o["direct"]]
            ls.append(use("%s::fn(%s)" % (
                (q(t["ns"]) if m["tu"] is None else "") +
                "BOOST_OPENMETHOD_OVERRIDER(%s, (%s), %s)" % (
                    m["name"], plist(m, t, False), m["ret"]), args), o["direct"]))
        if o["next"]:
            ls.append("    RT_CHECK(has_next(), \"has_next\");")
            ls.append(use("next(%s)" % args, w.next_of(m, k)))
        if m["ret"] != "void":
            ls.append("    return %s;" % value(m, k))
        return ["{"] + ls + ["}"]

    def over(m, k, macro, with_body=True):
        o = m["over"][k]
        return ["BOOST_OPENMETHOD_%s(%s, (%s), %s)%s" % (
            macro, m["name"], plist(m, o), m["ret"], "" if with_body else ";")] + (
                body(m, k) if with_body else [])
    files = {"all.hpp": out}
    for i in range(2):
        out = ["#pragma once", '#include "all.hpp"']
        # (declared first: an inline overrider may call another one)
        for m in prog["methods"]:
            for k, o in enumerate(m["over"]):
                if o["header"] == i and o["how"] == "declare":
                    nested(out, o["ns"], over(m, k, "DECLARE_OVERRIDER", False))
        for m in prog["methods"]:
            for k, o in enumerate(m["over"]):
                if o["header"] == i and o["how"] == "inline":
                    nested(out, o["ns"], over(m, k, "INLINE_OVERRIDE"))
        files["o%d.hpp" % i] = out
    # ---------------------------------------------------------------- files
    n = 0
    for tu in range(prog["ntu"]):
        out = ['#include "all.hpp"']
        for i, tus in enumerate(prog["headers"]):
            if tu in tus:
                out.append('#include "o%d.hpp"' % i)
        for c in range(h.n):
            if prog["ctu"][c] == tu:
                nested(out, prog["cns"][c], ["namespace {"] + klass(c) + ["}"])
        for t, cs in prog["reg"]:
            if t == tu:
                l = ", ".join(cls(c) for c in cs)
                out.append("BOOST_OPENMETHOD_CLASSES(%s);" % l)
                if prog["second"]:
                    out.append("BOOST_OPENMETHOD_CLASSES(%s, rt::checked_registry);" % l)
        # g++ does not see methods declared after an overrider of another method of
        # that name, unless found by their arguments
        gcc = prog["mode"] == "gcc"
        for m in prog["methods"]:
            if gcc and m["tu"] == tu:
                nested(out, m["ns"], ["namespace {"] + method(m) + ["}"])
        for m in prog["methods"]:
            if m["tu"] == tu:
                ls = ["namespace {"] + ([] if gcc else method(m))
                for k in range(len(m["over"])):
                    ls += over(m, k, "OVERRIDE")
                nested(out, m["ns"], ls + ["}"])
                continue
            for k, o in enumerate(m["over"]):
                if o["tu"] != tu or o["how"] == "inline":
                    continue
                nested(out, o["ns"], over(m, k, "OVERRIDE" if o["how"] == "over"
                                          else "DEFINE_OVERRIDER"))
        for m in prog["methods"]:
            for c in m["calls"]:
                if c["tu"] == tu:
                    n += 1
                    nested(out, c["ns"], emit_call(prog, w, m, c, n, cls, tag, plist, value))
        if tu == 0:
            out.append("int main() {")
            if prog["mixed"] is not None:
                out.append("    return rt::expect_odr_violation();")
            else:
                out.append("    rt::init_program();")
                if prog["second"]:
                    out.append("    rt::init_checked();")
                out.append("    return rt::run_cases(%d);" % sum(
                    len(m["calls"]) for m in prog["methods"]))
            out.append("}")
        files["tu%d.cpp" % tu] = out
    res = {k: "\n".join(v) + "\n" for k, v in files.items() if k.endswith(".hpp")}
    for tu in prog["link"]:
        res["tu%d.cpp" % tu] = "\n".join(files["tu%d.cpp" % tu]) + "\n"
    return res


def emit_call(prog, w, m, c, n, cls, tag, plist, value):
    out = ["static void call_%d() { // method %d" % (n, m["id"])]
    args, v = [], 0
    for j, x in enumerate(m["params"]):
        if x["v"]:
            X, S = c["args"][v], c["stat"][v]
            v += 1
            k = x["kind"]
            if k in ("csvp", "csp"):
                out.append("    std::shared_ptr<%s> p%d = std::make_shared<%s>();" % (
                    cls(S), j, cls(X)))
                out.append("    rt::want[%d] = rt::whole(*p%d);" % (j, j))
                if k == "csvp":
                    out.append("    bom::virtual_ptr<std::shared_ptr<%s>%s> q%d(p%d);" % (
                        cls(S), ", rt::checked_registry" if m["second"] else "", j, j))
                    args.append("q%d" % j)
                else:
                    args.append("p%d" % j)
                continue
            out.append("    %s o%d;" % (cls(X), j))
            out.append("    rt::want[%d] = rt::whole(o%d);" % (j, j))
            if k in ("ptr", "cptr"):
                args.append("static_cast<%s*>(&o%d)" % (cls(S), j))
            else:
                args.append("static_cast<%s&>(o%d)" % (cls(S), j))
                if k in ("vp", "cvp", "vpc") and (c["form"] == "direct" or
                                                  c["vals"][j] % 2):
                    args[-1] = "bom::virtual_ptr<%s%s>(%s)" % (
                        cls(S), ", rt::checked_registry" if m["second"] else "", args[-1])
        elif x["kind"].startswith("tag"):
            out.append("    %s t%d;" % (tag(x["tag"]), j))
            args.append("t%d" % j)
        elif x["kind"] == "int":
            out.append("    int n%d = rt::ints[%d] = %d;" % (j, j, c["vals"][j]))
            args.append("n%d" % j)
        else:
            out.append("    rt::ints[%d] = %d;" % (j, c["vals"][j]))
            out.append("    std::string n%d = \"%d\";" % (j, c["vals"][j]))
            args.append("n%d" % j)
    args = ", ".join(args)
    k = call_target(w, m, c)
    if c["form"] == "name":
        call = "%s(%s)" % (m["name"], args)
    elif c["form"] == "qualified":
        call = "%s%s(%s)" % (q(m["ns"]), m["name"], args)
    elif c["form"] == "type":
        call = "BOOST_OPENMETHOD_TYPE(%s, (%s), %s%s)::fn(%s)" % (
            m["name"], plist(m, None, False), m["ret"],
            ", rt::checked_registry" if m["second"] else "", args)
    else:
        o = m["over"][c["over"]]
        call = "%sBOOST_OPENMETHOD_OVERRIDER(%s, (%s), %s)::fn(%s)" % (
            q(o["ns"]), m["name"], plist(m, o, False), m["ret"], args)
    out.append("    rt::begin(\"call %d, of method %d (%s%s)\");" % (
        n, m["id"], q(m["ns"]), m["name"]))
    if m["ret"] == "void":
        out.append("    %s;" % call)
    else:
        out.append("    RT_CHECK((%s == %s), \"result\");" % (call, value(m, k)))
    out.append("    rt::end({%s});" % ", ".join(
        str(100 * m["id"] + t) for t in w.trace(m, k)))
    out.append("}")
    out.append("static rt::Case case_%d(%d, call_%d);" % (n, n, n))
    return out


def modes_of(prog):
    """Files that are not compiled like the others."""
    return {} if prog["mixed"] is None else {"tu%d.cpp" % prog["mixed"]: "checks"}


def describe(prog):
    w = World(prog)
    n, sigs, labels, sample = 0, set(), {}, ""

    def label(s):
        labels[s] = labels.get(s, 0) + 1
    label("programs, " + prog["mode"] + (", mixed" if prog["mixed"] is not None else ""))
    for m in prog["methods"]:
        ovl = sum(x["name"] == m["name"] for x in prog["methods"])
        for o in m["over"]:
            label("overriders, " + o["how"])
            if o["ns"] != m["ns"]:
                label("overriders in another namespace")
                if not (o["ns"] + "::").startswith(m["ns"] + "::") and m["ns"]:
                    label("overriders found by their arguments")
            if any(prog["ctu"][c] is not None for c in o["params"]):
                label("overriders for classes of one file")
        for c in m["calls"]:
            n += 1
            k = call_target(w, m, c)
            o = m["over"][k]
            label("calls by " + c["form"])
            sigs.add(repr((prog["mode"], c["form"], [x["kind"] for x in m["params"]], m["ret"],
                           m["second"], min(ovl, 4), m["tu"] is None, o["how"], m["ns"], o["ns"],
                           c["ns"], len(w.trace(m, k)), o["tu"] == c["tu"],
                           prog["mixed"] is not None)))
            sample = "%s%s(%s), %d methods of that name, called by %s from namespace '%s' in " \
                "tu%d: runs overriders %s, the first %s in namespace '%s' in tu%d" % (
                    q(m["ns"]), m["name"], ", ".join(
                        x["kind"] + (" K%d" % x["cls"] if x["v"] else "") for x in m["params"]),
                    ovl, c["form"], c["ns"], c["tu"], w.trace(m, k), o["how"], o["ns"], o["tu"])
    return n, sigs, labels, sample


def smaller(prog):
    ms = prog["methods"]
    for i in range(len(ms)):
        p = copy.deepcopy(prog)
        del p["methods"][i]
        if p["methods"] and any(m["calls"] for m in p["methods"]):
            yield p
    for i, m in enumerate(ms):
        if len(m["calls"]) > 1 or any(x["calls"] for x in ms if x is not m):
            for j in range(len(m["calls"])):
                p = copy.deepcopy(prog)
                del p["methods"][i]["calls"][j]
                yield p
        for k in range(len(m["over"])):
            if len(m["over"]) < 2 or any(o["direct"] is not None for o in m["over"]) or \
                    any(c["over"] is not None for c in m["calls"]):
                continue
            p = copy.deepcopy(prog)
            del p["methods"][i]["over"][k]
            for o in p["methods"][i]["over"]:
                o["next"] = False
            if valid(p):
                yield p
        for k, o in enumerate(m["over"]):
            for f, x in (("direct", None), ("next", False)):
                if o[f] is not x:
                    p = copy.deepcopy(prog)
                    p["methods"][i]["over"][k][f] = x
                    yield p
    if prog["friends"]:
        p = copy.deepcopy(prog)
        p["friends"] = False
        yield p
    for i in range(len(prog["reg"])):
        p = copy.deepcopy(prog)
        c = p["reg"][i]
        del p["reg"][i]
        if sum(x[1][0] == c[1][0] for x in prog["reg"]) > 1:
            yield p


if __name__ == "__main__":
    import sys
    for name, text in emit(gen_program(int(sys.argv[1]))).items():
        print("//==== " + name)
        print(text)
