// Large programs: up to 140 classes, 80 methods, 100 overriders per method and
// 6 (in one method, 19) virtual parameters, to go past the sizes at which representations change
// (bits of a word, small vectors...).  The model precomputes sets of bits; the
// meaning is that of model.hpp.
#include "../lib/pbt.hpp"
#include "universe.hpp"

#include <algorithm>
#include <array>
#include <bitset>
#include <cstring>
#include <set>

namespace uni {
Table table;
MultiLog log_;

using pbt::Ctx;
using Set = std::bitset<MAXOV>;
constexpr int MAXN = NREC - 2; // real classes; the last record is the dummy's

static std::vector<Backend*> backends() {
    auto b = std::vector<Backend*>{
        backend_vec_chk(), backend_small(), backend_map_ind()};
    b[1]->small_ids = true;
    return b;
}

struct Rec {
    int cls;
    std::vector<int> bases;
};

struct Program {
    int n = 0; // class n is the dummy, of the methods not used
    std::vector<std::vector<int>> parents;
    std::vector<std::bitset<NREC>> anc; // reflexive
    std::vector<tid> ids;
    std::vector<Rec> recs;
    std::vector<int> active;
    int mp[NMETH][MAXAR], op[NMETH][MAXOV][MAXAR], mr[NMETH], orr[NMETH][MAXOV];
    // computed
    std::vector<Set> mask[NMETH][MAXAR];    // by class: overriders that accept it
    std::vector<Set> beaten_by[NMETH];      // by overrider
    std::vector<int> cand[NMETH][MAXAR];    // classes accepted by the method
    std::vector<int> groups[NMETH][MAXAR];  // one class for each different mask

    bool derives(int d, int b) const {
        return anc[d][b];
    }
};

struct Res {
    enum K { none, one, amb } k = none;
    int o = -1;
    bool operator==(const Res& b) const {
        return k == b.k && o == b.o;
    }
};

static std::string str(const Res& r) {
    return r.k == Res::none ? "none"
        : r.k == Res::amb   ? "ambiguous"
                            : "overrider " + std::to_string(r.o);
}

static Set applicable(const Program& w, int m, const int* t) {
    Set s;
    for (int k = 0; k < specs[m].overriders; ++k)
        s.set(k);
    for (int p = 0; p < arity(m); ++p)
        s &= w.mask[m][p][t[p]];
    return s;
}

static Set best(const Program& w, int m, const Set& a) {
    Set r;
    for (int k = 0; k < specs[m].overriders; ++k)
        if (a[k] && (w.beaten_by[m][k] & a).none())
            r.set(k);
    return r;
}

static Res dispatch(const Program& w, int m, const int* t, int without = -1) {
    auto a = applicable(w, m, t);
    if (without >= 0)
        a.reset(without);
    if (a.none())
        return {Res::none, -1};
    auto b = best(w, m, a);
    if (b.count() == 1)
        return {Res::one, int(b._Find_first())};
    return {Res::amb, -1};
}

// ------------------------------------------------------------- generation
static void hierarchy(Ctx& c, Program& w, int lo, int hi) {
    auto& t = c.t;
    w.n = t.range(lo, hi);
    w.parents.assign(w.n + 1, {});
    int style = t.weighted({3, 4, 3, 2, 2});
    int width = 2 + int(t.u(12));
    for (int i = 1; i < w.n; ++i) {
        std::set<int> ps;
        switch (style) {
        case 0: // trees
            if (!t.chance(1, 40))
                ps.insert(int(t.u(i)));
            break;
        case 1: // recent classes are extended
            for (int k = t.weighted({1, 12, 4, 2}); k--;)
                ps.insert(std::max(0, i - 1 - int(t.u(10))));
            break;
        case 2: // layers
            if (i >= width)
                for (int k = 1 + int(t.u(3)); k--;)
                    ps.insert((i / width - 1) * width + int(t.u(width)));
            break;
        case 3: // chain
            ps.insert(i - 1);
            break;
        case 4: // flat
            ps.insert(0);
            if (i > 10 && t.chance(1, 10))
                ps.insert(1 + int(t.u(i - 1)));
            break;
        }
        w.parents[i].assign(ps.begin(), ps.end());
    }
    w.anc.assign(w.n + 1, {});
    for (int i = 0; i <= w.n; ++i) {
        w.anc[i].set(i);
        for (int p : w.parents[i])
            w.anc[i] |= w.anc[p];
    }
    for (int i = 0; i < w.n; ++i) {
        std::vector<int> keep;
        for (int p : w.parents[i]) {
            bool red = false;
            for (int q : w.parents[i])
                red = red || (q != p && w.derives(q, p));
            if (!red)
                keep.push_back(p);
        }
        w.parents[i] = keep;
        c.hash(i < 64 ? w.anc[i].count() : i);
    }
    w.recs.clear();
    for (int i = 0; i < w.n; ++i)
        w.recs.push_back({i, w.parents[i]});
    t.shuffle(w.recs);
    c.label("classes", w.n);
}

static void identify(Ctx& c, Program& w, bool small) {
    auto& t = c.t;
    w.ids.clear();
    std::set<uint64_t> used;
    bool aligned = t.chance(2, 3);
    uint64_t salt = t.raw();
    for (int i = 0; i <= w.n; ++i) {
        uint64_t v, k = 0;
        do
            v = small     ? 1 + i * 2 + pbt::mix(salt + k++) % 2
                : aligned ? 0x7f0000001000ull + 16 * (pbt::mix(salt + 1000 * i + k++) % 4096)
                          : pbt::mix(salt + 1000 * i + k++);
        while (v == ~0ull || v == 0 || !used.insert(v).second);
        w.ids.push_back(tid(uintptr_t(v)));
    }
}

static void no_method(Program& w, int m) {
    for (int p = 0; p < MAXAR; ++p) {
        w.mp[m][p] = w.n;
        for (int k = 0; k < MAXOV; ++k)
            w.op[m][k][p] = w.n;
    }
    w.mr[m] = w.n;
    for (int k = 0; k < MAXOV; ++k)
        w.orr[m][k] = w.n;
}

static int below(Ctx& c, const Program& w, int base) {
    std::vector<int> d;
    for (int i = 0; i <= w.n; ++i)
        if (w.derives(i, base))
            d.push_back(i);
    return c.t.pick(d);
}

static int root(Ctx& c, const Program& w) {
    int cls = int(c.t.u(w.n));
    while (!w.parents[cls].empty() && c.t.chance(9, 10))
        cls = c.t.pick(w.parents[cls]);
    return cls;
}

static void method(Ctx& c, Program& w, int m) {
    auto& t = c.t;
    for (int p = 0; p < arity(m); ++p)
        w.mp[m][p] = p && t.chance(1, 2) ? w.mp[m][0] : root(c, w);
    if (arity(m) > 6) { // all general but in two positions
        for (int k = 0; k < specs[m].overriders; ++k) {
            std::copy(w.mp[m], w.mp[m] + MAXAR, w.op[m][k]);
            for (int i = 0; i < 2; ++i) {
                int p = int(t.u(arity(m)));
                w.op[m][k][p] = below(c, w, w.mp[m][p]);
            }
        }
        return;
    }
    // overriders in distinct positions, as far as there are any
    std::set<std::vector<int>> seen;
    for (int k = 0; k < specs[m].overriders; ++k)
        for (int tries = 0;; ++tries) {
            std::vector<int> o;
            for (int p = 0; p < arity(m); ++p)
                o.push_back(below(c, w, w.mp[m][p]));
            if (tries < 4 && !seen.insert(o).second)
                continue;
            std::copy(o.begin(), o.end(), w.op[m][k]);
            break;
        }
    if (specs[m].cls_return) {
        w.mr[m] = root(c, w);
        for (int k = 0; k < specs[m].overriders; ++k)
            w.orr[m][k] = below(c, w, w.mr[m]);
    }
}

static void compute(Program& w) {
    for (int m = 0; m < NMETH; ++m)
        for (int p = 0; p < MAXAR; ++p) {
            w.mask[m][p].clear();
            w.cand[m][p].clear();
            w.groups[m][p].clear();
        }
    for (int m : w.active) {
        int n = specs[m].overriders, ar = arity(m);
        for (int p = 0; p < ar; ++p) {
            w.mask[m][p].assign(w.n + 1, {});
            std::set<std::string> masks;
            for (int x = 0; x <= w.n; ++x) {
                for (int k = 0; k < n; ++k)
                    if (w.derives(x, w.op[m][k][p]))
                        w.mask[m][p][x].set(k);
                if (w.derives(x, w.mp[m][p])) {
                    w.cand[m][p].push_back(x);
                    if (masks.insert(w.mask[m][p][x].to_string()).second)
                        w.groups[m][p].push_back(x);
                }
            }
        }
        w.beaten_by[m].assign(n, {});
        for (int a = 0; a < n; ++a)
            for (int b = 0; b < n; ++b) {
                bool some = false, all = true;
                for (int p = 0; p < ar && all; ++p) {
                    int x = w.op[m][a][p], y = w.op[m][b][p];
                    if (x == y)
                        continue;
                    all = !w.derives(y, x);
                    some = some || w.derives(x, y);
                }
                if (some && all)
                    w.beaten_by[m][b].set(a);
            }
    }
}

static double tuples(const Program& w, int m, bool group) {
    double x = 1;
    for (int p = 0; p < arity(m); ++p)
        x *= double(group ? w.groups[m][p].size() : w.cand[m][p].size());
    return x;
}

static void methods(Ctx& c, Program& w, int few) {
    auto& t = c.t;
    for (int m = 0; m < NMETH; ++m)
        no_method(w, m);
    std::set<int> chosen;
    for (int i = 1 + int(t.u(few ? 2 : 4)); i--;)
        chosen.insert(int(t.u(10)));
    bool all = !few && t.chance(1, 2);
    if (t.chance(1, 3))
        chosen.insert(80);
    for (int m = 10; m < 80; ++m)
        if (all || t.chance(1, 12))
            chosen.insert(m);
    for (int m : chosen)
        method(c, w, m);
    w.active.assign(chosen.begin(), chosen.end());
    compute(w);
    // keep initialization short
    for (auto it = w.active.begin(); it != w.active.end();)
        if (arity(*it) > 1 && tuples(w, *it, true) > (few ? 2500 : 9000)) {
            no_method(w, *it);
            it = w.active.erase(it);
        } else {
            c.hash(*it);
            if (*it < 10)
                c.label("methods with 20 or more overriders", specs[*it].overriders >= 20);
            ++it;
        }
}

static void fill_table(const Program& w) {
    auto& T = table;
    for (int r = 0; r < NREC; ++r) {
        T.rec[r] = w.ids[w.n];
        for (int b = 0; b < NBASE; ++b)
            T.recbase[r][b] = w.ids[w.n];
    }
    for (auto& r : w.recs) {
        T.rec[r.cls] = w.ids[r.cls];
        for (int b = 0; b < NBASE; ++b)
            T.recbase[r.cls][b] =
                w.ids[b < int(r.bases.size()) ? r.bases[b] : r.cls];
    }
    for (int m = 0; m < NMETH; ++m) {
        for (int p = 0; p < MAXAR; ++p) {
            T.mparam[m][p] = w.ids[w.mp[m][p]];
            for (int k = 0; k < MAXOV; ++k)
                T.oparam[m][k][p] = w.ids[w.op[m][k][p]];
        }
        T.mret[m] = w.ids[w.mr[m]];
        for (int k = 0; k < MAXOV; ++k)
            T.oret[m][k] = w.ids[w.orr[m][k]];
    }
    T.alias.clear();
    for (auto id : w.ids)
        T.alias[id] = id;
}

struct Registration {
    Backend* b;
    std::vector<int> live;
    explicit Registration(Backend* b) : b(b) {
    }
    void add(const Program& w) {
        fill_table(w);
        b->add_record(DUMMY_REC);
        live.push_back(DUMMY_REC);
        for (auto& r : w.recs) {
            b->add_record(r.cls);
            live.push_back(r.cls);
        }
    }
    void clear() {
        for (; !live.empty(); live.pop_back())
            b->remove_record(live.back());
    }
    ~Registration() {
        clear();
        b->finalize();
        b->take_output();
    }
};

struct Objects {
    std::vector<Node> nodes;
    explicit Objects(const Program& w) {
        for (auto id : w.ids)
            nodes.push_back(Node{id});
    }
};

static Program program(Ctx& c, Backend* b, int few = 0) {
    Program w;
    bool hashed = strstr(b->name, "hash") != nullptr;
    hierarchy(c, w, few ? 5 : 20, hashed ? 90 : few ? 80 : MAXN);
    identify(c, w, b->small_ids);
    methods(c, w, few);
    if (c.verbose) {
        for (int i = 0; i < w.n; ++i) {
            c.desc << "C" << i;
            for (std::size_t j = 0; j < w.parents[i].size(); ++j)
                c.desc << (j ? ", C" : " : C") << w.parents[i][j];
            c.desc << "   id " << w.ids[i] << "\n";
        }
        for (int m : w.active) {
            c.desc << "method #" << m << " \"" << specs[m].kinds << "\" (";
            for (int p = 0; p < arity(m); ++p)
                c.desc << (p ? ", C" : "C") << w.mp[m][p];
            c.desc << ")\n";
            for (int k = 0; k < specs[m].overriders; ++k) {
                c.desc << "  overrider " << k << " (";
                for (int p = 0; p < arity(m); ++p)
                    c.desc << (p ? ", C" : "C") << w.op[m][k][p];
                c.desc << ")";
                if (specs[m].cls_return)
                    c.desc << " -> C" << w.orr[m][k];
                c.desc << "\n";
            }
        }
    }
    return w;
}

static Report init(Ctx& c, Backend* b, int opts = OPT_NONE) {
    auto r = b->initialize(opts);
    if (r.error.kind != Outcome::nothing || r.error.handler_calls)
        c.fail(std::string("initialize reported ") + kind_name(r.error.kind) +
               " for a complete registration (" + b->name + ")");
    return r;
}

static Backend* choose(Ctx& c) {
    static auto bs = backends();
    auto b = bs[c.t.u(uint32_t(bs.size()))];
    c.label(std::string("backend ") + b->name);
    return b;
}

// A sample of the tuples: below an overrider, or anything.
template<class F>
static void sample(const Program& w, int m, unsigned salt, int count, F f) {
    int ar = arity(m), t[MAXAR] = {};
    if (tuples(w, m, false) == 0)
        return;
    if (ar == 1) {
        for (int x : w.cand[m][0]) {
            t[0] = x;
            f(t);
        }
        return;
    }
    uint64_t s = pbt::mix(salt * 1000003ull + m);
    auto u = [&](std::size_t n) {
        s = pbt::mix(s);
        return std::size_t(s % n);
    };
    for (int i = 0; i < count; ++i) {
        int o = specs[m].overriders && u(3) ? int(u(specs[m].overriders)) : -1;
        for (int p = 0; p < ar; ++p) {
            auto& cs = w.cand[m][p];
            t[p] = cs[u(cs.size())];
            for (int tries = 0; o >= 0 && tries < 8; ++tries) {
                if (w.derives(t[p], w.op[m][o][p]))
                    break;
                t[p] = tries == 6 ? w.op[m][o][p] : cs[u(cs.size())];
            }
        }
        f(t);
    }
}

static std::string where(const Program& w, Backend* b, int m, const int* t) {
    (void)w;
    std::string s = "#" + std::to_string(m) + " \"" + specs[m].kinds + "\"(";
    for (int p = 0; p < arity(m); ++p)
        s += (p ? ", C" : "C") + std::to_string(t[p]);
    return s + ") with " + b->name;
}

enum { VALUES = 1, ERRORS = 2 };

static void check_calls(
    Ctx& c, const Program& w, Backend* b, Objects& obj, unsigned salt, int scope,
    int count = 150) {
    std::size_t several = 0, wide = 0, errors = 0;
    for (int m : w.active)
        sample(w, m, salt, count, [&](const int* t) {
            auto e = dispatch(w, m, t);
            if (!(scope & (e.k == Res::one ? VALUES : ERRORS)))
                return;
            Node* a[MAXAR];
            for (int p = 0; p < arity(m); ++p)
                a[p] = &obj.nodes[t[p]];
            auto app = applicable(w, m, t);
            several += app.count() > 1;
            wide += e.k == Res::one && e.o >= 64;
            errors += e.k != Res::one;
            auto o = b->call(m, a, 1000);
            auto say = [&](const std::string& what) {
                c.fail("call " + where(w, b, m, t) + ": expected " + str(e) +
                       ", got " + kind_name(o.kind) + " " + std::to_string(o.code) +
                       " " + what);
            };
            if (e.k == Res::one) {
                if (o.kind != Outcome::value || o.code != e.o || !o.bad.empty())
                    say(o.bad);
                return;
            }
            if (o.kind != (e.k == Res::none ? Outcome::no_overrider : Outcome::ambiguous))
                say("");
            if (o.executed || o.handler_calls != 1)
                say("or an overrider ran, or the handler was not called once");
            if (o.method != b->method_id(m) || o.arity != std::size_t(arity(m)))
                say("with another method or arity in the error");
            for (int p = 0; p < arity(m) && p < 16; ++p) // bad_call::max_types
                if (o.types[p] != a[p]->type)
                    say("with types[" + std::to_string(p) + "] not the argument's");
        });
    c.label("calls with several applicable overriders", several);
    c.label("calls of overriders past the 64th", wide);
    c.label("calls that fail", errors);
    if (scope == ERRORS ? errors > 0 : several > 0)
        c.nontrivial = true;
}

static void p_calls(Ctx& c, int scope) {
    auto b = choose(c);
    auto w = program(c, b);
    unsigned salt = c.t.u(1000);
    Registration reg(b);
    reg.add(w);
    init(c, b);
    Objects obj(w);
    check_calls(c, w, b, obj, salt, scope);
}

// all the combinations of one class of each group
template<class F>
static void for_groups(const Program& w, int m, F f) {
    int ar = arity(m), t[MAXAR] = {};
    std::function<void(int)> rec = [&](int p) {
        if (p == ar)
            return f(t);
        for (int x : w.groups[m][p]) {
            t[p] = x;
            rec(p + 1);
        }
    };
    rec(0);
}

static void p_next(Ctx& c) {
    auto b = choose(c);
    auto w = program(c, b);
    Registration reg(b);
    reg.add(w);
    init(c, b);
    Objects obj(w);
    std::size_t checked = 0, far = 0;
    for (int m : w.active) {
        if (tuples(w, m, true) > 6000)
            continue;
        // (see main.cpp: where the next overrider depends on the arguments,
        // C03 per-tuple of known_findings.txt, it is one of them)
        std::vector<std::vector<Res>> nexts(specs[m].overriders);
        std::vector<std::array<int, MAXAR>> from(specs[m].overriders);
        for_groups(w, m, [&](const int* t) {
            auto e = dispatch(w, m, t);
            if (e.k != Res::one)
                return;
            auto n = dispatch(w, m, t, e.o);
            auto& all = nexts[e.o];
            if (std::find(all.begin(), all.end(), n) == all.end()) {
                if (all.empty())
                    std::copy(t, t + MAXAR, from[e.o].begin());
                all.push_back(n);
            }
        });
        for (int k = 0; k < specs[m].overriders; ++k) {
            if (nexts[k].empty())
                continue;
            Node* a[MAXAR];
            for (int p = 0; p < arity(m); ++p)
                a[p] = &obj.nodes[from[k][p]];
            auto o = b->call_next(m, k, a, 5);
            Res got = o.kind == Outcome::value ? Res{Res::one, o.code}
                : o.kind == Outcome::no_overrider ? Res{Res::none, -1}
                                                  : Res{Res::amb, -1};
            auto& all = nexts[k];
            if (std::find(all.begin(), all.end(), got) == all.end() || !o.bad.empty())
                c.fail("next of overrider " + std::to_string(k) + " of " +
                       where(w, b, m, from[k].data()) + " is " + str(got) +
                       ", expected " + str(all[0]) + " " + o.bad);
            if ((b->has_next(m, k) != 0) != (got.k == Res::one))
                c.fail("has_next of overrider " + std::to_string(k) + " of " +
                       where(w, b, m, from[k].data()) + " disagrees with next");
            ++checked;
            far += got.k == Res::one;
        }
    }
    c.label("overriders whose next was checked", checked);
    c.label("with a next overrider", far);
    c.nontrivial = far > 0;
}

// The outcome of calls is the same with fewer methods.
static void p_together(Ctx& c) {
    auto b = choose(c);
    auto w = program(c, b);
    unsigned salt = c.t.u(1000);
    Registration reg(b);
    reg.add(w);
    init(c, b);
    Objects obj(w);
    check_calls(c, w, b, obj, salt, VALUES | ERRORS, 40);
    std::size_t before = w.active.size();
    for (int i = 1 + int(c.t.u(3)); i--;) {
        std::vector<int> gone;
        for (int m : w.active)
            if (c.t.chance(1, 3))
                gone.push_back(m);
        for (int m : gone) {
            no_method(w, m);
            w.active.erase(std::find(w.active.begin(), w.active.end(), m));
        }
        compute(w);
        fill_table(w);
        if (c.verbose)
            c.desc << "then without " << gone.size() << " of the methods\n";
        init(c, b);
        check_calls(c, w, b, obj, salt, VALUES | ERRORS, 40);
    }
    c.label("methods", before);
    c.nontrivial = before > 8 && w.active.size() < before;
}

static void p_report(Ctx& c) {
    auto b = choose(c);
    auto w = program(c, b);
    Registration reg(b);
    reg.add(w);
    auto r = init(c, b);
    std::size_t cells = 0, none = 0, amb = 0;
    for (int m = 0; m < NMETH; ++m) {
        if (std::find(w.active.begin(), w.active.end(), m) == w.active.end()) {
            // a method of the dummy class: all the overriders are the same
            cells += arity(m) > 1;
            none += specs[m].overriders == 0;
            amb += specs[m].overriders > 1;
            continue;
        }
        if (arity(m) > 1)
            cells += std::size_t(tuples(w, m, true));
        bool has_none = false, has_amb = false;
        for_groups(w, m, [&](const int* t) {
            auto e = dispatch(w, m, t);
            has_none |= e.k == Res::none;
            has_amb |= e.k == Res::amb;
        });
        none += has_none;
        amb += has_amb;
    }
    auto cmp = [&](const char* what, std::size_t got, std::size_t want) {
        if (got != want)
            c.fail(std::string("report.") + what + " is " + std::to_string(got) +
                   ", expected " + std::to_string(want) + " (" + b->name + ")");
    };
    cmp("cells", r.cells, cells);
    cmp("not_implemented", r.not_implemented, none);
    cmp("ambiguous", r.ambiguous, amb);
    c.label("cells", cells);
    c.nontrivial = cells > 200;
}

static void p_again(Ctx& c) {
    auto b = choose(c);
    Registration reg(b);
    int rounds = 2 + int(c.t.u(3));
    for (int i = 0; i < rounds; ++i) {
        reg.clear();
        auto w = program(c, b, c.t.chance(1, 2));
        unsigned salt = c.t.u(1000);
        if (c.t.chance(1, 4))
            b->finalize();
        reg.add(w);
        init(c, b);
        Objects obj(w);
        check_calls(c, w, b, obj, salt, VALUES | ERRORS, 60);
    }
    c.nontrivial = true;
}

static void p_n2216(Ctx& c) {
    auto b = choose(c);
    auto w = program(c, b);
    unsigned salt = c.t.u(1000);
    Registration reg(b);
    reg.add(w);
    init(c, b, OPT_N2216);
    Objects obj(w);
    std::size_t picked = 0, settled = 0;
    for (int round = 0; round < 2; ++round) {
        static std::map<std::string, int> first;
        if (round == 0)
            first.clear();
        else
            init(c, b, OPT_N2216);
        for (int m : w.active)
            sample(w, m, salt, 60, [&](const int* t) {
                auto app = applicable(w, m, t);
                Node* a[MAXAR];
                for (int p = 0; p < arity(m); ++p)
                    a[p] = &obj.nodes[t[p]];
                auto o = b->call(m, a, 1000);
                auto say = [&](const char* what) {
                    c.fail("call " + where(w, b, m, t) + ": " + what + ", got " +
                           kind_name(o.kind) + " " + std::to_string(o.code));
                };
                if (app.none()) {
                    if (o.kind != Outcome::no_overrider)
                        say("expected no overrider");
                    return;
                }
                auto d = best(w, m, app);
                if (d.none())
                    d = app;
                if (o.kind != Outcome::value || !o.bad.empty() || !d[o.code])
                    say("expected one of the best overriders");
                if (d.count() > 1) {
                    ++picked;
                    if (specs[m].cls_return)
                        for (int x = 0; x < specs[m].overriders; ++x) {
                            bool beats = d[x];
                            for (int y = 0; y < specs[m].overriders && beats; ++y)
                                beats = !d[y] || x == y ||
                                    (w.orr[m][x] != w.orr[m][y] &&
                                     w.derives(w.orr[m][x], w.orr[m][y]));
                            if (!beats)
                                continue;
                            ++settled;
                            if (o.code != x)
                                say("expected the most specialised result");
                        }
                }
                auto key = where(w, b, m, t);
                auto it = first.emplace(key, o.code);
                if (it.first->second != o.code)
                    say("another overrider was called before");
            });
    }
    c.label("calls that need a choice", picked);
    c.label("settled by the return type", settled);
    c.nontrivial = picked > 0;
}

} // namespace uni

int main(int argc, char** argv) {
    using namespace uni;
    std::map<std::string, pbt::Property> props;
    props["C01"] = {
        [](pbt::Ctx& c) { p_calls(c, VALUES); },
        "a call with several applicable overriders was made"};
    props["C02"] = {
        [](pbt::Ctx& c) { p_calls(c, ERRORS); }, "a call without a best overrider was made"};
    props["C03"] = {p_next, "an overrider with a next one was checked"};
    props["C05"] = {p_together, "more than eight methods, then fewer"};
    props["C06"] = {p_n2216, "a call that needs a choice was made"};
    props["C07"] = {p_report, "more than 200 cells"};
    props["C08"] = {p_again, "initialized several times"};
    return pbt::main(argc, argv, props);
}
