// Reference model: a world (hierarchy, ids, registrations, methods) and the
// brute-force meaning of dispatch, written from the documentation alone.
#pragma once
#include "../lib/pbt.hpp"
#include "universe.hpp"

#include <array>
#include <set>

namespace uni {

using pbt::Ctx;

struct RecSpec {
    int rec;                    // which C++ record
    int cls;                    // logical class
    tid id;                     // id it registers for that class
    std::array<int, NBASE> base; // logical classes (== cls when unused)
    std::array<tid, NBASE> base_id;
    bool fixed = false;
};

struct World {
    int n = 0; // real classes 0..n-1; n is the dummy class
    std::vector<std::vector<int>> parents;
    std::vector<uint32_t> anc; // reflexive ancestors
    std::vector<std::vector<tid>> ids;
    std::vector<RecSpec> recs; // in registration order
    std::vector<int> active;   // methods on real classes
    int mp[NMETH][MAXAR];
    int op[NMETH][MAXOV][MAXAR];
    int mr[NMETH];        // return class or -1 (unregistered)
    int orr[NMETH][MAXOV];
    Table tab; // rtti table (ids chosen)

    bool derives(int d, int b) const {
        return anc[d] >> b & 1;
    }
};

struct Res {
    enum K { none, one, amb } k = none;
    int o = -1;
    bool operator==(const Res& b) const {
        return k == b.k && o == b.o;
    }
    bool operator!=(const Res& b) const {
        return !(*this == b);
    }
};

inline std::string str(const Res& r) {
    return r.k == Res::none ? "none"
        : r.k == Res::amb   ? "ambiguous"
                            : "overrider " + std::to_string(r.o);
}

inline bool dominates(const World& w, int m, int a, int b) {
    bool some = false;
    for (int p = 0; p < arity(m); ++p) {
        int x = w.op[m][a][p], y = w.op[m][b][p];
        if (x == y)
            continue;
        if (w.derives(y, x))
            return false;
        if (w.derives(x, y))
            some = true;
    }
    return some;
}

inline std::vector<int>
applicable(const World& w, int m, const int* t, int without = -1) {
    std::vector<int> r;
    for (int k = 0; k < specs[m].overriders; ++k) {
        if (k == without)
            continue;
        bool ok = true;
        for (int p = 0; p < arity(m) && ok; ++p)
            ok = w.derives(t[p], w.op[m][k][p]);
        if (ok)
            r.push_back(k);
    }
    return r;
}

// set of non-dominated applicable overriders
inline std::vector<int>
maximal(const World& w, int m, const std::vector<int>& a) {
    std::vector<int> r;
    for (int x : a) {
        bool dom = false;
        for (int y : a)
            dom = dom || (y != x && dominates(w, m, y, x));
        if (!dom)
            r.push_back(x);
    }
    return r;
}

inline Res dispatch(const World& w, int m, const int* t, int without = -1) {
    auto a = applicable(w, m, t, without);
    if (a.empty())
        return {Res::none, -1};
    auto d = maximal(w, m, a);
    if (d.size() == 1)
        return {Res::one, d[0]};
    return {Res::amb, -1};
}

// n2216: the set of overriders the rules allow
struct Res2216 {
    bool none = false;
    bool resolved = false; // not ambiguous, or settled by return type
    std::vector<int> allowed;
};

inline Res2216 dispatch_n2216(const World& w, int m, const int* t) {
    Res2216 r;
    auto a = applicable(w, m, t);
    if (a.empty()) {
        r.none = true;
        return r;
    }
    auto d = maximal(w, m, a);
    if (d.size() == 1) {
        r.resolved = true;
        r.allowed = d;
        return r;
    }
    if (d.empty())
        d = a; // cyclic domination: every one is as good
    if (specs[m].cls_return && w.mr[m] >= 0) {
        for (int x : d) {
            bool best = true;
            for (int y : d)
                if (x != y &&
                    (w.orr[m][x] == w.orr[m][y] ||
                     !w.derives(w.orr[m][x], w.orr[m][y])))
                    best = false;
            if (best) {
                r.resolved = true;
                r.allowed = {x};
                return r;
            }
        }
    }
    r.allowed = d;
    return r;
}

// all tuples of real classes for method m (dummy methods: the dummy tuple)
template<class F>
void for_tuples(const World& w, int m, F f) {
    int ar = arity(m);
    std::vector<int> cand[MAXAR];
    for (int p = 0; p < ar; ++p)
        for (int c = 0; c <= w.n; ++c)
            if (w.derives(c, w.mp[m][p]))
                cand[p].push_back(c);
    int t[MAXAR] = {};
    std::function<void(int)> rec = [&](int p) {
        if (p == ar) {
            f(t);
            return;
        }
        for (int c : cand[p]) {
            t[p] = c;
            rec(p + 1);
        }
    };
    rec(0);
}

struct ModelReport {
    std::size_t cells = 0, ni = 0, amb = 0;
};

// classes: which classes are registered (all by default)
inline ModelReport model_report(const World& w, bool n2216) {
    ModelReport r;
    for (int m = 0; m < NMETH; ++m) {
        int ar = arity(m);
        if (ar > 1) {
            std::size_t c = 1;
            for (int p = 0; p < ar; ++p) {
                std::set<std::vector<bool>> groups;
                for (int x = 0; x <= w.n; ++x)
                    if (w.derives(x, w.mp[m][p])) {
                        std::vector<bool> mask;
                        for (int k = 0; k < specs[m].overriders; ++k)
                            mask.push_back(w.derives(x, w.op[m][k][p]));
                        groups.insert(mask);
                    }
                c *= groups.size();
            }
            r.cells += c;
        }
        bool ni = false, amb = false;
        for_tuples(w, m, [&](const int* t) {
            if (n2216) {
                auto d = dispatch_n2216(w, m, t);
                ni = ni || d.none;
                amb = amb || (!d.none && !d.resolved);
            } else {
                auto d = dispatch(w, m, t);
                ni = ni || d.k == Res::none;
                amb = amb || d.k == Res::amb;
            }
        });
        r.ni += ni;
        r.amb += amb;
    }
    return r;
}

// ------------------------------------------------------------- generation

struct GenOpts {
    int max_n = 10;
    bool small_ids = false;
    int alias_pct = 25;      // chance (%) that a world uses alias ids
    int min_methods = 1, max_methods = 5;
    bool split = true;       // records listing a subset of the bases
    bool redundant = true;
    bool class_returns = false; // prefer methods returning classes
    int multi_weight = 3;       // preference for multi-methods
    bool unregistered_return = false;
};

inline void gen_hierarchy(Ctx& c, World& w, const GenOpts& g) {
    auto& t = c.t;
    w.n = 1 + int(t.u(uint32_t(g.max_n)));
    if (w.n < 4 && g.max_n >= 6 && t.chance(3, 4))
        w.n = 4 + int(t.u(uint32_t(g.max_n - 3)));
    w.parents.assign(w.n + 1, {});
    int style = t.weighted({3, 5, 4, 1, 2, 3});
    int width = 1 + int(t.u(4));
    for (int i = 1; i < w.n; ++i) {
        std::set<int> ps;
        switch (style) {
        case 0: // forest
            if (!t.chance(1, 6))
                ps.insert(int(t.u(i)));
            break;
        case 1: { // sparse multiple inheritance
            int k = t.weighted({1, 5, 4, 2});
            for (int j = 0; j < k; ++j)
                ps.insert(int(t.u(i)));
            break;
        }
        case 2: { // layered lattice
            int layer = i / width;
            if (layer > 0) {
                int k = 1 + int(t.u(3));
                for (int j = 0; j < k; ++j)
                    ps.insert((layer - 1) * width + int(t.u(width)));
            }
            break;
        }
        case 3: // chain
            ps.insert(i - 1);
            break;
        case 4: // wide
            ps.insert(0);
            if (i > 2 && t.chance(1, 3))
                ps.insert(1 + int(t.u(i - 1)));
            break;
        case 5: { // many roots joined below
            if (i >= width) {
                int k = 1 + int(t.u(3));
                for (int j = 0; j < k; ++j)
                    ps.insert(int(t.u(i)));
            }
            break;
        }
        }
        w.parents[i].assign(ps.begin(), ps.end());
    }
    w.anc.assign(w.n + 1, 0);
    for (int i = 0; i <= w.n; ++i) {
        w.anc[i] = 1u << i;
        for (int p : w.parents[i])
            w.anc[i] |= w.anc[p];
    }
    if (!g.redundant || !t.chance(1, 5)) {
        // drop parents that are also indirect ancestors
        for (int i = 0; i < w.n; ++i) {
            std::vector<int> keep;
            for (int p : w.parents[i]) {
                bool red = false;
                for (int q : w.parents[i])
                    red = red || (q != p && w.derives(q, p));
                if (!red)
                    keep.push_back(p);
            }
            w.parents[i] = keep;
        }
    }
    for (int i = 0; i <= w.n; ++i) {
        c.hash(w.anc[i]);
    }
}

inline void gen_ids(Ctx& c, World& w, const GenOpts& g) {
    auto& t = c.t;
    w.ids.assign(w.n + 1, {});
    bool alias = int(t.u(100)) >= 100 - g.alias_pct;
    int style = g.small_ids ? 0 : t.weighted({1, 3, 3, 2, 1});
    uint64_t base = 0x7f0000001000ull;
    if (style == 2)
        base += uint64_t(t.u(1 << 20)) * 16;
    uint64_t stride = style == 3 ? (1ull << t.range(3, 40)) : 16;
    std::set<uint64_t> used;
    uint64_t next = 1;
    for (int i = 0; i <= w.n; ++i) {
        int k = 1;
        if (alias && t.chance(1, 3))
            k += 1 + int(t.u(3));
        for (int j = 0; j < k; ++j) {
            uint64_t v;
            do {
                switch (style) {
                case 0:
                    v = next;
                    next += 1 + t.u(3);
                    break;
                case 1:
                    v = t.raw64();
                    break;
                case 2:
                    v = base + 16 * uint64_t(t.u(1 << 12));
                    break;
                case 3:
                    v = base + stride * next++;
                    break;
                default:
                    v = ~0ull - 1 - (next++ << t.u(20));
                    break;
                }
                if (used.count(v) || v == ~0ull || v == 0) {
                    ++next;
                    v = base + 8 + 16 * next + (next << 33);
                    if (style == 0)
                        v = next++;
                }
            } while (!used.insert(v).second);
            w.ids[i].push_back(tid(uintptr_t(v)));
        }
    }
    w.tab.alias.clear();
    for (int i = 0; i <= w.n; ++i)
        for (auto id : w.ids[i])
            w.tab.alias[id] = w.ids[i][0];
}

inline tid any_id(Ctx& c, const World& w, int cls) {
    auto& v = w.ids[cls];
    return v.size() == 1 ? v[0] : v[c.t.u(uint32_t(v.size()))];
}

// A sound and complete registration of the hierarchy: every class listed
// together with each of its direct bases in at least one record.
inline void gen_records(Ctx& c, World& w, const GenOpts& g) {
    auto& t = c.t;
    w.recs.clear();
    int next = 0;
    auto add = [&](int cls, std::vector<int> bases) {
        RecSpec r;
        r.rec = next++;
        r.cls = cls;
        r.id = any_id(c, w, cls);
        t.shuffle(bases);
        for (int i = 0; i < NBASE; ++i) {
            r.base[i] = i < int(bases.size()) ? bases[i] : cls;
            r.base_id[i] = any_id(c, w, r.base[i]);
        }
        w.recs.push_back(r);
    };
    for (int cls = 0; cls < w.n; ++cls) {
        auto& ps = w.parents[cls];
        std::vector<int> others;
        for (int a = 0; a < w.n; ++a)
            if (a != cls && w.derives(cls, a) &&
                std::find(ps.begin(), ps.end(), a) == ps.end())
                others.push_back(a);
        auto extra = [&](std::vector<int> b) {
            for (int o : others)
                if (int(b.size()) < NBASE && t.chance(1, 3))
                    b.push_back(o);
            return b;
        };
        int budget = DUMMY_REC - next - (w.n - cls);
        if (g.split && budget > 0 && t.chance(1, 4)) {
            std::vector<int> a, b;
            for (int p : ps) {
                int where = int(t.u(3));
                if (where != 1)
                    a.push_back(p);
                if (where != 0)
                    b.push_back(p);
            }
            add(cls, extra(a));
            add(cls, extra(b));
        } else {
            add(cls, extra(ps));
        }
    }
    // every alias id a value may carry must be registered
    for (int cls = 0; cls < w.n; ++cls)
        for (auto id : w.ids[cls]) {
            bool seen = false;
            for (auto& r : w.recs) {
                seen = seen || (r.cls == cls && r.id == id);
                for (int i = 0; i < NBASE; ++i)
                    seen = seen || (r.base[i] == cls && r.base_id[i] == id);
            }
            if (!seen) {
                bool placed = false;
                for (auto& r : w.recs) {
                    if (r.cls != cls)
                        continue;
                    for (int i = NBASE - 1; i >= 0 && !placed; --i)
                        if (r.base[i] == cls && r.base_id[i] != id) {
                            // keep an id only reachable through this slot alive
                            tid old = r.base_id[i];
                            int uses = 0;
                            for (auto& q : w.recs) {
                                uses += q.cls == cls && q.id == old;
                                for (int j = 0; j < NBASE; ++j)
                                    uses += q.base[j] == cls && q.base_id[j] == old;
                            }
                            if (uses > 1) {
                                r.base_id[i] = id;
                                placed = true;
                            }
                        }
                    if (placed)
                        break;
                }
                if (!placed) { // forget this alias
                    w.tab.alias.erase(id);
                    auto& v = w.ids[cls];
                    if (v.size() > 1 && v[0] != id)
                        v.erase(std::find(v.begin(), v.end(), id));
                    else
                        throw pbt::Discard();
                    --cls;
                    break;
                }
            }
        }
    t.shuffle(w.recs);
}

inline void add_dummy_record(World& w) {
    RecSpec r;
    r.rec = DUMMY_REC;
    r.cls = w.n;
    r.id = w.ids[w.n][0];
    r.base.fill(w.n);
    r.base_id.fill(r.id);
    r.fixed = true;
    w.recs.insert(w.recs.begin(), r);
    w.ids[w.n].resize(1);
}

inline int pick_derived(Ctx& c, const World& w, int base) {
    std::vector<int> d;
    for (int i = 0; i <= w.n; ++i)
        if (w.derives(i, base))
            d.push_back(i);
    return c.t.pick(d);
}

inline void dummy_method(World& w, int m) {
    for (int p = 0; p < MAXAR; ++p) {
        w.mp[m][p] = w.n;
        for (int k = 0; k < MAXOV; ++k)
            w.op[m][k][p] = w.n;
    }
    w.mr[m] = w.n;
    for (int k = 0; k < MAXOV; ++k)
        w.orr[m][k] = w.n;
}

inline void gen_method(Ctx& c, World& w, int m, const GenOpts& g) {
    auto& t = c.t;
    for (int p = 0; p < arity(m); ++p) {
        int cls = int(t.u(w.n));
        // climb towards a root most of the time: more classes below
        while (!w.parents[cls].empty() && t.chance(3, 4))
            cls = t.pick(w.parents[cls]);
        if (p > 0 && t.chance(1, 3))
            cls = w.mp[m][0];
        w.mp[m][p] = cls;
        c.hash(cls + 100 * p);
    }
    bool flat = t.chance(1, 4);
    for (int k = 0; k < specs[m].overriders; ++k)
        for (int p = 0; p < arity(m); ++p) {
            int cls = pick_derived(c, w, w.mp[m][p]);
            if (flat && t.chance(1, 2))
                cls = w.mp[m][p];
            w.op[m][k][p] = cls;
            c.hash(cls + 1000 * p);
        }
    w.mr[m] = w.n;
    for (int k = 0; k < MAXOV; ++k)
        w.orr[m][k] = w.n;
    if (specs[m].cls_return) {
        int r = int(t.u(w.n));
        while (!w.parents[r].empty() && t.chance(3, 4))
            r = t.pick(w.parents[r]);
        w.mr[m] = r;
        for (int k = 0; k < specs[m].overriders; ++k)
            w.orr[m][k] = pick_derived(c, w, r);
        if (g.unregistered_return && t.chance(1, 5))
            w.mr[m] = -1;
    }
}

inline double tuple_count(const World& w, int m) {
    double x = 1;
    for (int p = 0; p < arity(m); ++p) {
        int k = 0;
        for (int i = 0; i <= w.n; ++i)
            k += w.derives(i, w.mp[m][p]);
        x *= k;
    }
    return x;
}

inline void gen_methods(Ctx& c, World& w, const GenOpts& g) {
    auto& t = c.t;
    for (int m = 0; m < NMETH; ++m)
        dummy_method(w, m);
    int count = t.range(g.min_methods, g.max_methods);
    std::vector<int> uni_m, multi, cls;
    for (int m = 0; m < NMETH; ++m) {
        if (specs[m].cls_return)
            cls.push_back(m);
        (arity(m) == 1 ? uni_m : multi).push_back(m);
    }
    std::set<int> chosen;
    for (int i = 0; i < count; ++i) {
        int kind =
            g.class_returns ? t.weighted({1, 1, 6}) : t.weighted({2, g.multi_weight, 0});
        auto& pool = kind == 0 ? uni_m : kind == 1 ? multi : cls;
        chosen.insert(t.pick(pool));
    }
    for (int m : chosen) {
        gen_method(c, w, m, g);
        if (tuple_count(w, m) > 3000) {
            dummy_method(w, m);
            continue;
        }
        w.active.push_back(m);
        c.hash(m);
    }
}

inline void fill_table(Ctx& c, World& w) {
    auto& T = w.tab;
    tid unreg = tid(uintptr_t(0x123));
    for (int r = 0; r < NREC; ++r) {
        T.rec[r] = w.ids[w.n][0];
        for (int b = 0; b < NBASE; ++b)
            T.recbase[r][b] = w.ids[w.n][0];
    }
    for (auto& r : w.recs) {
        T.rec[r.rec] = r.id;
        for (int b = 0; b < NBASE; ++b)
            T.recbase[r.rec][b] = r.base_id[b];
    }
    for (int m = 0; m < NMETH; ++m) {
        for (int p = 0; p < MAXAR; ++p) {
            T.mparam[m][p] = any_id(c, w, w.mp[m][p]);
            for (int k = 0; k < MAXOV; ++k)
                T.oparam[m][k][p] = any_id(c, w, w.op[m][k][p]);
        }
        T.mret[m] = w.mr[m] < 0 ? unreg : any_id(c, w, w.mr[m]);
        for (int k = 0; k < MAXOV; ++k)
            T.oret[m][k] = any_id(c, w, w.orr[m][k]);
    }
}

inline World gen_world(Ctx& c, const GenOpts& g) {
    World w;
    gen_hierarchy(c, w, g);
    gen_ids(c, w, g);
    gen_records(c, w, g);
    add_dummy_record(w);
    gen_methods(c, w, g);
    fill_table(c, w);
    return w;
}

inline std::string cname(const World& w, int i) {
    return i < 0 ? "?" : i == w.n ? std::string("dummy") : "C" + std::to_string(i);
}

inline void describe_methods(std::ostream& os, const World& w) {
    for (int m : w.active) {
        os << "method #" << m << " \"" << specs[m].kinds << "\" (";
        for (int p = 0; p < arity(m); ++p)
            os << (p ? ", " : "") << cname(w, w.mp[m][p]);
        os << ")";
        if (specs[m].cls_return)
            os << " -> " << cname(w, w.mr[m]);
        os << "\n";
        for (int k = 0; k < specs[m].overriders; ++k) {
            os << "  overrider " << k << " (";
            for (int p = 0; p < arity(m); ++p)
                os << (p ? ", " : "") << cname(w, w.op[m][k][p]);
            os << ")";
            if (specs[m].cls_return)
                os << " -> " << cname(w, w.orr[m][k]);
            os << "\n";
        }
    }
}

inline void describe(std::ostream& os, const World& w) {
    for (int i = 0; i < w.n; ++i) {
        os << cname(w, i);
        for (std::size_t j = 0; j < w.parents[i].size(); ++j)
            os << (j ? ", " : " : ") << cname(w, w.parents[i][j]);
        os << "   ids";
        for (auto id : w.ids[i])
            os << " " << id;
        os << "\n";
    }
    os << "registrations in order:";
    for (auto& r : w.recs) {
        if (r.cls == w.n)
            continue;
        os << " {" << cname(w, r.cls);
        for (int b : r.base)
            if (b != r.cls)
                os << " " << cname(w, b);
        os << "}";
    }
    os << "\n";
    describe_methods(os, w);
}

} // namespace uni
