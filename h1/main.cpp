#include "model.hpp"

#include <algorithm>
#include <cstring>
#include <cstdlib>
#include <memory>
#include <new>

// Memory can run out (C08).
static long memory_left = -1;
void* operator new(std::size_t n) {
    if (memory_left >= 0 && memory_left-- == 0)
        throw std::bad_alloc();
    if (void* p = std::malloc(n ? n : 1))
        return p;
    throw std::bad_alloc();
}
void operator delete(void* p) noexcept {
    std::free(p);
}
void operator delete(void* p, std::size_t) noexcept {
    std::free(p);
}

namespace uni {
Table table;
MultiLog log_;

// The backends linked into this binary (a check links only those it needs).
#define UNI_BACKENDS(B)                                                        \
    B(vec) B(vec_chk) B(map_chk) B(ind) B(map_ind) B(small) B(small_chk) B(small_ind) \
    B(small_chk_ind) B(map) B(map_chk_ind)
#define UNI_WEAK(x) __attribute__((weak)) Backend* backend_##x();
UNI_BACKENDS(UNI_WEAK)

static std::vector<Backend*>& backends() {
    static std::vector<Backend*> v = [] {
        std::vector<Backend*> r;
#define UNI_ADD(x)                                                             \
    if (backend_##x)                                                           \
        r.push_back(backend_##x());
        UNI_BACKENDS(UNI_ADD)
        for (auto b : r)
            b->small_ids = strstr(b->name, "small") != nullptr;
        return r;
    }();
    return v;
}

static std::vector<Backend*> select(std::function<bool(Backend*)> f) {
    std::vector<Backend*> r;
    for (auto b : backends())
        if (f(b))
            r.push_back(b);
    if (r.empty()) {
        fprintf(stderr, "no backend linked for this property\n");
        exit(4);
    }
    return r;
}

// Registers records for the duration of a case.
struct Registration {
    Backend* b;
    std::vector<int> live; // record numbers
    explicit Registration(Backend* b) : b(b) {
    }
    void add(const RecSpec& r) {
        b->add_record(r.rec);
        live.push_back(r.rec);
    }
    void remove(int rec) {
        b->remove_record(rec);
        live.erase(std::find(live.begin(), live.end(), rec));
    }
    void clear() {
        while (!live.empty())
            remove(live.back());
    }
    ~Registration() {
        clear();
        b->finalize();
        b->take_output();
    }
};

static std::string tuple_str(const World& w, int m, const int* t) {
    std::string s = "#" + std::to_string(m) + "(";
    for (int p = 0; p < arity(m); ++p)
        s += (p ? ", " : "") + cname(w, t[p]);
    return s + ")";
}

static std::string outcome_str(const Outcome& o) {
    std::string s = kind_name(o.kind);
    if (o.kind == Outcome::value)
        s += " from overrider " + std::to_string(o.code);
    return s;
}

struct Objects {
    std::vector<std::vector<Node>> nodes;
    explicit Objects(const World& w) {
        nodes.resize(w.n + 1);
        for (int c = 0; c <= w.n; ++c)
            for (auto id : w.ids[c])
                nodes[c].push_back(Node{id});
    }
    Node* get(int c, unsigned salt) {
        return &nodes[c][salt % nodes[c].size()];
    }
};

static bool cell_selected(unsigned long long i, double total) {
    // check every tuple of small tables, a fixed sample of the large ones
    return total <= 700 || pbt::mix(i) % 1000 < 700000 / total;
}

static void register_world(Ctx& c, const World& w, Registration& reg) {
    (void)c;
    table = w.tab;
    for (auto& r : w.recs)
        reg.add(r);
}

static void init_ok(Ctx& c, const World& w, Backend* b, int opts, Report* out = nullptr) {
    (void)w;
    auto r = b->initialize(opts);
    if (r.error.kind != Outcome::nothing)
        c.fail(
            std::string("initialize reported ") + kind_name(r.error.kind) +
            " for a complete registration (" + b->name + ")");
    if (r.error.handler_calls)
        c.fail("initialize called the error handler");
    if (out)
        *out = r;
}

static unsigned salt_of(Ctx& c) {
    return c.t.u(64);
}

static bool single_inheritance(const World& w) {
    for (auto& p : w.parents)
        if (p.size() > 1)
            return false;
    return true;
}

enum Scope { CHECK_VALUES = 1, CHECK_ERRORS = 2 };

// Compares every call with the model.
static void check_calls(
    Ctx& c, const World& w, Backend* b, Objects& obj, unsigned salt, int scope,
    const std::vector<int>& methods,
    const std::function<bool(int)>& registered = nullptr) {
    std::size_t uniq = 0, none = 0, amb = 0, multi_cand = 0;
    for (int m : methods) {
        double total = tuple_count(w, m);
        unsigned long long i = 0;
        for_tuples(w, m, [&](const int* t) {
            ++i;
            if (registered)
                for (int p = 0; p < arity(m); ++p)
                    if (!registered(t[p]))
                        return;
            if (!cell_selected(i + salt, total))
                return;
            Node* a[MAXAR];
            for (int p = 0; p < arity(m); ++p)
                a[p] = obj.get(t[p], salt + unsigned(i) + p);
            auto app = applicable(w, m, t);
            auto e = dispatch(w, m, t);
            if (app.size() > 1)
                ++multi_cand;
            (e.k == Res::one ? uniq : e.k == Res::none ? none : amb)++;
            if (e.k == Res::one ? !(scope & CHECK_VALUES) : !(scope & CHECK_ERRORS)) {
                return;
            }
            auto o = b->call(m, a, 1000 + int(i % 100));
            auto where = [&] {
                return std::string("call ") + tuple_str(w, m, t) + " with " +
                    b->name + ": expected " + str(e) + ", got " + outcome_str(o);
            };
            if (e.k == Res::one) {
                if (o.kind != Outcome::value || o.code != e.o)
                    c.fail(where());
                if (!o.bad.empty())
                    c.fail(where() + ": " + o.bad);
            } else {
                auto want = e.k == Res::none ? Outcome::no_overrider
                                             : Outcome::ambiguous;
                if (o.kind != want)
                    c.fail(where());
                if (o.executed)
                    c.fail(where() + ": an overrider ran");
                if (o.handler_calls != 1)
                    c.fail(
                        where() + ": error handler called " +
                        std::to_string(o.handler_calls) + " times");
                if (o.method != b->method_id(m))
                    c.fail(where() + ": wrong method id in the error");
                if (o.arity != std::size_t(arity(m)))
                    c.fail(
                        where() + ": error.arity is " + std::to_string(o.arity) +
                        " for " + std::to_string(arity(m)) + " virtual arguments");
                for (int p = 0; p < arity(m); ++p)
                    if (o.types[p] != a[p]->type)
                        c.fail(
                            where() + ": error.types[" + std::to_string(p) +
                            "] is not the argument's dynamic type");
            }
        });
    }
    c.label("tuples with a unique best overrider", uniq);
    c.label("tuples without overrider", none);
    c.label("ambiguous tuples", amb);
    c.label("tuples with several applicable overriders", multi_cand);
    if (scope & CHECK_VALUES)
        c.nontrivial = c.nontrivial || (multi_cand && uniq);
    if (scope == CHECK_ERRORS)
        c.nontrivial = c.nontrivial || none || amb;
}

static Backend* choose(Ctx& c, const std::vector<Backend*>& v) {
    auto b = v[c.t.u(uint32_t(v.size()))];
    c.label(std::string("backend ") + b->name);
    return b;
}

static bool any(Backend*) {
    return true;
}

// ------------------------------------------------------------- C01 / C02
static void p_dispatch(Ctx& c, int scope) {
    static auto bs = select(any);
    auto b = choose(c, bs);
    GenOpts g;
    g.small_ids = b->small_ids;
    g.max_n = 11;
    g.max_methods = 4;
    auto w = gen_world(c, g);
    unsigned salt = salt_of(c);
    int opts = c.t.chance(1, 8) ? OPT_TRACE_OFF : OPT_NONE;
    if (c.verbose)
        describe(c.desc, w);
    c.label(single_inheritance(w) ? "worlds: single inheritance" : "worlds: multiple inheritance");
    Registration reg(b);
    register_world(c, w, reg);
    init_ok(c, w, b, opts);
    Objects obj(w);
    check_calls(c, w, b, obj, salt, scope, w.active);
}

// ------------------------------------------------------------- C03: next
// The documentation defines next per argument tuple, the implementation keeps
// one pointer per overrider.  NextInfo says whether one pointer can be right.
struct NextInfo {
    bool used = false, uniform = true;
    Res next;
    std::vector<int> tuple;
    std::vector<Res> all;
};

static std::vector<NextInfo> next_info(const World& w, int m) {
    std::vector<NextInfo> r(specs[m].overriders);
    for_tuples(w, m, [&](const int* t) {
        auto e = dispatch(w, m, t);
        if (e.k != Res::one)
            return;
        auto n = dispatch(w, m, t, e.o);
        auto& i = r[e.o];
        i.all.push_back(n);
        if (!i.used) {
            i.used = true;
            i.next = n;
            i.tuple.assign(t, t + arity(m));
        } else if (i.next != n) {
            i.uniform = false;
        }
    });
    return r;
}

static void p_next(Ctx& c) {
    static auto bs = select(any);
    auto b = choose(c, bs);
    GenOpts g;
    g.small_ids = b->small_ids;
    g.max_n = 9;
    g.max_methods = 4;
    auto w = gen_world(c, g);
    unsigned salt = salt_of(c);
    if (c.verbose)
        describe(c.desc, w);
    Registration reg(b);
    register_world(c, w, reg);
    init_ok(c, w, b, OPT_NONE);
    if (c.t.chance(1, 3)) { // next pointers must be refreshed, not accumulated
        for (int m : w.active)
            gen_method(c, w, m, g);
        w.active.erase(
            std::remove_if(
                w.active.begin(), w.active.end(),
                [&](int m) { return tuple_count(w, m) > 3000; }),
            w.active.end());
        for (int m = 0; m < NMETH; ++m)
            if (std::find(w.active.begin(), w.active.end(), m) == w.active.end())
                dummy_method(w, m);
        fill_table(c, w);
        if (c.verbose) {
            c.desc << "then, with the same classes:\n";
            describe_methods(c.desc, w);
        }
        table = w.tab;
        init_ok(c, w, b, OPT_NONE);
    }
    Objects obj(w);
    std::size_t ov = 0, none = 0, amb = 0, excluded = 0;
    for (int m : w.active) {
        auto info = next_info(w, m);
        for (int k = 0; k < specs[m].overriders; ++k) {
            auto& i = info[k];
            if (!i.used)
                continue;
            if (!i.uniform) {
                // Known finding (known_findings.txt, C03 per-tuple): one
                // pointer cannot be right for every tuple.  It must still be
                // the right one for some of them.
                ++excluded;
                Node* a[MAXAR];
                for (int p = 0; p < arity(m); ++p)
                    a[p] = obj.get(i.tuple[p], salt + p);
                auto o = b->call_next(m, k, a, 77);
                Res got = o.kind == Outcome::value ? Res{Res::one, o.code}
                    : o.kind == Outcome::no_overrider ? Res{Res::none, -1}
                                                      : Res{Res::amb, -1};
                if (std::find(i.all.begin(), i.all.end(), got) == i.all.end())
                    c.fail(
                        "next of overrider " + std::to_string(k) +
                        " of method #" + std::to_string(m) + " with " + b->name +
                        " is " + str(got) + ", right for no tuple");
                if ((b->has_next(m, k) != 0) != (got.k == Res::one))
                    c.fail("has_next disagrees with next");
                continue;
            }
            (i.next.k == Res::one ? ov : i.next.k == Res::none ? none : amb)++;
            std::string where = "next of overrider " + std::to_string(k) +
                " of method #" + std::to_string(m) + " with " + b->name +
                ": expected " + str(i.next);
            bool hn = b->has_next(m, k) != 0;
            if (hn != (i.next.k == Res::one))
                c.fail(where + ", has_next() is " + (hn ? "true" : "false"));
            Node* a[MAXAR];
            for (int p = 0; p < arity(m); ++p)
                a[p] = obj.get(i.tuple[p], salt + p);
            auto o = b->call_next(m, k, a, 77);
            if (i.next.k == Res::one) {
                if (o.kind != Outcome::value || o.code != i.next.o)
                    c.fail(where + ", got " + outcome_str(o));
                if (!o.bad.empty())
                    c.fail(where + ": " + o.bad);
            } else {
                auto want = i.next.k == Res::none ? Outcome::no_overrider
                                                  : Outcome::ambiguous;
                if (o.kind != want || o.executed)
                    c.fail(where + ", got " + outcome_str(o));
                if (o.method != b->method_id(m))
                    c.fail(where + ": wrong method in the error");
            }
        }
    }
    c.label("next is an overrider", ov);
    c.label("next does not exist", none);
    c.label("next is ambiguous", amb);
    c.label("overriders whose next depends on the tuple (excluded, known finding)", excluded);
    c.nontrivial = ov > 0;
}

// The smallest program where the next overrider depends on the arguments.
static void p_next_per_tuple(Ctx& c) {
    static auto bs = select(any);
    auto b = bs[0];
    // R; A : R; B : R; C : A, B; P; P1 : P
    World w;
    w.n = 6;
    w.parents = {{}, {0}, {0}, {1, 2}, {}, {4}, {}};
    w.anc = {1, 3, 5, 15, 16, 48, 64};
    for (int i = 0; i <= w.n; ++i) {
        w.ids.push_back({tid(uintptr_t(100 + i))});
        w.tab.alias[w.ids[i][0]] = w.ids[i][0];
    }
    for (int i = 0; i < w.n; ++i) {
        RecSpec r;
        r.rec = i;
        r.cls = i;
        r.id = w.ids[i][0];
        for (int j = 0; j < NBASE; ++j) {
            r.base[j] = j < int(w.parents[i].size()) ? w.parents[i][j] : i;
            r.base_id[j] = w.ids[r.base[j]][0];
        }
        w.recs.push_back(r);
    }
    add_dummy_record(w);
    for (int m = 0; m < NMETH; ++m)
        dummy_method(w, m);
    int m = 11; // two overriders
    w.mp[m][0] = 0;
    w.mp[m][1] = 4;
    w.op[m][0][0] = 1; // (A, P1)
    w.op[m][0][1] = 5;
    w.op[m][1][0] = 2; // (B, P)
    w.op[m][1][1] = 4;
    w.active = {m};
    fill_table(c, w);
    describe(c.desc, w);
    Registration reg(b);
    register_world(c, w, reg);
    init_ok(c, w, b, OPT_NONE);
    Objects obj(w);
    for (int cls : {1, 3}) {
        int t[MAXAR] = {cls, 5};
        auto e = dispatch(w, m, t, 0);
        Node* a[MAXAR] = {obj.get(cls, 0), obj.get(5, 0)};
        auto o = b->call_next(m, 0, a, 7);
        auto want = e.k == Res::one ? Outcome::value : Outcome::no_overrider;
        if (o.kind != want)
            c.fail(
                "next from the overrider (A, P1) called with (" +
                std::string(cls == 1 ? "A" : "C") + ", P1), where C : A, B: expected " +
                str(e) + ", got " + outcome_str(o));
    }
}

// ------------------------------------------------ C04: order irrelevance
static void check_same_reports(
    Ctx& c, const Report& a, const Report& b, const std::string& what) {
    if (a.cells != b.cells || a.not_implemented != b.not_implemented ||
        a.ambiguous != b.ambiguous)
        c.fail(
            what + ": reports differ: (" + std::to_string(a.cells) + "," +
            std::to_string(a.not_implemented) + "," +
            std::to_string(a.ambiguous) + ") vs (" + std::to_string(b.cells) +
            "," + std::to_string(b.not_implemented) + "," +
            std::to_string(b.ambiguous) + ")");
}

// logical outcome of every tuple, with overriders mapped back through perm
static std::vector<long> table_of(
    Ctx& c, const World& w, Backend* b, Objects& obj, unsigned salt, int m,
    const std::vector<int>& logical) {
    std::vector<long> r;
    unsigned long long i = 0;
    double total = tuple_count(w, m);
    for_tuples(w, m, [&](const int* t) {
        ++i;
        if (!cell_selected(i, total))
            return;
        Node* a[MAXAR];
        for (int p = 0; p < arity(m); ++p)
            a[p] = obj.get(t[p], salt + unsigned(i) + p);
        auto o = b->call(m, a, 5);
        if (!o.bad.empty())
            c.fail("call " + tuple_str(w, m, t) + ": " + o.bad);
        r.push_back(
            o.kind == Outcome::value ? logical[o.code] : -long(o.kind));
    });
    return r;
}

static void p_order(Ctx& c) {
    static auto bs = select(any);
    auto b = choose(c, bs);
    GenOpts g;
    g.small_ids = b->small_ids;
    g.max_n = 10;
    g.max_methods = 4;
    g.alias_pct = 40;
    auto w1 = gen_world(c, g);
    // Second registration of the same program: other record order, splitting,
    // base order, overrider order, ids used for the same classes.
    World w2 = w1;
    gen_records(c, w2, g);
    if (w2.ids != w1.ids)
        throw pbt::Discard();
    add_dummy_record(w2);
    if (c.t.chance(1, 2))
        c.t.shuffle(w2.recs);
    std::map<int, std::vector<int>> perm;
    for (int m : w1.active) {
        std::vector<int> p;
        for (int k = 0; k < specs[m].overriders; ++k)
            p.push_back(k);
        c.t.shuffle(p); // physical k plays logical p[k]
        for (int k = 0; k < specs[m].overriders; ++k) {
            for (int q = 0; q < MAXAR; ++q)
                w2.op[m][k][q] = w1.op[m][p[k]][q];
            w2.orr[m][k] = w1.orr[m][p[k]];
        }
        perm[m] = p;
    }
    fill_table(c, w2);
    unsigned s1 = salt_of(c), s2 = salt_of(c);
    if (c.verbose) {
        describe(c.desc, w1);
        c.desc << "--- second registration\n";
        describe(c.desc, w2);
    }
    Objects obj(w1);
    std::map<int, std::vector<long>> t1;
    std::map<int, std::vector<int>> n1;
    Report r1, r2;
    auto nexts = [&](const World& w, const std::vector<int>& logical, int m) {
        // -9 excluded, -1/-2 none / ambiguous; indexed by logical overrider
        std::vector<int> v(specs[m].overriders, -9);
        auto info = next_info(w, m);
        for (int k = 0; k < specs[m].overriders; ++k) {
            if (!info[k].used || !info[k].uniform)
                continue;
            Node* a[MAXAR];
            for (int p = 0; p < arity(m); ++p)
                a[p] = obj.get(info[k].tuple[p], s1);
            auto o = b->call_next(m, k, a, 3);
            v[logical[k]] = o.kind == Outcome::value ? logical[o.code]
                                                     : -int(o.kind);
        }
        return v;
    };
    {
        Registration reg(b);
        register_world(c, w1, reg);
        init_ok(c, w1, b, OPT_NONE, &r1);
        for (int m : w1.active) {
            std::vector<int> id(MAXOV);
            for (int k = 0; k < MAXOV; ++k)
                id[k] = k;
            t1[m] = table_of(c, w1, b, obj, s1, m, id);
            n1[m] = nexts(w1, id, m);
        }
    }
    Registration reg(b);
    register_world(c, w2, reg);
    init_ok(c, w2, b, OPT_NONE, &r2);
    check_same_reports(c, r1, r2, "registration order changed the report");
    for (int m : w1.active) {
        auto t2 = table_of(c, w2, b, obj, s2, m, perm[m]);
        if (t1[m] != t2) {
            std::size_t i = 0;
            while (t1[m][i] == t2[i])
                ++i;
            c.fail(
                "method #" + std::to_string(m) + ", tuple " +
                std::to_string(i) + ": " + std::to_string(t1[m][i]) +
                " with the first registration, " + std::to_string(t2[i]) +
                " with the second (" + b->name + ")");
        }
        if (nexts(w2, perm[m], m) != n1[m])
            c.fail(
                "method #" + std::to_string(m) +
                ": next depends on the registration order");
        std::set<long> kinds(t2.begin(), t2.end());
        if (kinds.size() > 1)
            c.nontrivial = true;
    }
}

// --------------------------------------------- C05: methods do not interfere
static void p_many(Ctx& c) {
    static auto bs = select(any);
    auto b = choose(c, bs);
    GenOpts g;
    g.small_ids = b->small_ids;
    g.max_n = 14;
    g.min_methods = 5;
    g.max_methods = 24;
    g.multi_weight = 2;
    g.alias_pct = 5;
    auto w = gen_world(c, g);
    if (w.active.size() < 3)
        throw pbt::Discard();
    unsigned salt = salt_of(c);
    if (c.verbose)
        describe(c.desc, w);
    c.label(single_inheritance(w) ? "worlds: single inheritance" : "worlds: multiple inheritance");
    Objects obj(w);
    std::vector<int> id(MAXOV);
    for (int k = 0; k < MAXOV; ++k)
        id[k] = k;
    std::map<int, std::vector<long>> all;
    {
        Registration reg(b);
        register_world(c, w, reg);
        init_ok(c, w, b, OPT_NONE);
        check_calls(c, w, b, obj, salt, CHECK_VALUES | CHECK_ERRORS, w.active);
        for (int m : w.active)
            if (tuple_count(w, m) <= 300)
                all[m] = table_of(c, w, b, obj, salt, m, id);
    }
    c.nontrivial = c.nontrivial && w.active.size() >= 4;
    if (all.empty() || !c.t.chance(1, 2))
        return;
    // a method gives the same answers when it is alone
    auto it = all.begin();
    std::advance(it, c.t.u(uint32_t(all.size())));
    int m = it->first;
    World alone = w;
    for (int x : w.active)
        if (x != m)
            dummy_method(alone, x);
    alone.active = {m};
    fill_table(c, alone);
    Registration reg(b);
    register_world(c, alone, reg);
    init_ok(c, alone, b, OPT_NONE);
    if (table_of(c, alone, b, obj, salt, m, id) != it->second)
        c.fail(
            "method #" + std::to_string(m) +
            " dispatches differently when the other methods are absent");
    c.label("alone-vs-together comparisons");
}

static int any_trace(Ctx& c) {
    static const int traces[] = {OPT_TRACE_OFF, OPT_TRACE_ON, OPT_TRACE_ENV};
    return c.t.chance(1, 5) ? traces[c.t.u(3)] : OPT_NONE;
}

// ------------------------------------------------------------- C06: n2216
static void p_n2216(Ctx& c) {
    static auto bs = select(any);
    auto b = choose(c, bs);
    GenOpts g;
    g.small_ids = b->small_ids;
    g.max_n = 9;
    g.min_methods = 1;
    g.max_methods = 4;
    g.class_returns = true;
    g.unregistered_return = true;
    auto w = gen_world(c, g);
    unsigned salt = salt_of(c);
    int opts = OPT_N2216 | any_trace(c);
    if (c.verbose)
        describe(c.desc, w);
    Objects obj(w);
    Registration reg(b);
    register_world(c, w, reg);
    Report r;
    init_ok(c, w, b, opts, &r);
    std::size_t byret = 0, pick = 0;
    std::map<std::pair<int, unsigned long long>, int> picked;
    for (int round = 0; round < 2; ++round) {
        for (int m : w.active) {
            unsigned long long i = 0;
            double total = tuple_count(w, m);
            for_tuples(w, m, [&](const int* t) {
                ++i;
                if (!cell_selected(i, total))
                    return;
                Node* a[MAXAR];
                for (int p = 0; p < arity(m); ++p)
                    a[p] = obj.get(t[p], salt + unsigned(i) + p + round);
                auto e = dispatch_n2216(w, m, t);
                auto o = b->call(m, a, 9);
                std::string where = "n2216 call " + tuple_str(w, m, t) +
                    " with " + b->name + ": got " + outcome_str(o);
                if (e.none) {
                    if (o.kind != Outcome::no_overrider || o.executed)
                        c.fail(where + ", expected no_overrider");
                    return;
                }
                if (o.kind != Outcome::value || !o.bad.empty())
                    c.fail(where + ", expected an overrider " + o.bad);
                if (std::find(e.allowed.begin(), e.allowed.end(), o.code) ==
                    e.allowed.end()) {
                    std::string s;
                    for (int k : e.allowed)
                        s += " " + std::to_string(k);
                    c.fail(where + ", allowed:" + s);
                }
                auto plain = dispatch(w, m, t);
                if (plain.k == Res::amb)
                    (e.resolved ? byret : pick)++;
                auto [it, fresh] = picked.try_emplace({m, i}, o.code);
                if (!fresh && it->second != o.code)
                    c.fail(where + ": a different pick than the first time");
            });
        }
        if (round == 0) {
            auto mr = model_report(w, true);
            if (r.cells != mr.cells || r.not_implemented != mr.ni ||
                r.ambiguous != mr.amb)
                c.fail(
                    "n2216 report (" + std::to_string(r.cells) + "," +
                    std::to_string(r.not_implemented) + "," +
                    std::to_string(r.ambiguous) + "), expected (" +
                    std::to_string(mr.cells) + "," + std::to_string(mr.ni) +
                    "," + std::to_string(mr.amb) + ")");
            // in-between history must not influence the pick
            if (c.t.chance(1, 2))
                init_ok(c, w, b, OPT_NONE);
            if (c.t.chance(1, 3))
                b->finalize();
            init_ok(c, w, b, opts, &r);
        }
    }
    b->take_output();
    c.label("ambiguous tuples settled by return type", byret);
    c.label("ambiguous tuples settled by an arbitrary pick", pick);
    c.nontrivial = byret + pick > 0;
}

// ------------------------------------------------------------- C07: report
static void p_report(Ctx& c) {
    static auto bs = select(any);
    auto b = choose(c, bs);
    GenOpts g;
    g.small_ids = b->small_ids;
    g.max_n = 9;
    g.max_methods = 6;
    bool n2216 = c.t.chance(1, 4);
    if (n2216)
        g.class_returns = g.unregistered_return = c.t.chance(1, 2);
    auto w = gen_world(c, g);
    if (c.verbose)
        describe(c.desc, w);
    Registration reg(b);
    register_world(c, w, reg);
    Report r;
    init_ok(c, w, b, (n2216 ? OPT_N2216 : OPT_NONE) | any_trace(c), &r);
    b->take_output();
    auto mr = model_report(w, n2216);
    auto show = [](std::size_t a, std::size_t b, std::size_t c) {
        return "(cells " + std::to_string(a) + ", not_implemented " +
            std::to_string(b) + ", ambiguous " + std::to_string(c) + ")";
    };
    if (r.cells != mr.cells || r.not_implemented != mr.ni ||
        r.ambiguous != mr.amb)
        c.fail(
            "report " + show(r.cells, r.not_implemented, r.ambiguous) +
            ", expected " + show(mr.cells, mr.ni, mr.amb) + " with " + b->name);
    // The report predicts calls: count the methods that fail on some tuple.
    Objects obj(w);
    std::size_t ni = 0, am = 0;
    for (int m = 0; m < NMETH; ++m) {
        bool n = false, a = false;
        unsigned i = 0;
        for_tuples(w, m, [&](const int* t) {
            if (n && a)
                return;
            Node* x[MAXAR];
            for (int p = 0; p < arity(m); ++p)
                x[p] = obj.get(t[p], ++i);
            auto o = b->call(m, x, 0);
            n = n || o.kind == Outcome::no_overrider;
            a = a || o.kind == Outcome::ambiguous;
        });
        ni += n;
        am += a;
    }
    if (n2216 ? ni != r.not_implemented || am
              : ni != r.not_implemented || am != r.ambiguous)
        c.fail(
            "report says " + show(r.cells, r.not_implemented, r.ambiguous) +
            " but calls fail in " + std::to_string(ni) + " methods (no overrider) and " +
            std::to_string(am) + " methods (ambiguous)");
    c.nontrivial = w.active.size() >= 2 && mr.cells > 22;
    c.label("reports with several not implemented methods", mr.ni > 3);
    c.hash(mr.cells * 64 + mr.ni * 8 + mr.amb);
}

// ---------------------------------------------- C08 / C09: histories
// Edges known from the live records only.
static World restrict_world(const World& w, const std::vector<int>& live) {
    World r = w;
    r.recs.clear();
    for (auto& s : w.recs)
        if (std::find(live.begin(), live.end(), s.rec) != live.end())
            r.recs.push_back(s);
    for (auto& p : r.parents)
        p.clear();
    for (auto& s : r.recs)
        for (int bs : s.base)
            if (bs != s.cls)
                r.parents[s.cls].push_back(bs);
    // classes are numbered topologically
    for (int i = 0; i <= r.n; ++i) {
        r.anc[i] = 1u << i;
        for (int p : r.parents[i])
            r.anc[i] |= r.anc[p];
    }
    return r;
}

static uint32_t registered_classes(const World& w) {
    uint32_t m = 0;
    for (auto& s : w.recs) {
        m |= 1u << s.cls;
        for (int bs : s.base)
            m |= 1u << bs;
    }
    return m;
}

static std::set<tid> registered_ids(const World& w) {
    std::set<tid> m;
    for (auto& s : w.recs) {
        m.insert(s.id);
        for (auto b : s.base_id)
            m.insert(b);
    }
    return m;
}

static void p_history(Ctx& c, bool indirect) {
    static auto bs =
        select([&](Backend* b) { return indirect ? b->indirect : true; });
    auto b = choose(c, bs);
    GenOpts g;
    g.small_ids = b->small_ids;
    g.max_n = 9;
    g.max_methods = 4;
    g.alias_pct = 15;
    auto w0 = gen_world(c, g);
    if (c.verbose)
        describe(c.desc, w0);
    // "anchor" records stay for ever: those of the classes whose objects are
    // held through re-initialization, and the dummy
    std::set<int> heldcls;
    if (indirect)
        for (int i = 0; i < 6; ++i)
            heldcls.insert(int(c.t.u(w0.n)));
    std::vector<RecSpec> anchors, movable;
    for (auto& r : w0.recs) {
        bool anchor = r.fixed || heldcls.count(r.cls);
        (anchor ? anchors : movable).push_back(r);
    }
    Registration reg(b);
    table = w0.tab;
    for (auto& r : anchors)
        reg.add(r);
    std::set<int> live;
    for (auto& r : movable)
        if (!c.t.chance(1, 4)) {
            reg.add(r);
            live.insert(r.rec);
        }
    Objects obj(w0);
    struct Holding {
        bool ok = false;
        int cls;
        Node* node;
    } held[6];
    auto all_live = [&] {
        std::vector<int> v;
        for (auto& r : anchors)
            v.push_back(r.rec);
        v.insert(v.end(), live.begin(), live.end());
        return v;
    };
    World cur = w0;
    bool inited = false;
    int good = 0, bad = 0, starved = 0, held_calls = 0, changed = 0, strangers = 0;
    int steps = 3 + int(c.t.u(5));
    for (int s = 0; s < steps; ++s) {
        // change the set of registered classes
        int toggles = int(c.t.u(4));
        for (int i = 0; i < toggles && !movable.empty(); ++i) {
            auto& r = movable[c.t.u(uint32_t(movable.size()))];
            if (live.erase(r.rec)) {
                reg.remove(r.rec);
                if (c.verbose)
                    c.desc << "unregister record of " << cname(w0, r.cls) << "\n";
            } else {
                reg.add(r);
                live.insert(r.rec);
                if (c.verbose)
                    c.desc << "register record of " << cname(w0, r.cls) << "\n";
            }
            ++changed;
        }
        cur = restrict_world(w0, all_live());
        uint32_t regd = registered_classes(cur);
        std::vector<int> avail;
        for (int i = 0; i < cur.n; ++i)
            if (regd >> i & 1)
                avail.push_back(i);
        // new methods / overriders on the current classes
        bool sabotage = c.t.chance(1, 7);
        auto methods = w0.active;
        cur.active.clear();
        for (int m : methods) {
            dummy_method(cur, m);
            if (avail.empty() || c.t.chance(1, 8))
                continue;
            for (int p = 0; p < arity(m); ++p) {
                int cls = c.t.pick(avail);
                while (!cur.parents[cls].empty() && c.t.chance(2, 3))
                    cls = c.t.pick(cur.parents[cls]);
                cur.mp[m][p] = cls;
                for (int k = 0; k < specs[m].overriders; ++k)
                    cur.op[m][k][p] = pick_derived(c, cur, cls);
            }
            if (tuple_count(cur, m) > 1500)
                dummy_method(cur, m);
            else
                cur.active.push_back(m);
        }
        if (sabotage && cur.active.size()) {
            int m = c.t.pick(cur.active);
            std::vector<int> missing;
            for (int i = 0; i < cur.n; ++i)
                if (!(regd >> i & 1))
                    missing.push_back(i);
            if (missing.empty())
                sabotage = false;
            else
                cur.mp[m][c.t.u(arity(m))] = c.t.pick(missing);
        } else {
            sabotage = false;
        }
        // ids usable: those registered now
        auto rids = registered_ids(cur);
        World ids = cur;
        for (int i = 0; i <= cur.n; ++i) {
            std::vector<tid> v;
            for (auto id : cur.ids[i])
                if (rids.count(id))
                    v.push_back(id);
            if (!v.empty())
                ids.ids[i] = v;
        }
        auto keep = ids.recs;
        ids.recs = w0.recs; // the table must describe every record
        fill_table(c, ids);
        table = ids.tab;
        ids.recs = keep;
        Objects now(ids);
        if (inited && c.t.chance(1, 4)) {
            b->finalize();
            inited = false;
            if (c.verbose)
                c.desc << "finalize\n";
            if (b->checks && cur.active.size()) {
                int m = cur.active[0];
                Node* a[MAXAR];
                for (int p = 0; p < arity(m); ++p)
                    a[p] = now.get(cur.n, 0);
                auto o = b->call(m, a, 0);
                if (o.kind != Outcome::not_initialized || o.executed)
                    c.fail("call after finalize: got " + outcome_str(o));
            }
        }
        if (c.verbose) {
            c.desc << "initialize with\n";
            describe_methods(c.desc, cur);
        }
        int opts = c.t.chance(1, 5) ? OPT_TRACE_ON : OPT_NONE;
        bool starve = !sabotage && c.t.chance(1, 10);
        if (starve) {
            bool failed = false;
            long left = long(c.t.u(c.t.chance(1, 2) ? 60 : 600));
            if (c.verbose)
                c.desc << "allocation " << left << " fails\n";
            memory_left = left;
            try {
                b->initialize(opts);
            } catch (std::bad_alloc&) {
                failed = true;
            }
            memory_left = -1;
            b->take_output();
            if (failed) {
                ++starved;
                inited = false;
                continue;
            }
        }
        auto r = b->initialize(opts);
        b->take_output();
        if (sabotage) {
            ++bad;
            if (r.error.kind != Outcome::missing_class)
                c.fail(
                    std::string("initialize with an unregistered parameter class: ") +
                    outcome_str(r.error));
            inited = false;
            continue;
        }
        if (r.error.kind != Outcome::nothing)
            c.fail(
                std::string("initialize failed with ") +
                kind_name(r.error.kind) + " at step " + std::to_string(s));
        inited = true;
        ++good;
        auto mr = model_report(ids, false);
        // classes that are not registered now do not count
        (void)mr;
        auto is_reg = [&](int i) { return (regd >> i & 1) != 0; };
        unsigned salt = salt_of(c);
        // objects of the classes that are not registered now (a vector without
        // a hash function promises to report only the ids beyond its end)
        if (b->checks)
            for (int cls = 0; cls < cur.n && cur.active.size(); ++cls)
                for (auto id : w0.ids[cls]) {
                    if (rids.count(id) ||
                        (b->small_ids && !rids.empty() && id < *rids.rbegin()))
                        continue;
                    int m = cur.active[(salt + cls) % cur.active.size()];
                    Node* a[MAXAR];
                    for (int p = 0; p < arity(m); ++p)
                        a[p] = now.get(cur.mp[m][p], salt + p);
                    Node gone{id};
                    a[(salt + cls) % arity(m)] = &gone;
                    auto o = b->call(m, a, 0);
                    ++strangers;
                    if (o.kind != Outcome::missing_class || o.executed ||
                        o.type != id)
                        c.fail(
                            "call of method #" + std::to_string(m) +
                            " with an object of " + cname(w0, cls) +
                            ", not registered now (" + b->name +
                            "): expected missing_class, got " + outcome_str(o));
                }
        if (!indirect)
            check_calls(
                c, ids, b, now, salt, CHECK_VALUES | CHECK_ERRORS, cur.active,
                is_reg);
        else {
            check_calls(
                c, ids, b, now, salt, CHECK_VALUES, cur.active, is_reg);
            for (int i = 0; i < 6; ++i) {
                auto& h = held[i];
                if (h.ok) {
                    if (!b->held_ok(i, h.node))
                        c.fail(
                            "virtual_ptr to " + cname(cur, h.cls) +
                            " kept across initialize does not match a fresh one");
                } else {
                    auto it = heldcls.begin();
                    std::advance(it, c.t.u(uint32_t(heldcls.size())));
                    h.cls = *it;
                    // anchors are always registered under their own id
                    tid id = nullptr;
                    for (auto& a : anchors)
                        if (a.cls == h.cls)
                            id = a.id;
                    h.node = nullptr;
                    for (std::size_t j = 0; j < obj.nodes[h.cls].size(); ++j)
                        if (obj.nodes[h.cls][j].type == id)
                            h.node = &obj.nodes[h.cls][j];
                    auto o = b->hold(i, h.node);
                    if (o.kind != Outcome::value)
                        c.fail("virtual_ptr construction: " + outcome_str(o));
                    h.ok = true;
                    if (c.verbose)
                        c.desc << "hold[" << i << "] = " << cname(cur, h.cls)
                               << "\n";
                }
            }
            for (int m : cur.active) {
                bool vp = true;
                for (const char* k = specs[m].kinds; *k; ++k)
                    vp = vp && (*k == 'P' || *k == 'C' || *k == 'N');
                if (!vp)
                    continue;
                for (int rep = 0; rep < 12; ++rep) {
                    int idx[MAXAR], t[MAXAR];
                    bool ok = true;
                    for (int p = 0; p < arity(m); ++p) {
                        std::vector<int> can;
                        for (int i = 0; i < 6; ++i)
                            if (cur.derives(held[i].cls, cur.mp[m][p]))
                                can.push_back(i);
                        if (can.empty()) {
                            ok = false;
                            break;
                        }
                        idx[p] = can[pbt::mix(salt + rep * 7 + p) % can.size()];
                        t[p] = held[idx[p]].cls;
                    }
                    if (!ok)
                        break;
                    auto e = dispatch(ids, m, t);
                    auto o = b->call_held(m, idx, 4);
                    ++held_calls;
                    auto want = e.k == Res::one ? Outcome::value
                        : e.k == Res::none      ? Outcome::no_overrider
                                                : Outcome::ambiguous;
                    if (o.kind != want ||
                        (e.k == Res::one && (o.code != e.o || !o.bad.empty())))
                        c.fail(
                            "call " + tuple_str(cur, m, t) +
                            " through virtual_ptrs kept across initialize: expected " +
                            str(e) + ", got " + outcome_str(o) + " " + o.bad);
                }
            }
        }
        c.hash(good * 31 + changed);
    }
    c.label("successful initializations", good);
    c.label("failed initializations followed by others", bad);
    c.label("initializations out of memory", starved);
    c.label("calls through kept virtual_ptrs", held_calls);
    c.label("calls with objects of classes not registered any more", strangers);
    c.nontrivial = good >= 2 && (indirect ? held_calls > 0 : changed > 0);
}


// ------------------------------------------------ C19: isolated registries
// Two to four registries are alive at the same time, each with a world of its
// own (often with the same type ids), and are initialized, finalized, made to
// fail and used in any order.
static void p_isolated(Ctx& c) {
    static auto bs = select(any);
    bool small = c.t.chance(1, 3);
    std::vector<Backend*> usable;
    for (auto b : bs)
        if (!b->small_ids || small)
            usable.push_back(b);
    struct Side {
        Backend* b;
        World w;
        std::unique_ptr<Registration> reg;
        std::unique_ptr<Objects> obj;
        bool inited = false, failed = false;
        int held_cls = -1;
        Node* held = nullptr;
        int inits = 0;
    };
    std::vector<Side> sides;
    int n = 2 + int(c.t.u(3));
    bool same_world = c.t.chance(1, 3);
    for (int i = 0; i < n && !usable.empty(); ++i) {
        auto k = c.t.u(uint32_t(usable.size()));
        Side s;
        s.b = usable[k];
        usable.erase(usable.begin() + k);
        GenOpts g;
        g.small_ids = small;
        g.max_n = 7;
        g.max_methods = 3;
        g.alias_pct = 15;
        if (same_world && i) {
            // the same classes, other methods
            s.w = sides[0].w;
            auto& w = s.w;
            for (int m : w.active)
                for (int p = 0; p < arity(m); ++p)
                    for (int k = 0; k < specs[m].overriders; ++k)
                        w.op[m][k][p] = pick_derived(c, w, w.mp[m][p]);
            fill_table(c, w);
        } else {
            s.w = gen_world(c, g);
        }
        c.label(std::string("backend ") + s.b->name);
        if (c.verbose) {
            c.desc << "--- registry " << s.b->name << ":\n";
            describe(c.desc, s.w);
        }
        s.obj.reset(new Objects(s.w));
        sides.push_back(std::move(s));
    }
    for (auto& s : sides) {
        s.reg.reset(new Registration(s.b));
        if (c.t.chance(3, 4))
            register_world(c, s.w, *s.reg);
    }
    int steps = 3 + int(c.t.u(10)), checked = 0, events = 0;
    auto quiet = [&](Side* but, const std::string& what) {
        for (auto& s : sides) {
            if (&s == but)
                continue;
            if (s.b->handler_calls)
                c.fail(what + ": the error handler of " + s.b->name + " was called");
            if (!s.b->take_output().empty())
                c.fail(what + ": output of " + s.b->name + " written");
        }
    };
    auto reset = [&] {
        for (auto& s : sides) {
            s.b->handler_calls = 0;
            s.b->take_output();
        }
    };
    for (int step = 0; step < steps; ++step) {
        auto& s = sides[c.t.u(uint32_t(sides.size()))];
        auto b = s.b;
        reset();
        std::string what;
        switch (c.t.u(6)) {
        case 0:
        case 1:
        case 2: { // (re)initialize
            if (s.reg->live.empty())
                register_world(c, s.w, *s.reg);
            table = s.w.tab;
            what = std::string("initialize ") + b->name;
            if (c.verbose)
                c.desc << what << "\n";
            auto r = b->initialize(c.t.chance(1, 4) ? OPT_TRACE_ON : OPT_NONE);
            if (r.error.kind != Outcome::nothing)
                c.fail(what + " reported " + kind_name(r.error.kind));
            s.inited = true;
            s.failed = false;
            ++s.inits;
            s.held = nullptr;
            break;
        }
        case 3: { // finalize
            what = std::string("finalize ") + b->name;
            if (c.verbose)
                c.desc << what << "\n";
            b->finalize();
            s.inited = s.failed = false;
            s.held = nullptr;
            break;
        }
        case 4: { // a failing initialize
            if (s.reg->live.empty() || s.w.active.empty())
                continue;
            table = s.w.tab;
            int m = s.w.active[0];
            static char unknown;
            table.mparam[m][0] = s.b->small_ids ? tid(uintptr_t(1000)) : tid(&unknown);
            what = std::string("failing initialize of ") + b->name;
            if (c.verbose)
                c.desc << what << "\n";
            auto r = b->initialize(OPT_NONE);
            if (r.error.kind != Outcome::missing_class)
                c.fail(what + " reported " + kind_name(r.error.kind));
            s.inited = false;
            s.failed = true; // used again after the next initialization only
            s.held = nullptr;
            break;
        }
        case 5: { // unregister everything, or register again
            what = std::string("registrations of ") + b->name;
            if (c.verbose)
                c.desc << "change " << what << "\n";
            if (s.inited) {
                b->finalize();
                s.inited = false;
            }
            s.held = nullptr;
            if (s.reg->live.empty())
                register_world(c, s.w, *s.reg);
            else
                s.reg->clear();
            break;
        }
        }
        ++events;
        quiet(&s, what);
        unsigned salt = salt_of(c);
        for (auto& o : sides) {
            reset();
            table = Table(); // nothing may be resolved outside initialize
            if (!o.inited) {
                if (o.failed || !o.b->checks || o.w.active.empty())
                    continue;
                Node* a[MAXAR];
                int m = o.w.active[0];
                for (int p = 0; p < arity(m); ++p)
                    a[p] = o.obj->get(o.w.n, 0);
                auto r = o.b->call(m, a, 0);
                if (r.kind != Outcome::not_initialized || r.executed)
                    c.fail(
                        "after " + what + ", a call in " + o.b->name +
                        ", which is not initialized: " + outcome_str(r));
                quiet(&o, "call in " + std::string(o.b->name));
                continue;
            }
            if (&o != &s && o.inits)
                ++checked;
            if (o.held) {
                if (!o.b->held_ok(0, o.held))
                    c.fail(
                        "after " + what + ", a virtual_ptr of " + o.b->name +
                        " is not valid any more");
            } else {
                o.held_cls = int(c.t.u(o.w.n));
                o.held = o.obj->get(o.held_cls, 0);
                if (o.b->hold(0, o.held).kind != Outcome::value)
                    c.fail("virtual_ptr construction in " + std::string(o.b->name));
            }
            try {
                check_calls(
                    c, o.w, o.b, *o.obj, salt, CHECK_VALUES | CHECK_ERRORS,
                    o.w.active);
            } catch (pbt::Failure& f) {
                c.fail("after " + what + ": " + f.msg);
            }
            for (auto& x : sides)
                if (&x != &o && x.b->handler_calls)
                    c.fail(
                        "a call in " + std::string(o.b->name) +
                        " called the error handler of " + x.b->name);
        }
    }
    c.hash(events * 31 + checked);
    c.label("registries alive together", sides.size());
    c.label("registries checked after an event in another one", checked);
    c.nontrivial = checked > 0;
    while (!sides.empty()) {
        auto k = c.t.u(uint32_t(sides.size()));
        sides.erase(sides.begin() + k);
    }
}

// ------------------------------------------- C10: policies are transparent
static void p_policies(Ctx& c) {
    static auto bs = select(any);
    GenOpts g;
    g.small_ids = c.t.chance(1, 2);
    g.max_n = 9;
    g.max_methods = 3;
    g.alias_pct = 35;
    auto w = gen_world(c, g);
    unsigned salt = salt_of(c);
    if (c.verbose)
        describe(c.desc, w);
    Objects obj(w);
    std::vector<int> id(MAXOV);
    for (int k = 0; k < MAXOV; ++k)
        id[k] = k;
    std::map<int, std::vector<long>> first;
    Report rep;
    Backend* ref = nullptr;
    int n = 0;
    for (auto b : bs) {
        if (b->small_ids && !g.small_ids)
            continue;
        Registration reg(b);
        register_world(c, w, reg);
        Report r;
        init_ok(c, w, b, OPT_NONE, &r);
        ++n;
        std::map<int, std::vector<long>> t;
        for (int m : w.active)
            t[m] = table_of(c, w, b, obj, salt, m, id);
        if (!ref) {
            ref = b;
            first = t;
            rep = r;
            check_calls(c, w, b, obj, salt, CHECK_VALUES, w.active);
        } else {
            check_same_reports(
                c, rep, r, std::string(ref->name) + " vs " + b->name);
            for (int m : w.active)
                if (t[m] != first[m])
                    c.fail(
                        "method #" + std::to_string(m) + " dispatches differently under " +
                        ref->name + " and " + b->name);
        }
    }
    c.label("policy configurations compared", n);
}

// ------------------------------------------------- C11: runtime checks
static void p_checks(Ctx& c) {
    static auto bs = select([](Backend* b) { return b->checks; });
    auto b = choose(c, bs);
    GenOpts g;
    g.small_ids = b->small_ids;
    g.max_n = 7;
    g.max_methods = 4;
    auto w = gen_world(c, g);
    if (w.active.empty())
        throw pbt::Discard();
    unsigned salt = salt_of(c);
    if (c.verbose)
        describe(c.desc, w);
    Objects obj(w);
    Registration reg(b);
    register_world(c, w, reg);
    auto rand_args = [&](int m, Node** a, int* t) {
        for (int p = 0; p < arity(m); ++p) {
            t[p] = pick_derived(c, w, w.mp[m][p]);
            a[p] = obj.get(t[p], c.t.u(8));
        }
    };
    auto uninit = [&](const char* when) {
        for (int m : w.active) {
            Node* a[MAXAR];
            int t[MAXAR];
            rand_args(m, a, t);
            auto o = b->call(m, a, 0);
            if (o.kind != Outcome::not_initialized || o.executed ||
                o.handler_calls != 1)
                c.fail(
                    std::string(when) + ", call " + tuple_str(w, m, t) +
                    " with " + b->name + ": expected not_initialized, got " +
                    outcome_str(o));
            o = b->hold(0, a[0]);
            if (o.kind != Outcome::not_initialized)
                c.fail(
                    std::string(when) + ", virtual_ptr construction: got " +
                    outcome_str(o));
            o = b->make_final(m, 0, a[0]);
            if (o.kind != Outcome::not_initialized)
                c.fail(
                    std::string(when) + ", final_virtual_ptr: got " +
                    outcome_str(o));
        }
        c.label("uses before initialize / after finalize", w.active.size());
    };
    if (c.t.chance(1, 2))
        uninit("before initialize");
    std::set<tid> ids;
    for (auto& v : w.ids)
        for (auto i : v)
            ids.insert(i);
    // Classes registered during a previous initialization, but not any more.
    std::vector<tid> ghosts;
    if (c.t.chance(1, 2)) {
        std::set<int> used{DUMMY_REC};
        for (auto& r : w.recs)
            used.insert(r.rec);
        std::vector<int> added;
        int n = c.t.range(1, 4);
        for (int r = 0; r < NREC && int(added.size()) < n; ++r) {
            if (used.count(r))
                continue;
            auto v = uint64_t(uintptr_t(*ids.rbegin())) + 1 + c.t.u(40);
            if (!b->small_ids && c.t.chance(1, 2))
                v = c.t.raw64();
            auto id = tid(uintptr_t(v));
            if (ids.count(id) || v == ~0ull || !v ||
                std::find(ghosts.begin(), ghosts.end(), id) != ghosts.end())
                continue;
            table.rec[r] = id;
            for (auto& base : table.recbase[r])
                base = id;
            b->add_record(r);
            added.push_back(r);
            ghosts.push_back(id);
        }
        init_ok(c, w, b, OPT_NONE);
        for (int r : added)
            b->remove_record(r);
        if (c.t.chance(1, 3))
            b->finalize();
        c.label("classes unregistered before the last initialize", ghosts.size());
    }
    init_ok(c, w, b, OPT_NONE);
    std::size_t strangers = 0, finals = 0;
    for (int rep = 0; rep < 12; ++rep) {
        int m = c.t.pick(w.active);
        Node* a[MAXAR];
        int t[MAXAR];
        rand_args(m, a, t);
        // an object of a class nobody registered, anywhere in the tuple
        uint64_t v;
        switch (c.t.u(4)) {
        case 0:
            v = c.t.raw64();
            break;
        case 1: // next to a registered id
            v = uint64_t(uintptr_t(a[0]->type)) + c.t.u(64);
            break;
        case 2:
            v = uint64_t(uintptr_t(a[0]->type)) ^ (1ull << c.t.u(64));
            break;
        default:
            v = uint64_t(uintptr_t(a[0]->type)) + (uint64_t(c.t.u(1 << 16)) << 4);
            break;
        }
        if (b->small_ids)
            v = uint64_t(uintptr_t(*ids.rbegin())) + 1 + c.t.u(1000);
        if (!ghosts.empty() && c.t.chance(1, 2))
            v = uint64_t(uintptr_t(c.t.pick(ghosts)));
        if (ids.count(tid(uintptr_t(v))) || v == ~0ull)
            continue;
        Node stranger{tid(uintptr_t(v))};
        int p = int(c.t.u(arity(m)));
        // with virtual_ptr parameters the check happens at construction
        a[p] = &stranger;
        auto o = b->call(m, a, 0);
        ++strangers;
        if (o.kind != Outcome::missing_class || o.executed ||
            o.handler_calls != 1)
            c.fail(
                "call " + tuple_str(w, m, t) + " with an unregistered class at " +
                std::to_string(p) + " (" + b->name + "): expected missing_class, got " +
                outcome_str(o));
        if (o.type != stranger.type)
            c.fail("missing_class names another type than the argument's");
        o = b->hold(1, &stranger);
        if (o.kind != Outcome::missing_class || o.type != stranger.type)
            c.fail(
                "virtual_ptr to an unregistered class: expected missing_class, got " +
                outcome_str(o));
    }
    for (int m : w.active)
        for (int p = 0; p < arity(m) && p < 2; ++p) {
            int t = pick_derived(c, w, w.mp[m][p]);
            Node* n = obj.get(t, c.t.u(4));
            if (n->type == w.tab.mparam[m][p])
                continue; // match: static_vptr of a placeholder type, skip
            if (t == w.mp[m][p])
                continue; // an alias id of the same class
            auto o = b->make_final(m, p, n);
            ++finals;
            if (o.kind != Outcome::final_error ||
                o.type != w.tab.mparam[m][p] || o.type2 != n->type)
                c.fail(
                    "final_virtual_ptr<" + cname(w, w.mp[m][p]) + "> on a " +
                    cname(w, t) + ": expected final_error, got " +
                    outcome_str(o));
        }
    // correct programs see no error
    check_calls(c, w, b, obj, salt, CHECK_VALUES | CHECK_ERRORS, w.active);
    if (c.t.chance(1, 2)) {
        b->finalize();
        uninit("after finalize");
    }
    c.label("calls with an unregistered class", strangers);
    c.label("final mismatches", finals);
    c.nontrivial = strangers > 0;
}

// ------------------------------------------- C13: incomplete registrations
static void p_incomplete(Ctx& c) {
    static auto bs = select(any);
    auto b = choose(c, bs);
    GenOpts g;
    g.small_ids = b->small_ids;
    g.max_n = 8;
    g.max_methods = 4;
    g.class_returns = c.t.chance(1, 3);
    g.split = true;
    auto w = gen_world(c, g);
    if (w.active.empty())
        throw pbt::Discard();
    int kind = int(c.t.u(5));
    Outcome::Kind want = Outcome::nothing;
    std::set<tid> types;                  // missing_class
    std::set<std::pair<int, int>> pairs;  // missing_base (base, derived)
    World r = w;                          // what is registered
    auto drop_class = [&](int cls) {
        r.recs.erase(
            std::remove_if(
                r.recs.begin(), r.recs.end(),
                [&](const RecSpec& s) { return s.cls == cls; }),
            r.recs.end());
        for (auto& s : r.recs)
            for (int i = 0; i < NBASE; ++i)
                if (s.base[i] == cls) {
                    s.base[i] = s.cls;
                    s.base_id[i] = s.id;
                }
    };
    // 0: nothing wrong; 1, 2: an arbitrary class is not registered;
    // 3, 4: an arbitrary inheritance fact is not registered
    if (kind == 1 || kind == 2) {
        drop_class(int(c.t.u(w.n)));
    } else if (kind >= 3) {
        int cls = int(c.t.u(w.n));
        uint32_t cut = 0;
        for (int a = 0; a < w.n; ++a)
            if (a != cls && w.derives(cls, a) && (kind == 3 || c.t.chance(1, 2)))
                cut |= 1u << a;
        for (auto& s : r.recs)
            if (s.cls == cls)
                for (int i = 0; i < NBASE; ++i)
                    if (s.base[i] != cls && (cut >> s.base[i] & 1)) {
                        s.base[i] = cls;
                        s.base_id[i] = s.id;
                    }
    }
    World known = r;
    {
        std::vector<int> live;
        for (auto& s : r.recs)
            live.push_back(s.rec);
        known = restrict_world(r, live);
    }
    // same ids in records as in the table
    for (auto& s : r.recs)
        for (int i = 0; i < NBASE; ++i)
            r.tab.recbase[s.rec][i] = s.base_id[i];
    uint32_t regd = registered_classes(r);
    auto rids = registered_ids(r);
    // parameters use ids registered now, when the class still has one
    auto usable = [&](int cls, tid id) {
        if (rids.count(id))
            return id;
        for (auto i : w.ids[cls])
            if (rids.count(i))
                return i;
        return id;
    };
    for (int m = 0; m < NMETH; ++m) {
        for (int p = 0; p < arity(m); ++p) {
            auto& x = r.tab.mparam[m][p];
            x = usable(w.mp[m][p], x);
            if (!(regd >> w.mp[m][p] & 1))
                types.insert(x);
            for (int k = 0; k < specs[m].overriders; ++k) {
                auto& y = r.tab.oparam[m][k][p];
                y = usable(w.op[m][k][p], y);
                if (!(regd >> w.op[m][k][p] & 1))
                    types.insert(y);
                else if ((regd >> w.mp[m][p] & 1) &&
                         !known.derives(w.op[m][k][p], w.mp[m][p]))
                    pairs.insert({w.mp[m][p], w.op[m][k][p]});
            }
        }
        if (specs[m].cls_return && w.mr[m] >= 0 && (regd >> w.mr[m] & 1))
            for (int k = 0; k < specs[m].overriders; ++k)
                if (!(regd >> w.orr[m][k] & 1))
                    types.insert(r.tab.oret[m][k]);
    }
    want = !types.empty() ? Outcome::missing_class
        : !pairs.empty()  ? Outcome::missing_base
                          : Outcome::nothing;
    if (c.verbose) {
        describe(c.desc, r);
        c.desc << "expected: " << kind_name(want) << "\n";
    }
    c.label(std::string("expected ") + kind_name(want));
    Registration reg(b);
    table = r.tab;
    for (auto& s : r.recs)
        reg.add(s);
    auto rep = b->initialize(OPT_NONE);
    auto o = rep.error;
    std::string where = std::string("initialize (") + b->name + "): expected " +
        kind_name(want) + ", got " + kind_name(o.kind);
    // both defects may be present: either report is right then
    bool class_ok = o.kind == Outcome::missing_class && types.count(o.type);
    bool base_ok = false;
    if (o.kind == Outcome::missing_base) {
        for (auto& [bs_, dv] : pairs) {
            auto& bi = w.ids[bs_];
            auto& di = w.ids[dv];
            base_ok = base_ok ||
                (std::find(bi.begin(), bi.end(), o.type) != bi.end() &&
                 std::find(di.begin(), di.end(), o.type2) != di.end());
        }
    }
    if (want == Outcome::nothing) {
        if (o.kind != Outcome::nothing || o.handler_calls)
            c.fail(where);
        Objects obj(w);
        auto is_reg = [&](int i) { return (regd >> i & 1) != 0; };
        World cw = known;
        cw.active = w.active;
        for (int i = 0; i <= w.n; ++i) {
            std::vector<tid> v;
            for (auto id : w.ids[i])
                if (rids.count(id))
                    v.push_back(id);
            if (!v.empty())
                cw.ids[i] = v;
        }
        Objects now(cw);
        // no error: then dispatch works on what was registered
        check_calls(
            c, cw, b, now, 0, CHECK_VALUES | CHECK_ERRORS, w.active, is_reg);
    } else {
        if (o.kind == Outcome::nothing)
            c.fail(where);
        if (!class_ok && !base_ok)
            c.fail(
                where + (o.kind == Outcome::missing_base
                             ? " naming the wrong classes"
                             : " naming the wrong class"));
        if (o.handler_calls != 1)
            c.fail(where + ": handler not called exactly once");
        c.nontrivial = true;
    }
}

// ------------------------------------------------- C20: trace transparency
// Sets BOOST_OPENMETHOD_TRACE, for this process.
static const char* trace_variable(Ctx& c) {
    static const char* values[] = {
        "1", "0", "", "11", "10", "01", " 1", "1 ", "2", "true", "on", "yes", "-1",
        "1.", "1\n", "1\x01"};
    const char* name = "BOOST_OPENMETHOD_TRACE";
    int k = int(c.t.u(22));
    if (k < 5)
        setenv(name, "1", 1);
    else if (k == 5)
        unsetenv(name);
    else if (k == 6) {
        std::string s;
        int n = int(c.t.u(4));
        for (int i = 0; i < n; ++i)
            s += c.t.chance(1, 3) ? '1' : char(1 + c.t.u(255));
        setenv(name, s.c_str(), 1);
    } else
        setenv(name, values[k - 7], 1);
    auto v = getenv(name);
    if (c.verbose)
        c.desc << "BOOST_OPENMETHOD_TRACE " << (v ? v : "not set") << "\n";
    return v;
}

static void p_trace(Ctx& c) {
    static auto bs = select(any);
    auto b = choose(c, bs);
    GenOpts g;
    g.small_ids = b->small_ids;
    g.max_n = 8;
    g.max_methods = 3;
    g.class_returns = c.t.chance(1, 3);
    auto w = gen_world(c, g);
    unsigned salt = salt_of(c);
    bool n2216 = c.t.chance(1, 2);
    if (c.verbose)
        describe(c.desc, w);
    Objects obj(w);
    std::vector<int> id(MAXOV);
    for (int k = 0; k < MAXOV; ++k)
        id[k] = k;
    std::map<int, std::vector<long>> first;
    Report rep;
    int base = n2216 ? OPT_N2216 : OPT_NONE;
    int modes[5] = {
        base, base | OPT_TRACE_OFF, base | OPT_TRACE_ON, base | OPT_TRACE_ENV,
        base | OPT_TRACE_ENV};
    int order[5] = {0, 1, 2, 3, 4};
    for (int i = 0; i < 4; ++i)
        std::swap(order[i], order[i + c.t.u(5 - i)]);
    Registration reg(b);
    register_world(c, w, reg);
    b->take_output();
    for (int i = 0; i < 5; ++i) {
        int mode = modes[order[i]];
        // the variable matters for from_env only, but is always set
        const char* env = trace_variable(c);
        bool on = (mode & OPT_TRACE_ON) != 0;
        if (mode & OPT_TRACE_ENV) {
            on = env && !std::strcmp(env, "1");
            c.label(on ? "from_env: on" : "from_env: off");
        }
        Report r;
        init_ok(c, w, b, mode, &r);
        auto out = b->take_output();
        if (on) {
            if (out.empty())
                c.fail("tracing produced no output");
        } else if (!out.empty()) {
            c.fail(
                "output without tracing" +
                (mode & OPT_TRACE_ENV
                     ? " (BOOST_OPENMETHOD_TRACE is " +
                         (env ? "\"" + std::string(env) + "\"" : "not set") + ")"
                     : std::string()) +
                ": \"" + out.substr(0, 100) + "\"");
        }
        std::map<int, std::vector<long>> t;
        for (int m : w.active)
            t[m] = table_of(c, w, b, obj, salt, m, id);
        if (i == 0) {
            first = t;
            rep = r;
        } else {
            check_same_reports(c, rep, r, "tracing changed the report");
            if (t != first)
                c.fail("tracing changed dispatch");
        }
    }
    c.nontrivial = !w.active.empty();
}

#ifdef UNI_COUNT
// ------------------------------------------------ C26: the cost of a call
// C0; C1 : C0; the first overrider is on C1 only, the others on C0.
static World two_classes(Ctx& c, const std::vector<int>& methods) {
    World w;
    w.n = 2;
    w.parents = {{}, {0}, {}};
    w.anc = {1, 3, 4};
    for (int i = 0; i <= w.n; ++i) {
        w.ids.push_back({tid(uintptr_t(1 + i))});
        w.tab.alias[w.ids[i][0]] = w.ids[i][0];
    }
    for (int i = 0; i < w.n; ++i) {
        RecSpec r;
        r.rec = i;
        r.cls = i;
        r.id = w.ids[i][0];
        r.base.fill(i);
        if (i)
            r.base[0] = 0;
        for (int j = 0; j < NBASE; ++j)
            r.base_id[j] = w.ids[r.base[j]][0];
        w.recs.push_back(r);
    }
    add_dummy_record(w);
    for (int m = 0; m < NMETH; ++m)
        dummy_method(w, m);
    for (int m : methods) {
        for (int p = 0; p < arity(m); ++p) {
            w.mp[m][p] = 0;
            for (int k = 0; k < specs[m].overriders; ++k)
                w.op[m][k][p] = k == 0;
        }
        w.active.push_back(m);
    }
    fill_table(c, w);
    return w;
}

static bool all_virtual_ptrs(int m) {
    return strpbrk(specs[m].kinds, "VKQ") == nullptr;
}

static void p_cost(Ctx& c) {
    static auto bs = select(any);
    auto b = choose(c, bs);
    bool map = strstr(b->name, "map") != nullptr;
    GenOpts g;
    g.small_ids = b->small_ids;
    g.max_n = 11;
    g.max_methods = 5;
    auto w = gen_world(c, g);
    unsigned salt = salt_of(c);
    if (c.verbose)
        describe(c.desc, w);
    Counts base[NMETH][2];
    bool has_base[NMETH] = {};
    std::size_t measured = 0, nexts = 0;
    int classes = 0;
    // makes one call, by objects or by virtual_ptrs made before
    auto measure = [&](int m, Node** a, bool held, int want) {
        int idx[MAXAR];
        if (held)
            for (int p = 0; p < arity(m); ++p) {
                idx[p] = p;
                b->hold(p, a[p]);
            }
        at_entry = Counts{};
        auto o = held ? b->call_held(m, idx, 7) : b->call(m, a, 7);
        if (o.kind != Outcome::value || o.code != want || !o.bad.empty())
            c.fail("method #" + std::to_string(m) + ": wrong outcome: " +
                   outcome_str(o) + " " + o.bad);
        uint64_t lookups = held ? 0 : arity(m);
        if (at_entry.dynamic_types != lookups)
            c.fail(
                "a call of method #" + std::to_string(m) + " \"" +
                specs[m].kinds + "\"" + (held ? " with virtual_ptrs" : "") +
                " asked for dynamic types " +
                std::to_string(at_entry.dynamic_types) + " times, expected " +
                std::to_string(lookups) + " (" + b->name + ")");
        return at_entry;
    };
    {
        std::vector<int> ms;
        for (int m : w.active)
            if (specs[m].overriders)
                ms.push_back(m);
        auto small = two_classes(c, ms);
        Registration reg(b);
        register_world(c, small, reg);
        init_ok(c, small, b, OPT_NONE);
        Objects obj(small);
        for (int m : ms) {
            Node* a[MAXAR];
            for (int p = 0; p < arity(m); ++p)
                a[p] = obj.get(1, 0);
            if (!map)
                base[m][0] = measure(m, a, false, 0);
            if (all_virtual_ptrs(m))
                base[m][1] = measure(m, a, true, 0);
            has_base[m] = true;
        }
    }
    Registration reg(b);
    register_world(c, w, reg);
    init_ok(c, w, b, OPT_NONE);
    Objects obj(w);
    for (int m : w.active) {
        if (!has_base[m])
            continue;
        double total = tuple_count(w, m);
        unsigned long long i = 0;
        std::size_t before = measured;
        for_tuples(w, m, [&](const int* t) {
            if (!cell_selected(++i + salt, total))
                return;
            auto e = dispatch(w, m, t);
            if (e.k != Res::one)
                return;
            Node* a[MAXAR];
            for (int p = 0; p < arity(m); ++p)
                a[p] = obj.get(t[p], salt + unsigned(i) + p);
            for (int held = 0; held < 2; ++held) {
                if (held ? !all_virtual_ptrs(m) : map)
                    continue;
                auto n = measure(m, a, held, e.o);
                // (a little more is still constant)
                if (n.loads > base[m][held].loads + 2)
                    c.fail(
                        "call " + tuple_str(w, m, t) +
                        (held ? " with virtual_ptrs" : "") + " reads memory " +
                        std::to_string(n.loads) + " times; in a program of two "
                        "classes, " + std::to_string(base[m][held].loads) +
                        " times (" + b->name + ")");
                ++measured;
            }
            // next does not look up anything, except to make virtual_ptrs
            auto next = dispatch(w, m, t, e.o);
            if (next.k == Res::one && b->has_next(m, e.o)) {
                at_entry = Counts{};
                auto o = b->call_next(m, e.o, a, 7);
                uint64_t made = 0;
                for (const char* k = specs[m].kinds; *k; ++k)
                    made += *k == 'P' || *k == 'C';
                if (o.kind == Outcome::value && at_entry.dynamic_types != made)
                    c.fail("next in " + tuple_str(w, m, t) +
                           " asked for dynamic types " +
                           std::to_string(at_entry.dynamic_types) +
                           " times, expected " + std::to_string(made));
                ++nexts;
            }
        });
        if (measured - before > 3 && specs[m].overriders > 1)
            ++classes;
    }
    c.label("calls measured", measured);
    c.label("calls of next measured", nexts);
    c.nontrivial = classes > 0;
}
#endif

} // namespace uni

#ifdef UNI_COUNT
#define UNI_LOAD(n)                                                            \
    extern "C" __attribute__((no_sanitize("coverage"))) void                  \
        __sanitizer_cov_load##n(void*) {                                       \
        ++uni::counts.loads;                                                   \
    }
UNI_LOAD(1) UNI_LOAD(2) UNI_LOAD(4) UNI_LOAD(8) UNI_LOAD(16)
extern "C" void __sanitizer_cov_bool_flag_init(void*, void*) {
}
#endif

int main(int argc, char** argv) {
    using namespace uni;
    std::map<std::string, pbt::Property> props;
    const char* nt_multi =
        "the generated world has a call tuple with at least two applicable "
        "overriders and a tuple with a unique best one; distinct = distinct "
        "(hierarchy, method signatures, overrider signatures)";
    props["C01"] = {[](Ctx& c) { p_dispatch(c, CHECK_VALUES); }, nt_multi};
    props["C02"] = {
        [](Ctx& c) { p_dispatch(c, CHECK_ERRORS); },
        "the world has at least one tuple without overrider or ambiguous; "
        "distinct = distinct (hierarchy, method and overrider signatures)"};
    props["C03"] = {
        p_next, "at least one overrider has another overrider as its next"};
    props["C03-per-tuple"] = {p_next_per_tuple, "fixed scenario"};
    props["C04"] = {
        p_order,
        "two different registrations of the same program were compared on a "
        "method with at least two different outcomes"};
    props["C05"] = {
        p_many,
        "at least four methods share the hierarchy and some tuple has two "
        "applicable overriders"};
    props["C06"] = {
        p_n2216,
        "at least one tuple is ambiguous under the ordinary rules"};
    props["C07"] = {
        p_report, "at least two methods on real classes and more than 22 cells"};
    props["C08"] = {
        [](Ctx& c) { p_history(c, false); },
        "at least two successful initializations with a change of the "
        "registered classes in the history"};
    props["C09"] = {
        [](Ctx& c) { p_history(c, true); },
        "at least two successful initializations and a call through a "
        "virtual_ptr created before the last one"};
    props["C10"] = {p_policies, nt_multi};
    props["C11"] = {
        p_checks, "at least one call with an object of an unregistered class"};
    props["C13"] = {p_incomplete, "the registration is incomplete"};
#ifdef UNI_COUNT
    props["C26"] = {
        p_cost,
        "calls of a method with several classes and overriders were measured"};
#endif
    props["C19"] = {
        p_isolated,
        "a registry was used again after an initialization, a finalization or a "
        "failure in another one"};
    props["C20"] = {p_trace, "at least one method on real classes"};
    return pbt::main(argc, argv, props);
}
