// Lifecycle of objects with an embedded v-table pointer.
#pragma once
#include "common.hpp"

#include <boost/openmethod.hpp>
#include <boost/openmethod/initialize.hpp>
#include <boost/openmethod/inplace_vptr.hpp>
#include <boost/openmethod/policies/static_rtti.hpp>
#include <boost/openmethod/policies/std_rtti.hpp>
#include <boost/openmethod/policies/throw_error_handler.hpp>

#include <memory>
#include <vector>

namespace ip {

namespace bom = boost::openmethod;
namespace pol = boost::openmethod::policies;

enum Cls { A, A2, A3, B, C, D, M2, M3, N, J, K, L, P, Q, NCLS };
inline const char* cls_name(int c) {
    static const char* names[] = {"A", "A2", "A3", "B", "C", "D", "M2",
                                  "M3", "N", "J", "K", "L", "P", "Q", "?"};
    return names[c < 0 || c > NCLS ? NCLS : c];
}

struct poly_root {
    virtual ~poly_root() {
    }
};
struct plain_root {};

// Calls made from constructors and destructors.
template<class F, int I, class T>
void probe(T* p) {
    if (!world.probing)
        return;
    ++world.probes;
    F::template check_object<I>(*p, "in a constructor or destructor");
}

inline void count_ctor() {
    ++world.created;
}

// Data of each class: its value must be copied, moved and swapped.
struct Data {
    int value = 0;
};

template<class R, bool Polymorphic, int Salt>
struct Family {
    using F = Family;
    using Reg = R;
    static constexpr bool polymorphic = Polymorphic;
    struct TA;
    struct TA2;
    struct TA3;
    struct TB;
    struct TC;
    struct TD;
    struct TM2;
    struct TM3;
    struct TN;
    struct TJ;
    struct TK;
    struct TL;
    struct TP;
    struct TQ;

    template<int I>
    using T = std::tuple_element_t<
        I, std::tuple<TA, TA2, TA3, TB, TC, TD, TM2, TM3, TN, TJ, TK, TL, TP, TQ>>;

    template<int Root>
    struct root_data : std::conditional_t<Polymorphic, poly_root, plain_root> {
        int value = 0;
    };

    static void boom() {
        if (world.countdown >= 0 && world.countdown-- == 0) {
            ++world.destroyed; // no destructor for this one
            throw Boom();
        }
    }

    // User-written constructors and destructor that call methods; copy and
    // assignment are the implicit ones, or explicit ones for some classes.
    struct TA : bom::inplace_vptr_base<TA, R>, root_data<0> {
        TA() { ++world.created; probe<F, A>(this); boom(); }
        TA(const TA& o) : bom::inplace_vptr_base<TA, R>(o), root_data<0>(o) { ++world.created; probe<F, A>(this); boom(); }
        TA& operator=(const TA&) = default;
        ~TA() { ++world.destroyed; probe<F, A>(this); }
    };
    struct TA2 : bom::inplace_vptr_base<TA2, R>, root_data<1> {
        TA2() { ++world.created; probe<F, A2>(this); boom(); }
        TA2(const TA2& o) : bom::inplace_vptr_base<TA2, R>(o), root_data<1>(o) { ++world.created; probe<F, A2>(this); boom(); }
        TA2& operator=(const TA2& o) { this->root_data<1>::value = o.root_data<1>::value; bom::inplace_vptr_base<TA2, R>::operator=(o); probe_assigned(this); return *this; }
        ~TA2() { ++world.destroyed; probe<F, A2>(this); }
    };
    template<class X> static void probe_assigned(X*) {}
    struct TA3 : root_data<2>, bom::inplace_vptr_base<TA3, R> { // implicit everything
    };
    struct TB : TA, bom::inplace_vptr_derived<TB, TA> {
        TB() { ++world.created; probe<F, B>(this); boom(); }
        TB(const TB& o) : TA(o), bom::inplace_vptr_derived<TB, TA>(o) { ++world.created; probe<F, B>(this); boom(); }
        TB& operator=(const TB&) = default;
        ~TB() { ++world.destroyed; probe<F, B>(this); }
    };
    struct TC : TB, bom::inplace_vptr_derived<TC, TB> { // implicit copy and move
        TC() { ++world.created; probe<F, C>(this); boom(); }
        TC(const TC&) = default;
        TC(TC&&) = default;
        TC& operator=(const TC&) = default;
        TC& operator=(TC&&) = default;
        ~TC() { probe<F, C>(this); }
    };
    struct TD : TC, bom::inplace_vptr_derived<TD, TC> {}; // implicit everything
    struct TM2 : TA, TA2, bom::inplace_vptr_derived<TM2, TA, TA2> {
        TM2() { ++world.created; probe<F, M2>(this); boom(); }
        TM2(const TM2& o) : TA(o), TA2(o), bom::inplace_vptr_derived<TM2, TA, TA2>(o) { ++world.created; probe<F, M2>(this); boom(); }
        TM2& operator=(const TM2& o) { TA::operator=(o); TA2::operator=(o); return *this; }
        ~TM2() { ++world.destroyed; probe<F, M2>(this); }
    };
    struct TM3 : TA3, TA, TA2, bom::inplace_vptr_derived<TM3, TA3, TA, TA2> {
        TM3() { ++world.created; probe<F, M3>(this); boom(); }
        TM3(const TM3&) = default;
        TM3& operator=(const TM3&) = default;
        ~TM3() { probe<F, M3>(this); }
    };
    struct TN : TM2, bom::inplace_vptr_derived<TN, TM2> {
        TN() { ++world.created; probe<F, N>(this); boom(); }
        TN(const TN& o) : TM2(o), bom::inplace_vptr_derived<TN, TM2>(o) { ++world.created; probe<F, N>(this); boom(); }
        TN& operator=(const TN&) = default;
        ~TN() { ++world.destroyed; probe<F, N>(this); }
    };
    struct TJ : TB, TA2, bom::inplace_vptr_derived<TJ, TB, TA2> {
        TJ() { ++world.created; probe<F, J>(this); boom(); }
        TJ(const TJ& o) : TB(o), TA2(o), bom::inplace_vptr_derived<TJ, TB, TA2>(o) { ++world.created; probe<F, J>(this); boom(); }
        TJ& operator=(const TJ&) = default;
        ~TJ() { ++world.destroyed; probe<F, J>(this); }
    };
    struct TK : TN, TA3, bom::inplace_vptr_derived<TK, TN, TA3> {
        TK() { ++world.created; probe<F, K>(this); boom(); }
        // a copy constructor that does not mention the mixin
        TK(const TK& o) : TN(o), TA3(o) { ++world.created; probe<F, K>(this); boom(); }
        TK& operator=(const TK&) = default;
        ~TK() { ++world.destroyed; probe<F, K>(this); }
    };
    struct TL : TA3, TJ, bom::inplace_vptr_derived<TL, TA3, TJ> {
        TL() { ++world.created; probe<F, L>(this); boom(); }
        TL(const TL&) = default;
        TL(TL&&) = default;
        TL& operator=(const TL&) = default;
        ~TL() { probe<F, L>(this); }
    };
    struct TP : TA2, TA, bom::inplace_vptr_derived<TP, TA2, TA> {}; // implicit everything
    struct TQ : TM3, bom::inplace_vptr_derived<TQ, TM3> {
        TQ() { ++world.created; probe<F, Q>(this); boom(); }
        TQ(const TQ&) = default;
        TQ& operator=(const TQ&) = default;
        ~TQ() { probe<F, Q>(this); }
    };

    // Payload: one value per root.
    template<class X>
    static void set(X& x, int v) {
        if constexpr (std::is_base_of_v<TA, X>) x.template root_data<0>::value = v;
        if constexpr (std::is_base_of_v<TA2, X>) x.template root_data<1>::value = v + 1;
        if constexpr (std::is_base_of_v<TA3, X>) x.template root_data<2>::value = v + 2;
    }
    template<class X>
    static auto get(const X& x) -> std::array<int, 3> {
        std::array<int, 3> r{-1, -1, -1};
        if constexpr (std::is_base_of_v<TA, X>) r[0] = x.template root_data<0>::value;
        if constexpr (std::is_base_of_v<TA2, X>) r[1] = x.template root_data<1>::value;
        if constexpr (std::is_base_of_v<TA3, X>) r[2] = x.template root_data<2>::value;
        return r;
    }

    template<int I, int J_>
    static constexpr bool derives = std::is_base_of_v<T<J_>, T<I>>;

    static bool isa(int i, int j) {
        return isa_table[i][j];
    }
    template<std::size_t... IJ>
    static auto make_isa(std::index_sequence<IJ...>) {
        std::array<std::array<bool, NCLS>, NCLS> t{};
        ((t[IJ / NCLS][IJ % NCLS] = derives<IJ / NCLS, IJ % NCLS>), ...);
        return t;
    }
    inline static const std::array<std::array<bool, NCLS>, NCLS> isa_table =
        make_isa(std::make_index_sequence<NCLS * NCLS>());

    // ---- methods
    template<int Root> struct who_id;
    template<int Root> struct kind_id;
    struct meet_id;
    // who: an overrider for every class; by reference
    template<int Root>
    using who = bom::method<who_id<Root>, int(bom::virtual_<const T<Root>&>), R>;
    template<int Root, int I>
    static int who_fn(const T<I>& x) {
        arg = &x;
        return I;
    }
    // kind: only for some; by virtual_ptr, or by plain pointer: virtual_ptrs
    // are made from objects of polymorphic classes only
    template<class X>
    using ptr = std::conditional_t<Polymorphic, bom::virtual_ptr<X, R>, X*>;
    template<class X>
    using vparam = std::conditional_t<Polymorphic, bom::virtual_ptr<X, R>, bom::virtual_<X*>>;
    template<class X>
    static auto make_ptr(X& x) -> ptr<X> {
        if constexpr (Polymorphic)
            return x;
        else
            return &x;
    }
    template<class X>
    static auto addr(const X& p) -> const void* {
        if constexpr (Polymorphic)
            return p.get();
        else
            return p;
    }
    template<int Root>
    using kind = bom::method<kind_id<Root>, int(int, vparam<T<Root>>), R>;
    template<int Root, int I>
    static int kind_fn(int, ptr<T<I>> p) {
        arg = addr(p);
        return I;
    }
    using meet = bom::method<meet_id, int(bom::virtual_<TA&>, vparam<TA2>), R>;
    template<int I, int J_>
    static int meet_fn(T<I>& x, ptr<T<J_>> y) {
        arg = &x;
        arg2 = addr(y);
        return I * NCLS + J_;
    }
    inline static const void* arg;
    inline static const void* arg2;

    template<int Root, int... I>
    static void who_over(std::integer_sequence<int, I...>) {
        (who_over1<Root, I>(), ...);
    }
    template<int Root, int I>
    static void who_over1() {
        if constexpr (derives<I, Root>) {
            static typename who<Root>::template override<who_fn<Root, I>> o;
            (void)&o;
        }
    }
    inline static std::vector<int> kinds[3];
    template<int Root, int... I>
    static void kind_over() {
        ((kinds[Root].push_back(I), kind_over1<Root, I>()), ...);
    }
    template<int Root, int I>
    static void kind_over1() {
        static typename kind<Root>::template override<kind_fn<Root, I>> o;
        (void)&o;
    }
    inline static std::vector<std::pair<int, int>> meets;
    template<int I, int J_>
    static void meet_over() {
        meets.push_back({I, J_});
        static typename meet::template override<meet_fn<I, J_>> o;
        (void)&o;
    }

    static void register_all() {
        using seq = std::make_integer_sequence<int, NCLS>;
        who_over<A>(seq());
        who_over<A2>(seq());
        who_over<A3>(seq());
        kind_over<A, A, C, M2, J, M3>();
        kind_over<A2, A2, P, J, K>();
        kind_over<A3, A3, L, Q>();
        meet_over<A, A2>();
        meet_over<B, A2>();
        meet_over<A, M2>();
        meet_over<B, M2>();
        meet_over<M2, A2>();
        meet_over<M2, M2>();
        meet_over<C, J>();
        meet_over<L, L>();
        meet_over<A, J>();
        meet_over<B, J>();
        meet_over<J, J>();
        meet_over<M2, J>();
        meet_over<J, M2>();
    }

    // The most specific class of `list` that `cls` is.
    static int best(const std::vector<int>& list, int cls) {
        int r = -1;
        for (int k : list)
            if (isa(cls, k) && (r < 0 || isa(k, r)))
                r = k;
        return r;
    }
    // (-1: not unique)
    static int best2(int a, int b) {
        int r = -1, n = 0;
        for (auto [i, j] : meets) {
            if (!isa(a, i) || !isa(b, j))
                continue;
            bool dominated = false;
            for (auto [k, l] : meets)
                if ((k != i || l != j) && isa(a, k) && isa(b, l) &&
                    isa(k, i) && isa(l, j))
                    dominated = true;
            if (!dominated) {
                r = i * NCLS + j;
                ++n;
            }
        }
        return n == 1 ? r : -1;
    }

    static std::string show(int x) {
        return cls_name(x);
    }

    // Checks all the ways to dispatch on `x`, an object whose dynamic class
    // is I at this time.
    template<int I, class X>
    static void check_object(X& x, const char* when) {
        check_root<I, A>(x, when);
        check_root<I, A2>(x, when);
        check_root<I, A3>(x, when);
        if constexpr (Polymorphic) {
            bom::virtual_ptr<X, R> p(x);
            if (p.vptr() != R::template static_vptr<X>)
                complain(std::string(when) + ": a virtual_ptr to a " + show(I) +
                         " has another v-table pointer");
        }
    }
    template<int I, int Root, class X>
    static void check_root(X& x, const char* when) {
        if constexpr (std::is_base_of_v<T<Root>, X>) {
            T<Root>& r = x;
            arg = nullptr;
            int got = who<Root>::fn(r);
            if (got != I)
                complain(std::string(when) + ": a " + show(I) +
                         " dispatched as a " + show(got) + " by its base " +
                         show(Root));
            else if (arg != static_cast<const void*>(&x))
                complain(std::string(when) + ": wrong argument address");
            arg = nullptr;
            int k = best(kinds[Root], I);
            got = kind<Root>::fn(I, make_ptr(r));
            if (got != k)
                complain(std::string(when) + ": expected the overrider for " +
                         show(k) + ", " + show(got) + " called for a " + show(I) +
                         ", virtual_ptr to its base " + show(Root));
            // from a virtual_ptr to the class itself
            auto p = bom::final_virtual_ptr<R>(x);
            if constexpr (Polymorphic)
                got = kind<Root>::fn(I, p);
            else
                got = kind<Root>::fn(I, p.get());
            if (got != k)
                complain(std::string(when) + ": expected the overrider for " +
                         show(k) + ", " + show(got) + " called for a " + show(I) +
                         ", from virtual_ptr");
            if (!p.vptr() || boost_openmethod_vptr(r, static_cast<R*>(nullptr)) != p.vptr())
                complain(std::string(when) + ": the v-table pointer of base " +
                         show(Root) + " of a " + show(I) + " differs");
        }
    }
};

struct Slot {
    int cls = -1;
    void* p = nullptr;
    std::array<int, 3> data{};
};

template<class F>
struct Impl : Machine {
    using R = typename F::Reg;
    static constexpr bool indirect = R::has_indirect_vptr;
    static constexpr bool checks = R::has_runtime_checks && R::has_error_handler;
    template<int I>
    using T = typename F::template T<I>;

    const char* name_;
    bool ready = false;
    Slot slots[6];
    struct Vec {
        std::vector<std::array<int, 3>> data;
    };
    std::vector<std::string> log;
    int serial = 0;

    explicit Impl(const char* n) : name_(n) {
        F::register_all();
    }
    const char* name() const override {
        return name_;
    }
    bool can_misuse() const override {
        return checks;
    }

    // One entry per pair (class, class it derives from).
    struct Ops {
        void* (*make)(int) = nullptr;           // I
        void* (*make_array)(int, int) = nullptr;
        void (*destroy)(void*) = nullptr;
        void (*check)(void*) = nullptr;
        std::array<int, 3> (*get)(void*) = nullptr;
        void (*vec)(Impl&, pbt::Ctx&, void*) = nullptr;
        void (*arr)(Impl&, pbt::Ctx&) = nullptr;
        bool (*misuse)(Impl&, void*, int) = nullptr;
    } ops[NCLS];
    struct Ops2 {
        void* (*copy)(void*) = nullptr;         // new T<J>(T<I>&)
        void* (*move)(void*) = nullptr;
        void (*assign)(void* to, void* from) = nullptr; // T<J> := (T<J>&) T<I>
        void (*massign)(void* to, void* from) = nullptr;
        void (*swap)(void*, void*) = nullptr;
        void* (*up)(void*) = nullptr;
        std::array<int, 3> (*slice)(void*) = nullptr;
    } ops2[NCLS][NCLS];

    template<std::size_t... I>
    void fill(std::index_sequence<I...>) {
        (fill1<I>(), ...);
    }
    template<std::size_t... IJ>
    void fill2(std::index_sequence<IJ...>) {
        (fill21<int(IJ / NCLS), int(IJ % NCLS)>(), ...);
    }
    template<int I>
    void fill1() {
        using X = T<I>;
        auto& o = ops[I];
        o.make = [](int v) -> void* {
            std::unique_ptr<X> p(new X);
            F::set(*p, v);
            return p.release();
        };
        o.destroy = [](void* p) { delete static_cast<X*>(p); };
        o.check = [](void* p) {
            F::template check_object<I>(*static_cast<X*>(p), "afterwards");
        };
        o.get = [](void* p) { return F::get(*static_cast<X*>(p)); };
        o.vec = [](Impl& m, pbt::Ctx& c, void* p) {
            m.template vector_ops<X, I>(c, *static_cast<X*>(p));
        };
        o.arr = [](Impl& m, pbt::Ctx& c) { m.template array_ops<X, I>(c); };
        if constexpr (checks)
            o.misuse = [](Impl& m, void* p, int how) {
                return m.template misuse_ops<X, I>(*static_cast<X*>(p), how);
            };
    }
    template<int I, int J_>
    void fill21() {
        if constexpr (F::template derives<I, J_>) {
            using X = T<I>;
            using Y = T<J_>;
            auto& o = ops2[I][J_];
            o.copy = [](void* p) -> void* { return new Y(*static_cast<const X*>(p)); };
            o.move = [](void* p) -> void* {
                return new Y(std::move(*static_cast<X*>(p)));
            };
            o.assign = [](void* to, void* from) {
                *static_cast<Y*>(to) = *static_cast<const X*>(from);
            };
            o.massign = [](void* to, void* from) {
                *static_cast<Y*>(to) = std::move(*static_cast<X*>(from));
            };
            o.swap = [](void* a, void* b) {
                using std::swap;
                swap(*static_cast<Y*>(a), *static_cast<Y*>(b));
            };
            o.up = [](void* p) -> void* { return static_cast<Y*>(static_cast<X*>(p)); };
            o.slice = [](void* p) {
                return F::get(static_cast<Y&>(*static_cast<X*>(p)));
            };
        }
    }

    void note(const std::string& s) {
        log.push_back(s);
        world.where = s;
    }

    // Values in vectors: construction, relocation, insertion, erasure, sorting.
    template<class X, int I>
    void vector_ops(pbt::Ctx& c, X& from) {
        std::vector<X> v;
        std::vector<std::array<int, 3>> m;
        int n = c.t.range(1, 7);
        auto check = [&](const char* what) {
            if (v.size() != m.size()) {
                complain("vector size");
                return;
            }
            for (std::size_t i = 0; i < v.size(); ++i) {
                F::template check_object<I>(v[i], what);
                if (F::get(v[i]) != m[i])
                    complain(std::string(what) + ": data not carried over");
            }
        };
        for (int i = 0; i < n; ++i) {
            switch (c.t.u(7)) {
            case 0:
                v.push_back(from);
                m.push_back(F::get(from));
                break;
            case 1: {
                v.emplace_back();
                F::set(v.back(), ++serial);
                m.push_back(F::get(v.back()));
                break;
            }
            case 2:
                v.insert(v.begin(), from);
                m.insert(m.begin(), F::get(from));
                break;
            case 3:
                if (!v.empty()) {
                    auto k = c.t.u(uint32_t(v.size()));
                    v.erase(v.begin() + k);
                    m.erase(m.begin() + k);
                }
                break;
            case 4:
                if (v.size() >= 2) {
                    std::reverse(v.begin(), v.end());
                    std::reverse(m.begin(), m.end());
                }
                break;
            case 5:
                if (v.size() >= 2) {
                    std::rotate(v.begin(), v.begin() + 1, v.end());
                    std::rotate(m.begin(), m.begin() + 1, m.end());
                }
                break;
            case 6:
                v.shrink_to_fit();
                v.reserve(v.capacity() + 1);
                break;
            }
            check("in a vector");
        }
        std::vector<X> w(v);
        v.swap(w);
        check("in a copied vector");
        w = v;
        v = std::move(w);
        check("in an assigned vector");
    }

    template<class X, int I>
    void array_ops(pbt::Ctx& c) {
        int n = c.t.range(1, 4);
        std::unique_ptr<X[]> p(new X[n]);
        for (int i = 0; i < n; ++i)
            F::template check_object<I>(p[i], "in an array");
        struct Holder {
            char c;
            X a, b;
        };
        Holder h{'x', p[0], X()};
        Holder k = h;
        k = h;
        F::template check_object<I>(k.a, "as a member");
        F::template check_object<I>(k.b, "as a member");
    }

    // Incorrect uses must be reported. True if it was, as it should.
    template<class X, int I>
    bool misuse_ops(X& x, int how) {
        constexpr int Root = F::template derives<I, A> ? A
            : F::template derives<I, A2>               ? A2
                                                       : A3;
        try {
            switch (how) {
            case 0:
                F::template who<Root>::fn(x);
                break;
            case 1: {
                auto p = F::make_ptr(x);
                if constexpr (!F::polymorphic)
                    F::template kind<Root>::fn(1, p);
                break;
            }
            case 2: {
                auto p = F::make_ptr(static_cast<T<Root>&>(x));
                if constexpr (!F::polymorphic)
                    F::template kind<Root>::fn(1, p);
                break;
            }
            case 3: {
                typename F::template ptr<T<Root>> p{};
                if constexpr (F::polymorphic)
                    p = x;
                else
                    F::template kind<Root>::fn(1, p = &x);
                break;
            }
            case 4:
                if constexpr (F::template derives<I, A> && F::template derives<I, A2>)
                    F::meet::fn(x, F::make_ptr(static_cast<T<A2>&>(x)));
                else
                    F::template kind<Root>::fn(0, F::make_ptr(static_cast<T<Root>&>(x)));
                break;
            case 5: {
                auto p = bom::final_virtual_ptr<R>(x);
                break;
            }
            }
        } catch (const bom::not_initialized&) {
            return true;
        }
        return false;
    }

    void check_slots() {
        for (auto& s : slots) {
            if (s.cls < 0)
                continue;
            ops[s.cls].check(s.p);
            if (ops[s.cls].get(s.p) != s.data)
                complain("wrong data in a " + F::show(s.cls));
        }
        // a method with two virtual arguments
        for (auto& a : slots)
            for (auto& b : slots) {
                if (a.cls < 0 || b.cls < 0 || !F::isa(a.cls, A) || !F::isa(b.cls, A2))
                    continue;
                int expected = F::best2(a.cls, b.cls);
                if (expected < 0)
                    continue;
                auto& x = *static_cast<T<A>*>(ops2[a.cls][A].up(a.p));
                auto& y = *static_cast<T<A2>*>(ops2[b.cls][A2].up(b.p));
                int got = F::meet::fn(x, F::make_ptr(y));
                if (got != expected)
                    complain("meet(" + F::show(a.cls) + ", " + F::show(b.cls) +
                             ") ran overrider (" + F::show(got / NCLS) + ", " +
                             F::show(got % NCLS) + "), expected (" +
                             F::show(expected / NCLS) + ", " +
                             F::show(expected % NCLS) + ")");
                if (F::arg != ops2[a.cls][got / NCLS].up(a.p) ||
                    F::arg2 != ops2[b.cls][got % NCLS].up(b.p))
                    complain("meet: wrong argument address");
            }
    }

    void destroy(Slot& s) {
        if (s.cls >= 0)
            ops[s.cls].destroy(s.p);
        s = Slot();
    }

    bool step(pbt::Ctx& c) {
        Slot& s = slots[c.t.u(6)];
        Slot& o = slots[c.t.u(6)];
        std::string ss = std::to_string(&s - slots), so = std::to_string(&o - slots);
        switch (c.t.weighted({30, 10, 14, 10, 14, 10, 10, 5, 3, 5, 6, 6})) {
        case 0: { // create
            int k = int(c.t.u(NCLS));
            destroy(s);
            note("slot " + ss + " = new " + F::show(k));
            s.p = ops[k].make(++serial);
            s.cls = k;
            s.data = ops[k].get(s.p);
            return true;
        }
        case 1:
            if (s.cls < 0)
                return false;
            note("destroy slot " + ss);
            destroy(s);
            return true;
        case 2: // copy, possibly sliced
        case 3: {
            if (o.cls < 0 || &s == &o)
                return false;
            int k = base_of(c, o.cls);
            bool move = c.t.chance(1, 3);
            destroy(s);
            note("slot " + ss + " = new " + F::show(k) + (move ? "(move(" : "(") +
                 F::show(o.cls) + " in slot " + so + ")");
            auto& f = ops2[o.cls][k];
            s.data = f.slice(o.p);
            s.p = move ? f.move(o.p) : f.copy(o.p);
            s.cls = k;
            if (move)
                o.data = ops[o.cls].get(o.p);
            return true;
        }
        case 4: // assign through a common base
        case 5:
        case 6: {
            if (s.cls < 0 || o.cls < 0)
                return false;
            std::vector<int> common;
            for (int k = 0; k < NCLS; ++k)
                if (F::isa(s.cls, k) && F::isa(o.cls, k))
                    common.push_back(k);
            if (common.empty())
                return false;
            int k = c.t.pick(common);
            int what = int(c.t.u(3));
            void* to = ops2[s.cls][k].up(s.p);
            void* from = ops2[o.cls][k].up(o.p);
            note((what == 0 ? "assign" : what == 1 ? "move-assign" : "swap") +
                 std::string(" the ") + F::show(k) + " parts of slots " + ss + " (" +
                 F::show(s.cls) + ") and " + so + " (" + F::show(o.cls) + ")");
            auto before_s = s.data, before_o = o.data;
            if (what == 0)
                ops2[k][k].assign(to, from);
            else if (what == 1)
                ops2[k][k].massign(to, from);
            else
                ops2[k][k].swap(to, from);
            if (&s != &o) {
                for (int r = 0; r < 3; ++r) {
                    if (F::isa(k, r)) {
                        s.data[r] = before_o[r];
                        if (what == 2)
                            o.data[r] = before_s[r];
                    }
                }
            }
            return true;
        }
        case 7:
            if (s.cls < 0)
                return false;
            note("vector of copies of slot " + ss + " (" + F::show(s.cls) + ")");
            ops[s.cls].vec(*this, c, s.p);
            return true;
        case 8: {
            int k = int(c.t.u(NCLS));
            note("array of " + F::show(k));
            ops[k].arr(*this, c);
            return true;
        }
        case 9: { // a constructor throws
            int k = int(c.t.u(NCLS));
            note("constructor of " + F::show(k) + " throws");
            world.countdown = int(c.t.u(4));
            void* p = nullptr;
            try {
                if (o.cls >= 0 && c.t.chance(1, 2)) {
                    k = base_of(c, o.cls);
                    p = ops2[o.cls][k].copy(o.p);
                } else {
                    p = ops[k].make(++serial);
                }
            } catch (const Boom&) {
            }
            world.countdown = -1;
            if (p)
                ops[k].destroy(p);
            return true;
        }
        case 10: { // initialize again
            if (!indirect) {
                for (auto& x : slots)
                    destroy(x);
            }
            note("initialize again");
            if (c.t.chance(1, 2)) {
                note("finalize and initialize again");
                bom::finalize<R>();
            }
            bom::initialize<R>();
            return true;
        }
        case 11: { // assignment of an object that exists only for that
            if (s.cls < 0)
                return false;
            int k = base_of(c, s.cls);
            note("assign a temporary " + F::show(k) + " to slot " + ss);
            void* p = ops[k].make(++serial);
            auto d = ops[k].get(p);
            ops2[k][k].massign(ops2[s.cls][k].up(s.p), p);
            ops[k].destroy(p);
            for (int r = 0; r < 3; ++r)
                if (F::isa(k, r))
                    s.data[r] = d[r];
            return true;
        }
        }
        return false;
    }

    int base_of(pbt::Ctx& c, int cls) {
        std::vector<int> bases{cls};
        for (int k = 0; k < NCLS; ++k)
            if (k != cls && F::isa(cls, k))
                bases.push_back(k);
        return c.t.pick(bases);
    }

    void run(pbt::Ctx& c, bool misuse) override {
        if (!ready) {
            ready = true;
            fill(std::make_index_sequence<NCLS>());
            fill2(std::make_index_sequence<NCLS * NCLS>());
        }
        world = World();
        log.clear();
        serial = 0;
        world.where = "initialize";
        if constexpr (checks) {
            // not initialized, or finalized by the previous case
            if (misuse)
                misuse_all(c, "before initialize");
        }
        bom::initialize<R>();
        int n = c.t.range(misuse ? 1 : 2, misuse ? 8 : 40);
        int effective = 0;
        for (int i = 0; i < n && world.err.empty(); ++i) {
            if (step(c))
                ++effective;
            check_slots();
        }
        if constexpr (checks) {
            if (misuse && world.err.empty()) {
                world.probing = false;
                bom::finalize<R>();
                misuse_all(c, "after finalize");
                bom::initialize<R>();
                world.probing = true;
            }
        }
        std::string failure = world.err;
        bool direct_restart = !indirect && misuse;
        if (direct_restart)
            world.probing = false; // their v-table pointers are stale
        for (auto& s : slots)
            destroy(s);
        if (failure.empty())
            failure = world.err;
        bom::finalize<R>();
        for (auto& s : log) {
            c.hash(std::hash<std::string>()(s));
            if (c.verbose)
                c.desc << s << "\n";
        }
        if (!failure.empty())
            c.fail(std::string(name_) + ": " + failure);
        c.label(std::string("registry ") + name_);
        c.label("objects created", world.created);
        c.label("calls in constructors and destructors", world.probes);
        c.nontrivial = effective >= (misuse ? 1 : 4);
    }

    void misuse_all(pbt::Ctx& c, const char* when) {
        bool saved = world.probing;
        world.probing = false;
        bool any = false;
        for (auto& s : slots)
            any = any || s.cls >= 0;
        Slot extra;
        extra.cls = int(c.t.u(NCLS));
        extra.p = ops[extra.cls].make(1);
        for (auto* s : {&slots[0], &slots[1], &slots[2], &extra}) {
            if (s->cls < 0)
                continue;
            for (int how = 0; how < 6; ++how) {
                c.label("incorrect uses");
                if (!ops[s->cls].misuse(*this, s->p, how))
                    complain(std::string(when) + ": use number " +
                             std::to_string(how) + " of a " + F::show(s->cls) +
                             " was not reported");
            }
        }
        ops[extra.cls].destroy(extra.p);
        world.probing = saved;
    }
};

} // namespace ip
