// A stateful model of virtual_ptr: every generated step constructs, assigns,
// moves, casts, resets, compares or calls through virtual_ptrs of many types,
// and all of them are compared with the model after every step.
#pragma once
#include "common.hpp"

#include <boost/mp11.hpp>
#include <boost/openmethod.hpp>
#include <boost/openmethod/initialize.hpp>
#include <boost/openmethod/interop/boost_intrusive_ptr.hpp>
#include <boost/openmethod/interop/std_shared_ptr.hpp>
#include <boost/openmethod/interop/std_unique_ptr.hpp>
#include <boost/openmethod/policies/static_rtti.hpp>
#include <boost/openmethod/policies/throw_error_handler.hpp>
#include <boost/openmethod/policies/vptr_map.hpp>

#include <array>
#include <functional>
#include <memory>
#include <optional>
#include <tuple>

namespace vp {

namespace bom = boost::openmethod;
namespace pol = boost::openmethod::policies;
namespace mp = boost::mp11;
using pbt::Ctx;

template<class...>
struct List {};

// --------------------------------------------------------------- hierarchies
template<int F>
struct Poly {
    static constexpr bool polymorphic = true;
    struct Pad {
        long pad[2] = {7, 7};
        virtual ~Pad() = default;
    };
    struct Base : Tracked {
        virtual ~Base() = default;
    };
    struct A : Pad, Base {
        long a = 1;
    };
    struct A2 : A {
        long a2 = 2;
    };
    struct V1 : virtual Base {
        long v1 = 3;
    };
    struct V2 : Pad, virtual Base {
        long v2 = 4;
    };
    struct W : V1, V2 {
        long w = 5;
    };
    struct U : A { // never registered
    };
    using classes = mp::mp_list<Base, A, A2, V1, V2, W>;
};

template<int F>
struct NonPoly {
    static constexpr bool polymorphic = false;
    struct Pad {
        long pad[2] = {7, 7};
    };
    struct Base : Tracked {};
    struct A : Pad, Base {
        long a = 1;
    };
    struct A2 : A {
        long a2 = 2;
    };
    struct V1 : Base {
        long v1 = 3;
    };
    struct V2 : Pad, V1 {
        long v2 = 4;
    };
    struct W : Pad, V2 {
        long w = 5;
    };
    struct U : A {};
    using classes = mp::mp_list<Base, A, A2, V1, V2, W>;
};

// ------------------------------------------------------------- pointer kinds
struct Plain {
    static constexpr const char* name = "plain";
    static constexpr bool smart = false, copyable = true;
    template<class T>
    using ptr = T*;
    template<class T, class R>
    using vptr = bom::virtual_ptr<T, R>;
};
struct Shared {
    static constexpr const char* name = "shared";
    static constexpr bool smart = true, copyable = true;
    template<class T>
    using ptr = std::shared_ptr<T>;
    template<class T, class R>
    using vptr = bom::virtual_ptr<std::shared_ptr<T>, R>;
};
struct Unique {
    static constexpr const char* name = "unique";
    static constexpr bool smart = true, copyable = false;
    template<class T>
    using ptr = std::unique_ptr<T>;
    template<class T, class R>
    using vptr = bom::virtual_ptr<std::unique_ptr<T>, R>;
};
struct Intrusive {
    static constexpr const char* name = "intrusive";
    static constexpr bool smart = true, copyable = true;
    template<class T>
    using ptr = boost::intrusive_ptr<T>;
    template<class T, class R>
    using vptr = bom::virtual_ptr<boost::intrusive_ptr<T>, R>;
};

struct M {         // model of one pointer
    int obj = -1;  // index in world.objs, or null
    bool vp_any = false; // moved from by cast: v-table pointer unspecified
};

inline std::string str(int v) {
    return std::to_string(v);
}

template<class Fam, class R, bool Checks>
struct Impl : Machine {
    using Base = typename Fam::Base;
    using A = typename Fam::A;
    using A2 = typename Fam::A2;
    using V1 = typename Fam::V1;
    using V2 = typename Fam::V2;
    using W = typename Fam::W;
    using U = typename Fam::U;
    using Classes = typename Fam::classes;
    using AllClasses = mp::mp_push_back<Classes, U>;
    static constexpr bool indirect = R::has_indirect_vptr;
    static constexpr bool polymorphic = Fam::polymorphic;

    template<class T>
    static constexpr int idx = int(mp::mp_find<AllClasses, std::remove_cv_t<T>>::value);

    const char* name_;
    explicit Impl(const char* n) : name_(n) {
    }
    const char* name() const override {
        return name_;
    }

    // ------------------------------------------------------------ variables
    template<class K, class T>
    struct Var {
        using kind = K;
        using elem = T;
        using ptr = typename K::template ptr<T>;
        using vptr = typename K::template vptr<T, R>;
        static constexpr int N = 2;
        std::array<std::optional<vptr>, N> v;
        std::array<M, N> m;
        // raw owners (smart kinds) of the same type
        std::array<ptr, N> h;
        std::array<M, N> hm;
    };

    // no virtual destructor, no unique_ptr to a base
    using AllVars = std::tuple<
        Var<Plain, Base>, Var<Plain, const Base>, Var<Plain, A>, Var<Plain, V2>,
        Var<Plain, W>, Var<Shared, Base>, Var<Shared, const Base>,
        Var<Shared, A>, Var<Shared, V2>, Var<Unique, Base>, Var<Unique, A>,
        Var<Unique, V2>, Var<Intrusive, Base>, Var<Intrusive, A>,
        Var<Intrusive, V2>>;
    template<class V>
    using is_unique = std::is_same<typename V::kind, Unique>;
    using Vars = std::conditional_t<
        polymorphic, AllVars, mp::mp_remove_if<AllVars, is_unique>>;
    static constexpr std::size_t NV = std::tuple_size_v<Vars>;
    std::unique_ptr<Vars> vars;

    template<class F>
    void each(F f) {
        std::apply([&](auto&... x) { (f(x), ...); }, *vars);
    }

    // plain objects, owned by the harness
    struct Stack {
        int id;
        std::shared_ptr<void> keep;
        void* p[NC]; // as each class, or null
    };
    std::vector<Stack> stack;

    std::vector<std::string> log;
    void note(const std::string& s) {
        log.push_back(s);
    }

    // -------------------------------------------------------------- objects
    template<class D>
    static void describe_object(D* p) {
        Tracked* t = p;
        auto& r = world.objs[t->id];
        r.dyn = idx<D>;
        r.most_derived = p;
        r.del = [](void* q) { delete static_cast<D*>(q); };
        mp::mp_for_each<mp::mp_transform<mp::mp_identity, AllClasses>>(
            [&](auto I) {
                using C = typename decltype(I)::type;
                if constexpr (std::is_base_of_v<C, D>)
                    r.sub[idx<C>] = static_cast<C*>(p);
                else
                    r.sub[idx<C>] = nullptr;
            });
    }
    template<class D>
    static D* make() {
        auto p = new D;
        describe_object(p);
        return p;
    }

    // classes below T, T included
    template<class T>
    using Below = mp::mp_copy_if_q<
        Classes, mp::mp_bind_front<std::is_base_of, std::remove_cv_t<T>>>;

    // calls f with a D drawn below T
    template<class T, class F>
    static void with_class_below(Ctx& c, F f) {
        using L = Below<T>;
        std::size_t n = c.t.u(uint32_t(mp::mp_size<L>::value));
        mp::mp_with_index<mp::mp_size<L>::value>(
            n, [&](auto I) { f((mp::mp_at<L, decltype(I)>*)nullptr); });
    }

    template<class T>
    static const void* sub(int obj) {
        return obj < 0 ? nullptr : world.objs[obj].sub[idx<T>];
    }
    template<class T>
    static bool is_a(int obj) {
        return obj >= 0 && sub<T>(obj) != nullptr;
    }

    static bom::vptr_type expected_vptr(int obj) {
        if (obj < 0)
            return nullptr;
        bom::vptr_type v = nullptr;
        mp::mp_for_each<mp::mp_transform<mp::mp_identity, Classes>>(
            [&](auto I) {
                using C = typename decltype(I)::type;
                if (world.objs[obj].dyn == idx<C>)
                    v = R::template static_vptr<C>;
            });
        return v;
    }

    // -------------------------------------------------------------- methods
    struct id_ref;
    struct id_p;
    struct id_pc;
    struct id_s;
    struct id_sc;
    struct id_u;
    struct id_i;
    struct id_ic;
    struct id_pp;
    struct id_rs;
    struct id_rsc;
    struct id_ru;
    struct id_ri;
    template<class T>
    using VP = bom::virtual_ptr<T, R>;
    using sB = std::shared_ptr<Base>;
    using uB = std::unique_ptr<Base>;
    using iB = boost::intrusive_ptr<Base>;

    using m_ref = bom::method<id_ref, int(bom::virtual_<const Base&>), R>;
    using m_p = bom::method<id_p, int(VP<Base>), R>;
    using m_pc = bom::method<id_pc, int(const VP<Base>&), R>;
    using m_s = bom::method<id_s, int(VP<sB>), R>;
    using m_sc = bom::method<id_sc, int(const VP<sB>&), R>;
    using m_u = bom::method<id_u, int(VP<uB>), R>;
    using m_i = bom::method<id_i, int(VP<iB>), R>;
    using m_ic = bom::method<id_ic, int(const VP<iB>&), R>;
    using m_pp = bom::method<id_pp, int(VP<Base>, int, VP<Base>), R>;
    using m_rs = bom::method<id_rs, int(bom::virtual_<sB>), R>;
    using m_rsc = bom::method<id_rsc, int(bom::virtual_<const sB&>), R>;
    using m_ru = bom::method<id_ru, int(bom::virtual_<uB>), R>;
    using m_ri = bom::method<id_ri, int(bom::virtual_<iB>), R>;

    template<class C, class P>
    static int saw(int method, const P* p) {
        ++calls_seen;
        seen = Seen{};
        seen.method = method;
        seen.cls = idx<C>;
        seen.addr = p;
        return idx<C>;
    }
    template<class C, class P>
    static int saw_vp(int method, const P& p) {
        saw<C>(method, p.get());
        auto t = static_cast<const Tracked*>(p.get());
        seen.vptr_ok = p.vptr() == expected_vptr(t->id);
        return idx<C>;
    }

    // notes the number of owners at the beginning of an overrider
    struct Owners {
        long n;
        ~Owners() {
            seen.owners = n;
        }
    };
    // "keep": what an overrider does with an argument it owns
    static inline bool keep_arg;
    static inline std::shared_ptr<const void> kept_shared;

    template<class C>
    static int f_ref(const C& x) {
        return saw<C>(0, &x);
    }
    template<class C>
    static int f_p(VP<C> x) {
        return saw_vp<C>(1, x);
    }
    template<class C>
    static int f_pc(const VP<C>& x) {
        return saw_vp<C>(2, x);
    }
    template<class C>
    static int f_s(VP<std::shared_ptr<C>> x) {
        Owners set{x.pointer().use_count()};
        if (keep_arg)
            kept_shared = x.pointer();
        return saw_vp<C>(3, x);
    }
    template<class C>
    static int f_sc(const VP<std::shared_ptr<C>>& x) {
        Owners set{x.pointer().use_count()};
        if (keep_arg)
            kept_shared = x.pointer();
        return saw_vp<C>(4, x);
    }
    static inline uB kept_unique;
    template<class C>
    static int f_u(VP<std::unique_ptr<C>> x) {
        int r = saw_vp<C>(5, x);
        if (keep_arg) {
            // through a virtual_ptr to the base
            VP<uB> b(std::move(x));
            if (x.get() || x.vptr())
                complain("moved-from unique virtual_ptr is not null");
            kept_unique_vp.emplace(std::move(b));
        }
        return r;
    }
    static inline std::optional<VP<uB>> kept_unique_vp;
    template<class C>
    static int f_i(VP<boost::intrusive_ptr<C>> x) {
        Owners set{static_cast<const Tracked*>(x.get())->refs};
        return saw_vp<C>(6, x);
    }
    template<class C>
    static int f_ic(const VP<boost::intrusive_ptr<C>>& x) {
        Owners set{static_cast<const Tracked*>(x.get())->refs};
        return saw_vp<C>(7, x);
    }
    template<class C, class D>
    static int f_pp(VP<C> x, int, VP<D> y) {
        saw_vp<C>(8, x);
        auto first = seen;
        saw_vp<D>(8, y);
        --calls_seen;
        auto second = seen;
        seen = first;
        seen.cls2 = idx<D>;
        seen.addr2 = y.get();
        seen.vptr_ok = first.vptr_ok && second.vptr_ok;
        return 0;
    }
    template<class C>
    static int f_rs(std::shared_ptr<C> x) {
        Owners set{x.use_count()};
        if (keep_arg)
            kept_shared = x;
        return saw<C>(9, x.get());
    }
    template<class C>
    static int f_rsc(const std::shared_ptr<C>& x) {
        Owners set{x.use_count()};
        if (keep_arg)
            kept_shared = x;
        return saw<C>(10, x.get());
    }
    template<class C>
    static int f_ru(std::unique_ptr<C> x) {
        int r = saw<C>(11, x.get());
        if (keep_arg)
            kept_unique = std::move(x);
        return r;
    }
    template<class C>
    static int f_ri(boost::intrusive_ptr<C> x) {
        Owners set{static_cast<const Tracked*>(x.get())->refs};
        return saw<C>(12, x.get());
    }

    // The overriders: Base, A, V2, W.  V1 inherits Base's, A2 inherits A's.
    static int over(int dyn) {
        if (dyn == idx<W> && (polymorphic || true))
            return idx<W>;
        if (dyn == idx<A> || dyn == idx<A2>)
            return idx<A>;
        if (dyn == idx<V2>)
            return idx<V2>;
        return idx<Base>;
    }

    template<template<class...> class, class...>
    struct nop {};

    static void register_all() {
        // raw virtual_ parameters need a way to get a v-table pointer from
        // the object: polymorphic classes only
        if constexpr (polymorphic) {
            static typename m_ref::template override<
                f_ref<Base>, f_ref<A>, f_ref<V2>, f_ref<W>> o0;
            static typename m_rs::template override<
                f_rs<Base>, f_rs<A>, f_rs<V2>, f_rs<W>> o9;
            static typename m_rsc::template override<
                f_rsc<Base>, f_rsc<A>, f_rsc<V2>, f_rsc<W>> o10;
            static typename m_ru::template override<
                f_ru<Base>, f_ru<A>, f_ru<V2>, f_ru<W>> o11;
            static typename m_ri::template override<
                f_ri<Base>, f_ri<A>, f_ri<V2>, f_ri<W>> o12;
        }
        static typename m_p::template override<
            f_p<Base>, f_p<A>, f_p<V2>, f_p<W>> o1;
        static typename m_pc::template override<
            f_pc<Base>, f_pc<A>, f_pc<V2>, f_pc<W>> o2;
        static typename m_s::template override<
            f_s<Base>, f_s<A>, f_s<V2>, f_s<W>> o3;
        static typename m_sc::template override<
            f_sc<Base>, f_sc<A>, f_sc<V2>, f_sc<W>> o4;
        static typename m_u::template override<
            f_u<Base>, f_u<A>, f_u<V2>, f_u<W>> o5;
        static typename m_i::template override<
            f_i<Base>, f_i<A>, f_i<V2>, f_i<W>> o6;
        static typename m_ic::template override<
            f_ic<Base>, f_ic<A>, f_ic<V2>, f_ic<W>> o7;
        static typename m_pp::template override<
            f_pp<Base, Base>, f_pp<A, Base>, f_pp<Base, V2>, f_pp<A, V2>,
            f_pp<V2, V2>, f_pp<W, A>> o8;
        static bom::use_classes<Base, A, A2, V1, V2, W, R> classes;
        bom::initialize<R>();
    }
    static std::pair<int, int> over_pp(int d1, int d2) {
        auto a = [](int d) { return d == idx<A> || d == idx<A2>; };
        auto v = [](int d) { return d == idx<V2> || d == idx<W>; };
        if (d1 == idx<W> && a(d2))
            return {idx<W>, idx<A>};
        if (v(d1) && v(d2))
            return {idx<V2>, idx<V2>};
        if (a(d1) && v(d2))
            return {idx<A>, idx<V2>};
        if (a(d1))
            return {idx<A>, idx<Base>};
        if (v(d2))
            return {idx<Base>, idx<V2>};
        return {idx<Base>, idx<Base>};
    }

    // ------------------------------------------------------------ the steps
    using Op = std::function<void(Ctx&)>;
    struct Group {
        const char* name;
        int weight[3]; // C15, C17, C11
        std::vector<Op> ops;
    };
    std::vector<Group> groups;
    std::vector<Op> reinits; // when no other virtual_ptr is in use
    std::map<std::string, uint64_t> hits;
    bool mismatch_reported = false;
    std::vector<std::string> trait_errors;

    template<class V>
    static std::string tn() {
        static const char* cn[] = {"Base", "A", "A2", "V1", "V2", "W", "U"};
        return std::string(V::kind::name) + "<" +
            (std::is_const_v<typename V::elem> ? "const " : "") +
            cn[idx<typename V::elem>] + ">";
    }

    // moves that would lose const or go down are not conversions
    template<class To, class From>
    static constexpr bool converts = std::is_convertible_v<
        typename From::elem*, typename To::elem*>;

    template<class To, class From>
    static constexpr bool from_vp_copy = converts<To, From> &&
        (!To::kind::smart ||
         (std::is_same_v<typename To::kind, typename From::kind> &&
          To::kind::copyable));
    template<class To, class From>
    static constexpr bool from_vp_move = converts<To, From> &&
        (!To::kind::smart ||
         std::is_same_v<typename To::kind, typename From::kind>);

    template<class To, class From>
    void check_traits() {
        using T = typename To::vptr;
        using F = typename From::vptr;
        auto want = [&](const char* what, bool is, bool expected) {
            // boost::intrusive_ptr's assignment operator is not constrained
            if (is != expected &&
                !(is && std::is_same_v<typename To::kind, Intrusive> &&
                  std::string(what).find("assignment") != std::string::npos))
                trait_errors.push_back(
                    std::string(what) + " of " + tn<To>() + " from " +
                    tn<From>() + " is " + (is ? "" : "not ") + "allowed");
        };
        want("copy construction", std::is_constructible_v<T, const F&>,
             from_vp_copy<To, From>);
        want("copy construction", std::is_constructible_v<T, F&>,
             from_vp_copy<To, From>);
        want("move construction", std::is_constructible_v<T, F&&>,
             from_vp_move<To, From>);
        want("copy assignment", std::is_assignable_v<T&, const F&>,
             from_vp_copy<To, From>);
        want("copy assignment", std::is_assignable_v<T&, F&>,
             from_vp_copy<To, From>);
        want("move assignment", std::is_assignable_v<T&, F&&>,
             from_vp_move<To, From>);
        if constexpr (From::kind::smart && To::kind::smart) {
            using H = typename From::ptr;
            constexpr bool cp = polymorphic && from_vp_copy<To, From>;
            constexpr bool mv = polymorphic && from_vp_move<To, From>;
            want("construction from a const smart pointer",
                 std::is_constructible_v<T, const H&>, cp);
            want("construction from a smart pointer",
                 std::is_constructible_v<T, H&>, cp);
            want("construction from a smart pointer rvalue",
                 std::is_constructible_v<T, H&&>, mv);
            want("assignment from a smart pointer",
                 std::is_assignable_v<T&, const H&>, cp);
            want("assignment from a smart pointer rvalue",
                 std::is_assignable_v<T&, H&&>, mv);
        }
        if constexpr (!From::kind::smart && To::kind::smart) {
            want("construction from a plain pointer",
                 std::is_constructible_v<T, typename From::elem*>, false);
            want("construction from a reference",
                 std::is_constructible_v<T, typename From::elem&>, false);
        }
        if constexpr (!From::kind::smart && !To::kind::smart) {
            constexpr bool ok = polymorphic && converts<To, From>;
            want("construction from a plain pointer",
                 std::is_constructible_v<T, typename From::elem*>, ok);
            want("construction from a reference",
                 std::is_constructible_v<T, typename From::elem&>, ok);
            want("assignment from a plain pointer",
                 std::is_assignable_v<T&, typename From::elem*>, ok);
            want("assignment from a reference",
                 std::is_assignable_v<T&, typename From::elem&>, ok);
        }
    }

    template<class V>
    V& var() {
        return std::get<V>(*vars);
    }

    // gives a slot of a variable its new state
    template<class To>
    void set_model(int i, int obj) {
        auto& t = var<To>();
        t.m[i] = M{obj, false};
    }

    template<class To, class From>
    void add_pair() {
        check_traits<To, From>();
        auto& conv = group("convert");
        auto& casts = group("cast");
        constexpr bool same = std::is_same_v<To, From>;
        if constexpr (from_vp_copy<To, From>) {
            for (int how = 0; how < 4; ++how)
                conv.push_back([this, how](Ctx& c) {
                    int i = c.t.u(To::N), j = pick_slot<From>(c);
                    auto& t = var<To>();
                    auto& f = var<From>();
                    if (f.m[j].vp_any)
                        return;
                    note(tn<To>() + str(i) + (how & 1 ? " = " : " constructed from ") +
                         (how & 2 ? "const " : "") + tn<From>() + str(j));
                    auto& lv = *f.v[j];
                    const auto& clv = *f.v[j];
                    int obj = f.m[j].obj;
                    if (how == 0) {
                        typename To::vptr n(lv);
                        t.v[i].reset();
                        t.v[i].emplace(std::move(n));
                    } else if (how == 2) {
                        typename To::vptr n(clv);
                        t.v[i].reset();
                        t.v[i].emplace(std::move(n));
                    } else if (how == 1) {
                        *t.v[i] = lv;
                    } else {
                        *t.v[i] = clv;
                    }
                    t.m[i] = M{obj, false};
                });
        }
        if constexpr (from_vp_move<To, From>) {
            for (int how = 0; how < 2; ++how)
                conv.push_back([this, how](Ctx& c) {
                    int i = c.t.u(To::N), j = pick_slot<From>(c);
                    auto& t = var<To>();
                    auto& f = var<From>();
                    if (f.m[j].vp_any)
                        return;
                    note(tn<To>() + str(i) +
                         (how ? " move-assigned from " : " move-constructed from ") +
                         tn<From>() + str(j));
                    int obj = f.m[j].obj;
                    bool self = same && i == j;
                    if (how == 0) {
                        typename To::vptr n(std::move(*f.v[j]));
                        t.v[i].reset();
                        t.v[i].emplace(std::move(n));
                    } else {
                        *t.v[i] = std::move(*f.v[j]);
                    }
                    // moving to a smart pointer leaves null behind; a plain
                    // pointer only observes
                    if (To::kind::smart && !self)
                        f.m[j] = M{};
                    t.m[i] = M{obj, false};
                });
        }
        if constexpr (
            To::kind::smart && polymorphic && from_vp_move<To, From>) {
            auto& smart = group("smart");
            for (int how = 0; how < 6; ++how) {
                if (how < 4 && !from_vp_copy<To, From>)
                    continue;
                smart.push_back([this, how](Ctx& c) {
                    int i = c.t.u(To::N), j = pick_holder<From>(c);
                    auto& t = var<To>();
                    auto& f = var<From>();
                    static const char* hows[] = {
                        " constructed from ", " = ", " constructed from const ",
                        " = const ", " constructed from moved ", " = moved "};
                    note(tn<To>() + str(i) + hows[how] + "smart pointer " +
                         tn<From>() + str(j));
                    int obj = f.hm[j].obj;
                    if constexpr (from_vp_copy<To, From>) {
                        auto& lv = f.h[j];
                        const auto& clv = f.h[j];
                        if (how == 0) {
                            typename To::vptr n(lv);
                            t.v[i].reset();
                            t.v[i].emplace(std::move(n));
                        } else if (how == 1) {
                            *t.v[i] = lv;
                        } else if (how == 2) {
                            typename To::vptr n(clv);
                            t.v[i].reset();
                            t.v[i].emplace(std::move(n));
                        } else if (how == 3) {
                            *t.v[i] = clv;
                        }
                    }
                    if (how == 4) {
                        typename To::vptr n(std::move(f.h[j]));
                        t.v[i].reset();
                        t.v[i].emplace(std::move(n));
                    } else if (how == 5) {
                        *t.v[i] = std::move(f.h[j]);
                    }
                    if (how >= 4) {
                        if (f.h[j])
                            complain("smart pointer moved to a virtual_ptr is not null");
                        f.hm[j] = M{};
                    }
                    t.m[i] = M{obj, false};
                });
            }
        }
        // casts: same kind, related classes, Const kept
        using TE = typename To::elem;
        using FE = typename From::elem;
        constexpr bool related =
            std::is_base_of_v<std::remove_cv_t<TE>, std::remove_cv_t<FE>> ||
            std::is_base_of_v<std::remove_cv_t<FE>, std::remove_cv_t<TE>>;
        if constexpr (
            std::is_same_v<typename To::kind, typename From::kind> && related &&
            std::is_const_v<TE> == std::is_const_v<FE> &&
            (polymorphic || !needs_dynamic<TE, FE>)) {
            for (int how = 0; how < 3; ++how) {
                if (how < 2 && !From::kind::copyable)
                    continue;
                casts.push_back([this, how](Ctx& c) {
                    int i = c.t.u(To::N), j = pick_slot<From>(c);
                    auto& t = var<To>();
                    auto& f = var<From>();
                    if (f.m[j].vp_any || !is_a<TE>(f.m[j].obj))
                        return;
                    note(tn<To>() + str(i) + " = " + tn<From>() + str(j) +
                         (how == 0 ? ".cast()" : how == 1 ? " const .cast()"
                                                          : " moved .cast()"));
                    int obj = f.m[j].obj;
                    if constexpr (From::kind::copyable) {
                        if (how == 0) {
                            auto r = f.v[j]->template cast<TE>();
                            if (!std::is_same_v<decltype(r), typename To::vptr>)
                                complain("cast returns another type");
                            *t.v[i] = r;
                        } else if (how == 1) {
                            const auto& k = *f.v[j];
                            auto r = k.template cast<TE>();
                            *t.v[i] = r;
                        }
                    }
                    if (how == 2) {
                        auto r = std::move(*f.v[j]).template cast<TE>();
                        if (From::kind::smart) {
                            if (From::kind::copyable && f.v[j]->get()) {
                                // casting an rvalue may copy
                            } else {
                                if (f.v[j]->get())
                                    complain("unique_ptr cast from an rvalue "
                                             "still owns the object");
                                f.m[j] = M{-1, true};
                            }
                        }
                        *t.v[i] = std::move(r);
                    }
                    t.m[i] = M{obj, false};
                });
            }
        }
        // comparisons
        constexpr bool comparable = std::is_convertible_v<
                                        const FE*, const TE*> ||
            std::is_convertible_v<const TE*, const FE*>;
        if constexpr (
            comparable &&
            std::is_same_v<typename To::kind, typename From::kind>) {
            group("compare").push_back([this](Ctx& c) {
                int i = pick_slot<To>(c), j = pick_slot<From>(c);
                auto& t = var<To>();
                auto& f = var<From>();
                bool eq = *t.v[i] == *f.v[j], ne = *t.v[i] != *f.v[j];
                bool want = t.m[i].obj == f.m[j].obj;
                if (eq != want || ne != !want)
                    complain(
                        "comparison of " + tn<To>() + str(i) + " and " +
                        tn<From>() + str(j) + " is wrong");
            });
        }
    }

    template<class TE, class FE>
    struct static_castable {
        template<class T, class F>
        static auto test(int)
            -> decltype(static_cast<T*>(std::declval<F*>()), std::true_type{});
        template<class, class>
        static std::false_type test(...);
        static constexpr bool value = decltype(test<TE, FE>(0))::value;
    };
    template<class TE, class FE>
    static constexpr bool needs_dynamic = !static_castable<TE, FE>::value;

    // prefers a slot that is not null
    template<class V>
    int pick_slot(Ctx& c) {
        int j = c.t.u(V::N);
        if (var<V>().m[j].obj < 0 && c.t.chance(7, 8))
            for (int k = 0; k < V::N; ++k)
                if (var<V>().m[k].obj >= 0)
                    return k;
        return j;
    }
    template<class V>
    int pick_holder(Ctx& c) {
        int j = c.t.u(V::N);
        if (var<V>().hm[j].obj < 0 && c.t.chance(7, 8)) {
            fill_holder<V>(c, j);
        }
        return j;
    }
    template<class V>
    void fill_holder(Ctx& c, int j) {
        if constexpr (V::kind::smart) {
            with_class_below<typename V::elem>(c, [&](auto* d) {
                using D = std::remove_pointer_t<decltype(d)>;
                note(tn<V>() + " smart pointer " + str(j) + " = new object");
                D* p = make<D>();
                auto& v = var<V>();
                assign_owner<typename V::kind>(v.h[j], p);
                v.hm[j] = M{static_cast<Tracked*>(p)->id, false};
            });
        }
    }
    template<class K, class P, class D>
    static void assign_owner(P& h, D* p) {
        if constexpr (std::is_same_v<K, Shared>) {
            h = std::shared_ptr<D>(p);
        } else if constexpr (std::is_same_v<K, Unique>) {
            if constexpr (polymorphic)
                h = std::unique_ptr<D>(p);
            else // no virtual destructor: keep the exact class
                h.reset(p);
        } else {
            h = P(p);
        }
    }

    // An object takes the place of another one, of another class or from before
    // another initialization: assigning from it updates the v-table pointer.
    template<class V>
    void recycle(Ctx& c, bool reinit) {
        using K = typename V::kind;
        using T = typename V::elem;
        using VPtr = typename V::vptr;
        alignas(std::max_align_t) static unsigned char where[2048];
        with_class_below<T>(c, [&](auto* d1) {
            with_class_below<T>(c, [&](auto* d2) {
                using D1 = std::remove_pointer_t<decltype(d1)>;
                using D2 = std::remove_pointer_t<decltype(d2)>;
                static_assert(sizeof(D1) < 512 && sizeof(D2) < 512);
                auto offset = [](auto* p) {
                    const T* t = p;
                    return reinterpret_cast<const unsigned char*>(t) -
                        reinterpret_cast<unsigned char*>(p);
                };
                int how = int(c.t.u(6));
                note(std::string("an object replaces another one, ") +
                     (reinit ? "after initialize, " : "") + "then assign to " +
                     tn<V>() + ", way " + str(how));
                D1* o1 = new (where + 1024) D1;
                describe_object(o1);
                auto off1 = offset(o1);
                T* t1 = o1;
                auto pointer_to = [](T* t) {
                    if constexpr (K::smart)
                        return std::shared_ptr<T>(std::shared_ptr<void>(), t);
                    else
                        return t;
                };
                auto h1 = pointer_to(t1);
                VPtr p(h1);
                if (p.get() != t1 || p.vptr() != expected_vptr(o1->id))
                    complain(tn<V>() + " constructed from an object is wrong");
                o1->~D1();
                if (reinit)
                    bom::initialize<R>();
                // the subobject as T stays at the same address
                D2* o2 = new (where + 1024) D2;
                auto off2 = offset(o2);
                if (off1 != off2) {
                    o2->~D2();
                    world.objs.back().destroyed = 0;
                    world.objs.pop_back();
                    o2 = new (where + 1024 + off1 - off2) D2;
                }
                describe_object(o2);
                T* t2 = o2;
                if (t2 != t1)
                    complain("harness: addresses differ");
                auto h2 = pointer_to(t2);
                const auto& k2 = h2;
                if (how == 0) {
                    p = h2;
                } else if (how == 1) {
                    p = k2;
                } else if (how == 2) {
                    p = std::move(h2);
                } else if (how == 3) {
                    p = VPtr(h2);
                } else if (how == 4) {
                    VPtr q(h2);
                    const auto& kq = q;
                    p = kq;
                } else if constexpr (K::smart) {
                    VPtr q(h2);
                    p = q;
                } else {
                    p = *t2;
                }
                if (p.get() != t2)
                    complain(tn<V>() + " does not designate the object assigned");
                if (p.vptr() != expected_vptr(o2->id))
                    complain(
                        tn<V>() + " does not have the v-table pointer of the "
                        "object assigned, that took the place of another one");
                p = nullptr;
                o2->~D2();
            });
        });
    }

    template<class V>
    void add_var() {
        if constexpr (
            polymorphic &&
            (std::is_same_v<typename V::kind, Plain> ||
             std::is_same_v<typename V::kind, Shared>)) {
            group("objects").push_back([this](Ctx& c) { recycle<V>(c, false); });
            reinits.push_back([this](Ctx& c) { recycle<V>(c, true); });
        }
        mp::mp_for_each<mp::mp_transform<mp::mp_identity, mp::mp_rename<Vars, mp::mp_list>>>(
            [&](auto I) { add_pair<V, typename decltype(I)::type>(); });
        using T = typename V::elem;
        auto& reset = group("reset");
        reset.push_back([this](Ctx& c) {
            int i = c.t.u(V::N);
            note(tn<V>() + str(i) + " = nullptr");
            *var<V>().v[i] = nullptr;
            var<V>().m[i] = M{};
        });
        reset.push_back([this](Ctx& c) {
            int i = c.t.u(V::N);
            note(tn<V>() + str(i) + " constructed from nullptr");
            var<V>().v[i].reset();
            var<V>().v[i].emplace(nullptr);
            var<V>().m[i] = M{};
        });
        auto& compare = group("compare");
        compare.push_back([this](Ctx& c) {
            using std::swap;
            int i = 0, j = 1;
            auto& v = var<V>();
            note("swap " + tn<V>());
            swap(*v.v[i], *v.v[j]);
            swap(v.m[i], v.m[j]);
        });
        auto& make_final = group("final");
        if constexpr (V::kind::smart) {
            reset.push_back([this](Ctx& c) {
                int i = c.t.u(V::N);
                note(tn<V>() + str(i) + " default constructed");
                var<V>().v[i].reset();
                var<V>().v[i].emplace();
                var<V>().m[i] = M{};
            });
            reset.push_back([this](Ctx& c) {
                int i = c.t.u(V::N);
                note(tn<V>() + " smart pointer " + str(i) + " reset");
                var<V>().h[i] = nullptr;
                var<V>().hm[i] = M{};
            });
            for (int how = 0; how < 2; ++how)
                make_final.push_back([this, how](Ctx& c) {
                    int i = c.t.u(V::N);
                    with_class_below<T>(c, [&](auto* d) {
                        using D = std::remove_pointer_t<decltype(d)>;
                        using K = typename V::kind;
                        note(tn<V>() + str(i) + " = make virtual");
                        auto& v = var<V>();
                        auto use = [&](auto&& p) {
                            auto o = const_cast<std::remove_cv_t<D>*>(p.get());
                            describe_object(o);
                            if (p.vptr() != expected_vptr(o->id))
                                complain("make_*_virtual: wrong v-table pointer");
                            if (how)
                                *v.v[i] = std::move(p);
                            else {
                                v.v[i].reset();
                                v.v[i].emplace(std::move(p));
                            }
                            v.m[i] = M{static_cast<Tracked*>(o)->id, false};
                        };
                        if constexpr (std::is_same_v<K, Shared>)
                            use(bom::make_shared_virtual<D, R>());
                        else if constexpr (std::is_same_v<K, Unique>) {
                            if constexpr (
                                polymorphic ||
                                std::is_same_v<D, std::remove_cv_t<T>>)
                                use(bom::make_unique_virtual<D, R>());
                        } else
                            use(bom::make_boost_intrusive_virtual<D, R>());
                    });
                });
            // final, from an existing smart pointer whose class is exact
            make_final.push_back([this](Ctx& c) {
                int i = c.t.u(V::N);
                int j = pick_holder<V>(c);
                auto& v = var<V>();
                if (v.hm[j].obj < 0 || world.objs[v.hm[j].obj].dyn != idx<T>)
                    return;
                if constexpr (!std::is_const_v<T>) {
                    note(tn<V>() + str(i) + " = final(smart pointer)");
                    if constexpr (V::kind::copyable) {
                        typename V::ptr copy = v.h[j];
                        switch (c.t.u(3)) {
                        case 0:
                            *v.v[i] = bom::final_virtual_ptr<R>(std::move(copy));
                            break;
                        case 1: {
                            auto p = bom::final_virtual_ptr<R>(copy);
                            *v.v[i] = p;
                            if (copy.get() != v.h[j].get())
                                complain("final_virtual_ptr: moved from an lvalue");
                            break;
                        }
                        default: {
                            auto p = std::decay_t<decltype(*v.v[i])>::final(std::as_const(copy));
                            *v.v[i] = std::move(p);
                        }
                        }
                        v.m[i] = v.hm[j];
                    } else {
                        int obj = v.hm[j].obj;
                        *v.v[i] = bom::final_virtual_ptr<R>(std::move(v.h[j]));
                        v.hm[j] = M{};
                        v.m[i] = M{obj, false};
                    }
                }
            });
            add_smart_calls<V>();
        } else {
            auto& objects = group("objects");
            if constexpr (polymorphic) {
                for (int how = 0; how < 4; ++how)
                    objects.push_back([this, how](Ctx& c) {
                        int i = c.t.u(V::N);
                        int s = pick_object<T>(c);
                        static const char* hows[] = {
                            " constructed from reference", " = reference",
                            " constructed from pointer", " = pointer"};
                        auto& v = var<V>();
                        T& r = *static_cast<T*>(static_cast<std::remove_cv_t<T>*>(
                            stack[s].p[idx<T>]));
                        note(tn<V>() + str(i) + hows[how] + " to object " +
                             str(stack[s].id));
                        if (how == 0) {
                            v.v[i].reset();
                            v.v[i].emplace(r);
                        } else if (how == 1)
                            *v.v[i] = r;
                        else if (how == 2) {
                            v.v[i].reset();
                            v.v[i].emplace(&r);
                        } else
                            *v.v[i] = &r;
                        v.m[i] = M{stack[s].id, false};
                    });
                // from a reference to a derived class
                objects.push_back([this](Ctx& c) {
                    int i = c.t.u(V::N);
                    with_class_below<T>(c, [&](auto* d) {
                        using D = std::remove_pointer_t<decltype(d)>;
                        int s = pick_object<D>(c);
                        note(tn<V>() + str(i) + " = derived reference");
                        auto& v = var<V>();
                        *v.v[i] = *static_cast<D*>(stack[s].p[idx<D>]);
                        v.m[i] = M{stack[s].id, false};
                    });
                });
            }
            if constexpr (Checks && polymorphic && std::is_base_of_v<T, U>) {
                for (int how = 0; how < 3; ++how)
                    objects.push_back([this, how](Ctx& c) {
                        int i = c.t.u(V::N);
                        auto& v = var<V>();
                        note(tn<V>() + str(i) +
                             " = reference to an unregistered class");
                        static U* u = [] {
                            auto keep = std::move(world.objs);
                            auto p = new U;
                            world.objs = std::move(keep);
                            return p;
                        }();
                        T& r = *u;
                        bool thrown = false;
                        try {
                            if (how == 0)
                                *v.v[i] = r;
                            else if (how == 1)
                                *v.v[i] = &r;
                            else
                                typename V::vptr x(r);
                        } catch (bom::missing_class& e) {
                            thrown = true;
                        }
                        if (!thrown)
                            complain("object of an unregistered class accepted");
                    });
            }
            // final
            if constexpr (!std::is_const_v<T>)
                make_final.push_back([this](Ctx& c) {
                    int i = c.t.u(V::N);
                    with_class_below<T>(c, [&](auto* d) {
                        using D = std::remove_pointer_t<decltype(d)>;
                        int s = exact_object<D>(c);
                        note(tn<V>() + str(i) + " = final object " +
                             str(stack[s].id));
                        auto& v = var<V>();
                        auto& o = *static_cast<D*>(stack[s].p[idx<D>]);
                        if (c.t.chance(1, 2))
                            *v.v[i] = bom::final_virtual_ptr<R>(o);
                        else
                            *v.v[i] = VP<D>::final(o);
                        v.m[i] = M{stack[s].id, false};
                    });
                });
            add_plain_calls<V>();
        }
        if constexpr (Checks && polymorphic && !std::is_const_v<T>)
            add_mistakes<V>();
        // access
        compare.push_back([this](Ctx& c) {
            int i = pick_slot<V>(c);
            auto& v = var<V>();
            if (v.m[i].obj < 0)
                return;
            const auto& p = *v.v[i];
            if (&*p != v.v[i]->get() || p.operator->() != p.get())
                complain("operator* or operator-> disagrees with get()");
        });
    }

    // f must report an object of another class than T to a final construct
    template<class T, class F>
    void expect_final_error(int obj, F f) {
        bool thrown = false;
        try {
            f();
        } catch (bom::final_error& e) {
            thrown = true;
            bom::type_id dyn = nullptr;
            mp::mp_for_each<mp::mp_transform<mp::mp_identity, AllClasses>>(
                [&](auto I) {
                    using C = typename decltype(I)::type;
                    if (world.objs[obj].dyn == idx<C>)
                        dyn = &typeid(C);
                });
            if (e.static_type != &typeid(T) || e.dynamic_type != dyn)
                complain("final_error has other types");
        }
        if (!thrown)
            complain("final construct of an object of another class accepted");
    }
    // f must report the unregistered class
    template<class F>
    void expect_missing_class(F f) {
        bool thrown = false;
        calls_seen = 0;
        try {
            f();
        } catch (bom::missing_class& e) {
            thrown = true;
            if (e.type != &typeid(U))
                complain("missing_class has another type");
        }
        if (!thrown)
            complain("object of an unregistered class accepted");
        if (calls_seen)
            complain("an overrider was called for an unregistered class");
    }

    // Incorrect uses are reported, and change nothing.
    template<class V>
    void add_mistakes() {
        using T = typename V::elem;
        using K = typename V::kind;
        auto& mistakes = group("mistakes");
        mistakes.push_back([this](Ctx& c) {
            int i = c.t.u(V::N), how = int(c.t.u(4));
            auto& v = var<V>();
            if constexpr (K::smart) {
                int j = pick_holder<V>(c);
                int obj = v.hm[j].obj;
                if (obj < 0 || world.objs[obj].dyn == idx<T>)
                    return;
                note(tn<V>() + str(i) + " = final(smart pointer to a derived class)");
                expect_final_error<T>(obj, [&] {
                    if (how == 0)
                        *v.v[i] = bom::final_virtual_ptr<R>(std::move(v.h[j]));
                    else if (how == 1)
                        *v.v[i] = V::vptr::final(std::move(v.h[j]));
                    else if constexpr (K::copyable) {
                        if (how == 2)
                            *v.v[i] = bom::final_virtual_ptr<R>(v.h[j]);
                        else
                            *v.v[i] = bom::final_virtual_ptr<R>(std::as_const(v.h[j]));
                    } else
                        *v.v[i] = bom::final_virtual_ptr<R>(std::move(v.h[j]));
                });
            } else {
                int s = pick_object<T>(c);
                int obj = stack[s].id;
                if (world.objs[obj].dyn == idx<T>)
                    return;
                note(tn<V>() + str(i) + " = final(object of a derived class)");
                T& r = *static_cast<T*>(stack[s].p[idx<T>]);
                expect_final_error<T>(obj, [&] {
                    if (how < 2)
                        *v.v[i] = bom::final_virtual_ptr<R>(r);
                    else
                        *v.v[i] = V::vptr::final(r);
                });
            }
        });
        if constexpr (K::smart && std::is_base_of_v<T, U>) {
            mistakes.push_back([this](Ctx& c) {
                int i = c.t.u(V::N), how = int(c.t.u(6));
                auto& v = var<V>();
                note(tn<V>() + str(i) + " = smart pointer to an unregistered class");
                typename V::ptr h;
                U* u = make<U>();
                assign_owner<K>(h, u);
                const T* raw = h.get();
                expect_missing_class([&] {
                    if (how == 0)
                        *v.v[i] = std::move(h);
                    else if (how == 1)
                        typename V::vptr x(std::move(h));
                    else if constexpr (K::copyable) {
                        if (how == 2)
                            *v.v[i] = h;
                        else if (how == 3)
                            *v.v[i] = std::as_const(h);
                        else if (how == 4)
                            typename V::vptr x(h);
                        else if constexpr (std::is_same_v<T, Base>) {
                            if constexpr (std::is_same_v<K, Shared>)
                                c.t.chance(1, 2) ? m_rs::fn(h) : m_rsc::fn(h);
                            else
                                m_ri::fn(h);
                        } else
                            typename V::vptr x(std::as_const(h));
                    } else
                        *v.v[i] = std::move(h);
                });
                if (h.get() != raw)
                    complain("a smart pointer that was rejected was moved from");
            });
        }
    }

    template<class T>
    int pick_object(Ctx& c) { // an object that is a T
        std::vector<int> ok;
        for (std::size_t i = 0; i < stack.size(); ++i)
            if (stack[i].p[idx<T>])
                ok.push_back(int(i));
        if (!ok.empty() && c.t.chance(3, 4))
            return c.t.pick(ok);
        int r = -1;
        with_class_below<T>(c, [&](auto* d) {
            r = new_object<std::remove_pointer_t<decltype(d)>>();
        });
        return r;
    }
    template<class D>
    int exact_object(Ctx& c) {
        for (std::size_t i = 0; i < stack.size(); ++i)
            if (world.objs[stack[i].id].dyn == idx<D> && c.t.chance(1, 2))
                return int(i);
        return new_object<D>();
    }
    template<class D>
    int new_object() {
        auto p = std::make_shared<D>();
        describe_object(p.get());
        Stack s;
        s.id = static_cast<Tracked*>(p.get())->id;
        world.objs[s.id].stack = true;
        s.keep = p;
        for (int i = 0; i < NC; ++i)
            s.p[i] = const_cast<void*>(world.objs[s.id].sub[i]);
        stack.push_back(s);
        return int(stack.size()) - 1;
    }

    // ---------------------------------------------------------------- calls
    void before_call() {
        calls_seen = 0;
        seen = Seen{};
        owners_before = -1;
    }
    void after_call(int method, int obj, int ret) {
        if (calls_seen != 1) {
            complain("expected one overrider call, got " + str(calls_seen));
            return;
        }
        int o = over(world.objs[obj].dyn);
        if (seen.method != method || seen.cls != o || ret != o)
            complain("method " + str(method) + ": overrider for class " +
                     str(seen.cls) + " called instead of " + str(o));
        if (seen.addr != world.objs[obj].sub[o])
            complain("method " + str(method) + ": wrong object address");
        if (!seen.vptr_ok)
            complain("method " + str(method) +
                     ": the overrider's virtual_ptr has a wrong v-table pointer");
        // Smart pointers are cast by copy before C++20, and always if intrusive.
        bool shared = method == 3 || method == 9;
        bool by_ref = method == 4 || method == 7 || method == 10;
        long more = by_ref ? 2 : copied + (shared && __cplusplus >= 202002L ? 0 : 1);
        if (owners_before >= 0 && seen.owners > owners_before + more)
            complain("method " + str(method) + ": the object has " +
                     str(seen.owners) + " owners in the overrider, " +
                     str(owners_before) + " before the call");
    }

    template<class V>
    void add_plain_calls() {
        auto& calls = group("calls");
        if constexpr (!std::is_const_v<typename V::elem>) {
            for (int how = 0; how < 2; ++how)
                calls.push_back([this, how](Ctx& c) {
                    auto& v = var<V>();
                    int i = pick_slot<V>(c);
                    if (v.m[i].obj < 0)
                        return;
                    note("call with " + tn<V>() + str(i));
                    before_call();
                    int obj = v.m[i].obj;
                    if (how == 0)
                        after_call(1, obj, m_p::fn(*v.v[i]));
                    else
                        after_call(2, obj, m_pc::fn(*v.v[i]));
                });
            calls.push_back([this](Ctx& c) {
                auto& v = var<V>();
                auto& w = var<Var<Plain, Base>>();
                int i = pick_slot<V>(c), j = pick_slot<Var<Plain, Base>>(c);
                if (v.m[i].obj < 0 || w.m[j].obj < 0)
                    return;
                note("call with " + tn<V>() + str(i) + " and plain<Base>" + str(j));
                bool swap = c.t.chance(1, 2);
                before_call();
                int o1 = v.m[i].obj, o2 = w.m[j].obj;
                if (swap) {
                    std::swap(o1, o2);
                    m_pp::fn(*w.v[j], 42, *v.v[i]);
                } else
                    m_pp::fn(*v.v[i], 42, *w.v[j]);
                auto want = over_pp(world.objs[o1].dyn, world.objs[o2].dyn);
                if (calls_seen != 1 || seen.cls != want.first ||
                    seen.cls2 != want.second || !seen.vptr_ok ||
                    seen.addr != world.objs[o1].sub[want.first] ||
                    seen.addr2 != world.objs[o2].sub[want.second])
                    complain("call with two virtual_ptrs: wrong overrider or objects");
            });
        }
        if constexpr (polymorphic)
            calls.push_back([this](Ctx& c) {
                auto& v = var<V>();
                int i = pick_slot<V>(c);
                if (v.m[i].obj < 0)
                    return;
                note("call with *" + tn<V>() + str(i));
                before_call();
                after_call(0, v.m[i].obj, m_ref::fn(**v.v[i]));
            });
    }

    // Overriders that keep their argument make the object outlive the call.
    // before a call that copies or moves p
    template<class P>
    void count_owners(const P& p, bool copy) {
        copied = copy;
        if constexpr (std::is_same_v<P, std::shared_ptr<typename P::element_type>>)
            owners_before = p.use_count();
        else if constexpr (!std::is_same_v<P, std::unique_ptr<typename P::element_type>>)
            owners_before = static_cast<const Tracked*>(p.get())->refs;
    }
    bool copied = false;
    long owners_before = -1;
    void settle(int obj) {
        kept_model = -1;
        if (keep_arg) {
            kept_model = obj;
            if (world.objs[obj].destroyed)
                complain("object kept by an overrider was destroyed");
        }
    }
    int kept_model = -1;
    void drop_kept() {
        kept_shared.reset();
        kept_unique.reset();
        kept_unique_vp.reset();
        kept_model = -1;
        keep_arg = false;
    }

    template<class V>
    void add_smart_calls() {
        auto& calls = group("smart calls");
        using T = typename V::elem;
        using K = typename V::kind;
        if constexpr (std::is_const_v<T>)
            return;
        else {
            // through a plain virtual_ptr
            calls.push_back([this](Ctx& c) {
                auto& v = var<V>();
                int i = pick_slot<V>(c);
                if (v.m[i].obj < 0)
                    return;
                note("call with plain copy of " + tn<V>() + str(i));
                before_call();
                after_call(1, v.m[i].obj, m_p::fn(*v.v[i]));
            });
            constexpr int by_value =
                std::is_same_v<K, Shared> ? 3 : std::is_same_v<K, Unique> ? 5 : 6;
            for (int how = 0; how < 2; ++how) { // copy, move
                if (how == 0 && !K::copyable)
                    continue;
                calls.push_back([this, how](Ctx& c) {
                    auto& v = var<V>();
                    int i = pick_slot<V>(c);
                    int obj = v.m[i].obj;
                    if (obj < 0)
                        return;
                    keep_arg = !std::is_same_v<K, Intrusive> && c.t.chance(1, 2);
                    note(std::string("call with ") + (how ? "moved " : "") +
                         tn<V>() + str(i));
                    before_call();
                    count_owners(v.v[i]->pointer(), !how);
                    int r = -1;
                    if constexpr (std::is_same_v<K, Shared>) {
                        r = how ? m_s::fn(std::move(*v.v[i])) : m_s::fn(*v.v[i]);
                    } else if constexpr (std::is_same_v<K, Unique>) {
                        r = m_u::fn(std::move(*v.v[i]));
                    } else {
                        r = how ? m_i::fn(std::move(*v.v[i])) : m_i::fn(*v.v[i]);
                    }
                    after_call(by_value, obj, r);
                    if (how)
                        v.m[i] = M{};
                    settle(obj);
                });
            }
            if constexpr (K::copyable)
                calls.push_back([this](Ctx& c) {
                    auto& v = var<V>();
                    int i = pick_slot<V>(c);
                    int obj = v.m[i].obj;
                    if (obj < 0)
                        return;
                    keep_arg = std::is_same_v<K, Shared> && c.t.chance(1, 2);
                    note("call with const& " + tn<V>() + str(i));
                    before_call();
                    count_owners(v.v[i]->pointer(), true);
                    int r;
                    if constexpr (std::is_same_v<K, Shared>)
                        r = m_sc::fn(*v.v[i]);
                    else
                        r = m_ic::fn(*v.v[i]);
                    after_call(std::is_same_v<K, Shared> ? 4 : 7, obj, r);
                    settle(obj);
                });
            if constexpr (polymorphic && std::is_same_v<T, Base>) {
                for (int how = 0; how < 3; ++how) {
                    if (how != 1 && !K::copyable)
                        continue;
                    if (how == 2 && !std::is_same_v<K, Shared>)
                        continue;
                    calls.push_back([this, how](Ctx& c) {
                        auto& v = var<V>();
                        int j = pick_holder<V>(c);
                        int obj = v.hm[j].obj;
                        if (obj < 0)
                            return;
                        keep_arg = !std::is_same_v<K, Intrusive> && c.t.chance(1, 2);
                        note(std::string("call with ") +
                             (how == 1       ? "moved "
                                  : how == 2 ? "const& "
                                             : "") +
                             "smart pointer " + tn<V>() + str(j));
                        before_call();
                        count_owners(v.h[j], how != 1);
                        int r = -1, m = -1;
                        if constexpr (std::is_same_v<K, Shared>) {
                            m = how == 2 ? 10 : 9;
                            r = how == 0 ? m_rs::fn(v.h[j])
                                : how == 1
                                ? m_rs::fn(std::move(v.h[j]))
                                : m_rsc::fn(v.h[j]);
                        } else if constexpr (std::is_same_v<K, Unique>) {
                            m = 11;
                            r = m_ru::fn(std::move(v.h[j]));
                        } else {
                            m = 12;
                            r = how == 0 ? m_ri::fn(v.h[j])
                                         : m_ri::fn(std::move(v.h[j]));
                        }
                        after_call(m, obj, r);
                        if (how == 1)
                            v.hm[j] = M{};
                        settle(obj);
                    });
                }
            }
        }
    }

    // ------------------------------------------------------------- checking
    void check() {
        // owners
        std::vector<int> owners(world.objs.size()), intr(world.objs.size()),
            shared(world.objs.size());
        each([&](auto& x) {
            using V = std::decay_t<decltype(x)>;
            using K = typename V::kind;
            if constexpr (K::smart)
                for (int i = 0; i < V::N; ++i)
                    for (int o : {x.m[i].obj, x.hm[i].obj})
                        if (o >= 0) {
                            ++owners[o];
                            if (std::is_same_v<K, Intrusive>)
                                ++intr[o];
                            if (std::is_same_v<K, Shared>)
                                ++shared[o];
                        }
        });
        if (kept_model >= 0) {
            ++owners[kept_model];
            ++shared[kept_model];
        }
        for (std::size_t o = 0; o < world.objs.size(); ++o) {
            bool alive = world.objs[o].stack || owners[o] > 0;
            if (world.objs[o].destroyed != (alive ? 0 : 1)) {
                complain(
                    "object " + str(int(o)) + " of class " +
                    str(world.objs[o].dyn) +
                    (alive ? " was destroyed but has owners"
                           : " has no owner left but was not destroyed"));
                return;
            }
        }
        // plain pointers to dead objects dangle: forget them
        each([&](auto& x) {
            using V = std::decay_t<decltype(x)>;
            for (int i = 0; i < V::N; ++i) {
                if (!V::kind::smart && x.m[i].obj >= 0 &&
                    world.objs[x.m[i].obj].destroyed) {
                    *x.v[i] = nullptr;
                    x.m[i] = M{};
                }
            }
        });
        each([&](auto& x) {
            using V = std::decay_t<decltype(x)>;
            using T = typename V::elem;
            for (int i = 0; i < V::N; ++i) {
                const void* want = sub<T>(x.m[i].obj);
                const void* got = x.v[i]->get();
                if (got != want) {
                    complain(
                        tn<V>() + str(i) + " designates " +
                        (got ? "another address" : "nothing") +
                        ", should designate " +
                        (want ? "object " + str(x.m[i].obj)
                              : std::string("nothing")));
                    return;
                }
                if (!x.m[i].vp_any &&
                    x.v[i]->vptr() != expected_vptr(x.m[i].obj)) {
                    complain(
                        tn<V>() + str(i) +
                        " does not have the v-table pointer of its object's "
                        "class" +
                        (x.m[i].obj < 0 ? " (should be null)" : ""));
                    return;
                }
                if constexpr (V::kind::smart) {
                    if (x.h[i] && x.hm[i].obj < 0) {
                        complain("smart pointer " + tn<V>() + str(i) +
                                 " is not null");
                        return;
                    }
                    if constexpr (std::is_same_v<typename V::kind, Shared>) {
                        if (x.m[i].obj >= 0 &&
                            x.v[i]->pointer().use_count() !=
                                shared[x.m[i].obj]) {
                            complain(
                                tn<V>() + str(i) + ": use count is " +
                                str(int(x.v[i]->pointer().use_count())) +
                                ", there are " + str(shared[x.m[i].obj]) +
                                " owners");
                            return;
                        }
                    }
                    if constexpr (std::is_same_v<typename V::kind, Intrusive>) {
                        if (x.m[i].obj >= 0 &&
                            static_cast<const Tracked*>(x.v[i]->get())->refs !=
                                intr[x.m[i].obj]) {
                            complain(tn<V>() + str(i) + ": wrong intrusive count");
                            return;
                        }
                    }
                }
            }
        });
    }

    std::vector<Op>& group(const char* n) {
        for (auto& g : groups)
            if (g.name == std::string(n))
                return g.ops;
        abort();
    }

    void prepare() {
        if (!groups.empty())
            return;
        groups = {{"objects", {18, 2, 10}, {}}, {"final", {10, 12, 10}, {}},
                  {"smart", {12, 18, 10}, {}},  {"convert", {30, 30, 5}, {}},
                  {"cast", {10, 12, 3}, {}},    {"reset", {5, 8, 3}, {}},
                  {"compare", {8, 3, 3}, {}},   {"calls", {10, 1, 5}, {}},
                  {"smart calls", {4, 20, 5}, {}}, {"mistakes", {4, 4, 40}, {}}};
        mp::mp_for_each<mp::mp_transform<mp::mp_identity, mp::mp_rename<Vars, mp::mp_list>>>(
            [&](auto I) { add_var<typename decltype(I)::type>(); });
        register_all();
    }

    // One lookup to make a virtual_ptr from an object, or to pass an object as
    // a virtual_<> argument; none for anything else.
    void check_lookups(Ctx& c, const std::string& group) {
        int least = 0, most = 0;
        if (group == "objects" || group == "mistakes")
            return;
        if (group == "smart")
            most = 1;
        if ((group == "calls" || group == "smart calls") && calls_seen == 1 &&
            (seen.method == 0 || seen.method >= 9))
            least = most = 1;
        c.label("operations measured");
        if (lookups < least || lookups > most)
            complain(
                "v-table pointers were looked up " + str(lookups) +
                " times, expected " + str(most));
    }

    void run(Ctx& c, int weights) override {
        prepare();
        if (!trait_errors.empty())
            c.fail(std::string(name_) + ": " + trait_errors[0]);
        world = World{};
        stack.clear();
        log.clear();
        drop_kept();
        vars = std::make_unique<Vars>();
        each([&](auto& x) {
            using V = std::decay_t<decltype(x)>;
            for (int i = 0; i < V::N; ++i) {
                x.v[i].emplace(nullptr);
                x.h[i] = nullptr;
            }
        });
        check();
        if (!reinits.empty() && c.t.chance(1, 8)) {
            reinits[c.t.u(uint32_t(reinits.size()))](c);
            c.label("assignments after another initialization");
            check();
        }
        int n = c.t.range(2, 60);
        std::vector<int> cum;
        int total = 0;
        for (auto& g : groups) {
            total += g.ops.empty() ? 0 : g.weight[weights];
            cum.push_back(total);
        }
        int effective = 0;
        std::string failure;
        for (int s = 0; s < n && failure.empty(); ++s) {
            if (indirect && c.t.chance(1, 12)) {
                note("initialize again");
                bom::initialize<R>();
            } else {
                int k = int(c.t.u(total));
                std::size_t g = 0;
                while (k >= cum[g])
                    ++g;
                auto& ops = groups[g].ops;
                auto before = log.size();
                lookups = calls_seen = 0;
                ops[c.t.u(uint32_t(ops.size()))](c);
                if (counted)
                    check_lookups(c, groups[g].name);
                if (log.size() != before) {
                    ++effective;
                    c.label(groups[g].name);
                }
            }
            check();
            if (keep_arg) {
                drop_kept();
                check();
            }
            failure = world.err;
        }
        for (auto& s : log) {
            c.hash(std::hash<std::string>()(s));
            if (c.verbose)
                c.desc << s << "\n";
        }
        int objects = int(world.objs.size());
        vars.reset();
        stack.clear();
        if (failure.empty()) {
            for (auto& r : world.objs)
                if (r.destroyed != 1)
                    failure = "an object outlives all its owners";
            if (!world.err.empty())
                failure = world.err;
        }
        if (!failure.empty())
            c.fail(std::string(name_) + ": " + failure + "\nafter: " +
                   (log.empty() ? "" : log.back()));
        c.label(std::string("registry ") + name_);
        c.label("objects created", objects);
        c.nontrivial = effective >= 5 && objects >= 2;
    }
};

} // namespace vp
