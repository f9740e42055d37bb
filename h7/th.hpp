// Calls from several threads: built with ThreadSanitizer.
#pragma once
#include "common.hpp"

#include <boost/openmethod.hpp>
#include <boost/openmethod/initialize.hpp>
#include <boost/openmethod/inplace_vptr.hpp>
#include <boost/openmethod/interop/std_shared_ptr.hpp>
#include <boost/openmethod/interop/std_unique_ptr.hpp>
#include <boost/openmethod/policies/default_error_handler.hpp>
#include <boost/openmethod/policies/fast_perfect_hash.hpp>
#include <boost/openmethod/policies/throw_error_handler.hpp>
#include <boost/openmethod/policies/vptr_map.hpp>
#include <boost/openmethod/policies/vptr_vector.hpp>

#include <atomic>
#include <memory>
#include <thread>

namespace bom = boost::openmethod;
namespace pol = boost::openmethod::policies;
using bom::type_id;

// An integer type id in the objects.
struct int_rtti : pol::rtti {
    template<class>
    struct fn : defaults {
        template<class T, class = void>
        struct id_of : std::integral_constant<int, -1> {};
        template<class T>
        struct id_of<T, std::void_t<decltype(T::static_id)>>
            : std::integral_constant<int, T::static_id> {};
        template<class T>
        static constexpr bool is_polymorphic = id_of<T>::value >= 0;
        template<class T>
        static auto static_type() -> type_id {
            static char other;
            if constexpr (id_of<T>::value >= 0)
                return type_id(std::uintptr_t(id_of<T>::value));
            else
                return &other;
        }
        template<class T>
        static auto dynamic_type(const T& x) -> type_id {
            if constexpr (id_of<T>::value >= 0)
                return type_id(std::uintptr_t(x.dynamic_id()));
            else
                return nullptr;
        }
        template<typename D, typename B>
        static auto dynamic_cast_ref(B&& x) -> D {
            return dynamic_cast<D>(x);
        }
    };
};

struct no_output : pol::output {
    struct stream {
        stream& operator<<(const char*) { return *this; }
        stream& operator<<(const std::string_view&) { return *this; }
        stream& operator<<(const void*) { return *this; }
        stream& operator<<(std::size_t) { return *this; }
    };
    template<class R>
    struct fn {
        inline static stream os;
    };
};

template<class... P>
using std_reg = bom::registry<pol::std_rtti, pol::fast_perfect_hash, P...>;

// ------------------------------------------------------------- classes
template<class R>
struct F {
    struct Root {
        virtual ~Root() = default;
        static constexpr int static_id = 0;
        virtual int dynamic_id() const { return static_id; }
        int value = 10;
    };
#define CLS(NAME, ID, ...)                                                     \
    struct NAME : __VA_ARGS__ {                                                \
        static constexpr int static_id = ID;                                   \
        int dynamic_id() const override { return ID; }                         \
        int mine = ID;                                                         \
    };
    CLS(A, 1, Root)
    CLS(B, 2, Root)
    CLS(C, 3, A)
    CLS(D, 4, C)
    CLS(V, 5, virtual Root)
    CLS(Z, 40, A) // registered in some phases only
    CLS(U, 90, A) // never registered

    // embedded v-table pointers
    struct IBase : bom::inplace_vptr_base<IBase, R> {
        static constexpr int static_id = 50;
        int dynamic_id() const { return static_id; }
        int value = 1;
    };
    struct IDer : IBase, bom::inplace_vptr_derived<IDer, IBase> {
        static constexpr int static_id = 51;
        int more = 2;
    };

    using vp = bom::virtual_ptr<Root, R>;
    template<class T>
    using sp = bom::virtual_ptr<std::shared_ptr<T>, R>;
    template<class T>
    using up = bom::virtual_ptr<std::unique_ptr<T>, R>;

    struct uni_id;
    using uni = bom::method<uni_id, long(vp, long), R>;
    static long uni_root(vp p, long x) { return x * 7 + p->value; }
    static long uni_a(bom::virtual_ptr<A, R> p, long x) {
        return x * 5 + p->mine + (uni::template has_next<uni_a>() ? uni::template next<uni_a>(p, x + 1) : 0);
    }
    static long uni_d(bom::virtual_ptr<D, R> p, long x) {
        return x * 3 + p->mine + (uni::template has_next<uni_d>() ? uni::template next<uni_d>(p, x + 2) : 0);
    }
    static long uni_v(bom::virtual_ptr<V, R> p, long x) {
        return x * 11 + p->mine + (uni::template has_next<uni_v>() ? uni::template next<uni_v>(p, x + 2) : 0);
    }

    struct ref_id;
    using ref = bom::method<ref_id, long(long, bom::virtual_<const Root&>), R>;
    static long ref_a(long x, const A& a) { return x + a.mine * 100; }
    static long ref_c(long x, const C& a) { return x + a.mine * 1000; }

    struct bin_id;
    using bin = bom::method<bin_id, long(bom::virtual_<Root&>, vp), R>;
    static long bin_ar(A& a, vp r) { return a.mine * 10000 + r->value; }
    static long bin_ra(Root& r, bom::virtual_ptr<A, R> a) { return r.value * 30000 + a->mine; }
    static long bin_cc(C& r, bom::virtual_ptr<C, R> a) { return r.mine * 50000 + a->mine; }

    struct tri_id;
    using tri = bom::method<tri_id, long(vp, int, bom::virtual_<Root*>, const vp&), R>;
    static long tri_0(vp, int k, Root*, const vp&) { return k; }
    static long tri_1(bom::virtual_ptr<A, R> a, int k, B* b, const vp& r) {
        return a->mine + 10 * b->mine + 100 * k + tri::template next<tri_1>(a, k, b, r);
    }
    static long tri_2(bom::virtual_ptr<C, R> a, int k, Root*, const vp&) { return a->mine + 1000 * k; }

    struct own_id;
    using own = bom::method<own_id, long(sp<Root>), R>;
    static long own_root(sp<Root> p) { return p->value + long(p.pointer().use_count() > 0); }
    static long own_c(sp<C> p) { return p->mine * 17 + own::template next<own_c>(p); }
    struct see_id;
    using see = bom::method<see_id, long(const sp<Root>&), R>;
    static long see_root(const sp<Root>& p) { return p->value; }
    static long see_a(const sp<A>& p) { return p->mine * 19 + see::template next<see_a>(p); }
    struct take_id;
    using take = bom::method<take_id, long(up<Root>), R>;
    static long take_root(up<Root> p) { return p->value; }
    static long take_d(up<D> p) { return p->mine * 23; }

    struct emb_id;
    using emb = bom::method<emb_id, long(bom::virtual_<const IBase&>), R>;
    static long emb_b(const IBase& p) { return p.value; }
    static long emb_d(const IDer& p) { return p.more * 10 + emb::template next<emb_d>(p); }
};

template<class R>
struct Impl : Instance {
    using f = F<R>;
    const char* nm;
    typename f::Root root;
    typename f::A a;
    typename f::B b;
    typename f::C c;
    typename f::D d;
    typename f::V v;
    typename f::Z z;
    typename f::U un;
    std::unique_ptr<typename f::IBase> ipool[2];
    std::vector<typename f::vp> vps;
    std::vector<typename f::template sp<typename f::Root>> sps;
    using zrec = bom::use_classes<typename f::Z, typename f::A, R>;
    alignas(zrec) inline static char zbuf[sizeof(zrec)];
    bool zin = false;

    Impl(const char* n) : nm(n) {
        static bom::use_classes<
            typename f::Root, typename f::A, typename f::B, typename f::C,
            typename f::D, typename f::V, R>
            classes;
        static typename f::uni::template override<f::uni_root, f::uni_a, f::uni_d, f::uni_v> o1;
        static typename f::ref::template override<f::ref_a, f::ref_c> o2;
        static typename f::bin::template override<f::bin_ar, f::bin_ra, f::bin_cc> o3;
        static typename f::tri::template override<f::tri_0, f::tri_1, f::tri_2> o4;
        static typename f::own::template override<f::own_root, f::own_c> o5;
        static typename f::see::template override<f::see_root, f::see_a> o6;
        static typename f::take::template override<f::take_root, f::take_d> o7;
        static typename f::emb::template override<f::emb_b, f::emb_d> o8;
        set_handler();
    }
    void set_handler();
    const char* name() const override {
        return nm;
    }
    void initialize(int mode) override {
        vps.clear();
        sps.clear();
        bool want = mode & 1;
        if (want != zin) {
            if (want) {
                std::memset(zbuf, 0, sizeof(zbuf));
                asm volatile("" ::"r"(zbuf) : "memory");
                new (zbuf) zrec;
            } else {
                reinterpret_cast<zrec*>(zbuf)->~zrec();
            }
            zin = want;
        }
        if (mode & 2)
            bom::initialize<R>(bom::n2216());
        else
            bom::initialize<R>();
        ipool[0] = std::make_unique<typename f::IBase>();
        ipool[1] = std::make_unique<typename f::IDer>();
        for (int i = 0; i < 6; ++i)
            vps.push_back(object(i));
        sps.push_back(std::make_shared<typename f::Root>());
        sps.push_back(std::make_shared<typename f::A>());
        sps.push_back(std::make_shared<typename f::B>());
        sps.push_back(std::make_shared<typename f::C>());
        sps.push_back(std::make_shared<typename f::D>());
        sps.push_back(std::make_shared<typename f::V>());
    }
    void finalize() override {
        vps.clear();
        sps.clear();
        bom::finalize<R>();
    }
    auto object(int i) -> typename f::Root& {
        switch (i % 8) {
        case 0: return root;
        case 1: return a;
        case 2: return b;
        case 3: return c;
        case 4: return d;
        case 5: return v;
        case 6: return z;
        default: return un;
        }
    }
    auto known(int i) -> typename f::Root& {
        return object(i % (zin ? 7 : 6));
    }
    long op(int kind, int x, int y, int w) override {
        try {
            return op_(kind, x, y, w);
        } catch (const bom::no_overrider& e) {
            return -1000 - long(e.arity) - types(e);
        } catch (const bom::ambiguous_call& e) {
            return -3000 - long(e.arity) - types(e);
        } catch (const bom::missing_class& e) {
            return -5000 - (e.type == type(un) || e.type == type(z));
        } catch (const bom::final_error& e) {
            return -7000 - (e.dynamic_type != e.static_type);
        }
    }
    static type_id type(const typename f::Root& r) {
        return R::rtti::dynamic_type(r);
    }
    long types(const bom::bad_call& e) {
        long n = 0;
        for (std::size_t i = 0; i < e.arity && i < 3; ++i)
            for (int k = 0; k < 8; ++k)
                if (e.types[i] == type(object(k)))
                    n = n * 10 + k;
        return n;
    }
    long op_(int kind, int x, int y, int w) {
        using vp = typename f::vp;
        switch (kind) {
        case 0: return f::uni::fn(known(x), y);
        case 1: {
            vp p(known(x));
            vp q = p;
            return f::uni::fn(q, y) + (p == q);
        }
        case 2: {
            const vp& s = vps[x % 6];
            vp q = s;
            return f::uni::fn(s, w) * 3 + f::uni::fn(q, y);
        }
        case 3: return f::ref::fn(y, known(x));
        case 4: return f::bin::fn(known(x), known(y));
        case 5: return f::bin::fn(known(x), vps[y % 6]);
        case 6: return f::tri::fn(known(x), w, &known(y), vps[w % 6]);
        case 7: return f::own::fn(sps[x % 6]) + f::own::fn(std::make_shared<typename f::C>());
        case 8: return f::see::fn(sps[x % 6]);
        case 9: {
            long n = f::take::fn(bom::make_unique_virtual<typename f::D, R>());
            typename f::template up<typename f::Root> u(std::make_unique<typename f::C>());
            return n * 100 + f::take::fn(std::move(u));
        }
        case 10: {
            long n = f::emb::fn(*ipool[x % 2]);
            typename f::IDer der;
            typename f::IBase base(der);
            return n * 100 + f::emb::fn(der) * 10 + f::emb::fn(base);
        }
        case 11: {
            auto p = bom::final_virtual_ptr<R>(d);
            vp q = p;
            return f::uni::fn(q, y) + (p.vptr() == vp(d).vptr());
        }
        case 12:
            if constexpr (R::has_runtime_checks) {
                typename f::Root& r = known(x);
                auto p = bom::final_virtual_ptr<R>(r);
                return f::uni::fn(vp(p), y);
            }
            return 12;
        case 13:
            // not registered
            if constexpr (R::has_runtime_checks)
                return y % 2 ? f::uni::fn(vp(un), 1) : f::bin::fn(known(x), un);
            return 13;
        case 14: {
            vp p(x % 2 ? static_cast<typename f::Root&>(d) : static_cast<typename f::Root&>(c));
            auto q = p.template cast<typename f::C>();
            return q->mine + f::uni::fn(q, y) +
                (f::uni::template has_next<f::uni_root>() ? 1 : 0) +
                (f::uni::template has_next<f::uni_d>() ? 2 : 0);
        }
        default: {
            auto p = sps[x % 6];
            auto q = p;
            auto r = std::move(p);
            return f::own::fn(r) * 2 + f::see::fn(q) + (p.get() == nullptr);
        }
        }
    }
};

template<class R, class = void>
struct handler_setter {
    static void fn() {
    }
};
template<class R>
struct handler_setter<R, std::void_t<typename R::error_handler::error_variant>> {
    static void fn() {
        R::error_handler::set([](const typename R::error_handler::error_variant& e) {
            std::visit([](auto& x) { throw x; }, e);
        });
    }
};
template<class R>
void Impl<R>::set_handler() {
    handler_setter<R>::fn();
}

template<class R>
Instance* make(const char* name) {
    static Impl<R> i(name);
    return &i;
}

