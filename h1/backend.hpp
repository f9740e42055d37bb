#pragma once
#include "universe.hpp"

#include <boost/mp11.hpp>
#include <boost/openmethod.hpp>
#include <boost/openmethod/initialize.hpp>
#include <boost/openmethod/policies/vptr_map.hpp>

#include <cstring>
#include <new>
#include <sstream>
#include <string_view>
#include <tuple>
#include <utility>

namespace uni {

namespace bom = boost::openmethod;
namespace pol = boost::openmethod::policies;

// ---------------------------------------------------------------- universe
struct TypeOnly {};
template<bool>
struct MaybeAbstract {};
template<>
struct MaybeAbstract<true> {
    virtual void pure() = 0;
};
template<int R, int B>
struct RBase : TypeOnly {};
template<int R, class = std::make_integer_sequence<int, NBASE>>
struct RClass;
template<int R, int... B>
struct RClass<R, std::integer_sequence<int, B...>>
    : RBase<R, B>..., MaybeAbstract<R % 3 == 1> {};

template<int M, int P>
struct MP : Node {};
template<int M, int K, int P>
struct OP : MP<M, P> {};
template<int M>
struct RT : Node {
    int code = -1;
};
template<int M, int K>
struct ORT : RT<M> {};

template<class T>
struct slot {
    static tid get() {
        static char c[2];
        return c;
    }
};
template<int R, class S>
struct slot<RClass<R, S>> {
    static tid get() {
        return table.rec[R];
    }
};
template<int R, int B>
struct slot<RBase<R, B>> {
    static tid get() {
        return table.recbase[R][B];
    }
};
template<int M, int P>
struct slot<MP<M, P>> {
    static tid get() {
        return table.mparam[M][P];
    }
};
template<int M, int K, int P>
struct slot<OP<M, K, P>> {
    static tid get() {
        return table.oparam[M][K][P];
    }
};
template<int M>
struct slot<RT<M>> {
    static tid get() {
        return table.mret[M];
    }
};
template<int M, int K>
struct slot<ORT<M, K>> {
    static tid get() {
        return table.oret[M][K];
    }
};

struct dyn_rtti : pol::deferred_static_rtti {
    template<class Registry>
    struct fn : defaults {
        template<class C>
        static constexpr bool is_polymorphic =
            std::is_base_of_v<Node, C> || std::is_base_of_v<TypeOnly, C>;

        template<class C>
        static auto static_type() -> tid {
            return slot<std::remove_cv_t<C>>::get();
        }
        template<class C>
        static auto dynamic_type(const C& obj) -> tid {
#ifdef UNI_COUNT
            ++counts.dynamic_types;
#endif
            if constexpr (std::is_base_of_v<Node, C>)
                return obj.type;
            else
                return slot<C>::get();
        }
        static auto type_index(tid t) -> tid {
            auto i = table.alias.find(t);
            return i == table.alias.end() ? t : i->second;
        }
        template<typename D, typename B>
        static auto dynamic_cast_ref(B&& obj) -> D {
            return static_cast<D>(obj);
        }
    };
};

struct capture_output : pol::output {
    template<class Registry>
    struct fn {
        inline static std::ostringstream os;
    };
};

struct ErrEx {
    Outcome o;
};

inline void fill(Outcome& o, const bom::no_overrider& e) {
    o.kind = Outcome::no_overrider;
    o.method = e.method;
    o.arity = e.arity;
    o.types.assign(e.types, e.types + std::min<std::size_t>(e.arity, 16));
}
inline void fill(Outcome& o, const bom::ambiguous_call& e) {
    o.kind = Outcome::ambiguous;
    o.method = e.method;
    o.arity = e.arity;
    o.types.assign(e.types, e.types + std::min<std::size_t>(e.arity, 16));
}
inline void fill(Outcome& o, const bom::not_initialized&) {
    o.kind = Outcome::not_initialized;
}
inline void fill(Outcome& o, const bom::missing_class& e) {
    o.kind = Outcome::missing_class;
    o.type = e.type;
}
inline void fill(Outcome& o, const bom::missing_base& e) {
    o.kind = Outcome::missing_base;
    o.type = e.base;
    o.type2 = e.derived;
}
inline void fill(Outcome& o, const bom::final_error& e) {
    o.kind = Outcome::final_error;
    o.type = e.static_type;
    o.type2 = e.dynamic_type;
}
inline void fill(Outcome& o, const bom::odr_violation&) {
    o.kind = Outcome::odr;
}
inline void fill(Outcome& o, const pol::fast_perfect_hash::search_error&) {
    o.kind = Outcome::search_error;
}

constexpr const char* kinds_of[] = {
#define UNI_KINDS(I, K, N, R) K,
    UNI_METHODS(UNI_KINDS)
#undef UNI_KINDS
};
constexpr int nover_of[] = {
#define UNI_NOV(I, K, N, R) N,
    UNI_METHODS(UNI_NOV)
#undef UNI_NOV
};
constexpr bool cls_of[] = {
#define UNI_CLS(I, K, N, R) R,
    UNI_METHODS(UNI_CLS)
#undef UNI_CLS
};

constexpr int nparams(int m) {
    return int(std::string_view(kinds_of[m]).size());
}
constexpr int vpos(int m, int i) {
    int n = 0;
    for (int j = 0; j < i; ++j)
        n += kinds_of[m][j] != 'N';
    return n;
}

template<char Kind, class C, class Reg>
struct param;
template<class C, class Reg>
struct param<'V', C, Reg> {
    using method = bom::virtual_<C&>;
    using over = C&;
    static C& make(Node* n) {
        return static_cast<C&>(*n);
    }
    static const Node* node(const C& c) {
        return &c;
    }
};
template<class C, class Reg>
struct param<'K', C, Reg> {
    using method = bom::virtual_<const C&>;
    using over = const C&;
    static const C& make(Node* n) {
        return static_cast<const C&>(*n);
    }
    static const Node* node(const C& c) {
        return &c;
    }
};
template<class C, class Reg>
struct param<'Q', C, Reg> {
    using method = bom::virtual_<C*>;
    using over = C*;
    static C* make(Node* n) {
        return static_cast<C*>(n);
    }
    static const Node* node(const C* c) {
        return c;
    }
};
template<class C, class Reg>
struct param<'P', C, Reg> {
    using method = bom::virtual_ptr<C, Reg>;
    using over = bom::virtual_ptr<C, Reg>;
    static over make(Node* n) {
        return over(static_cast<C&>(*n));
    }
    static const Node* node(const over& c) {
        return c.get();
    }
};
template<class C, class Reg>
struct param<'C', C, Reg> {
    using method = const bom::virtual_ptr<C, Reg>&;
    using over = const bom::virtual_ptr<C, Reg>&;
    static bom::virtual_ptr<C, Reg> make(Node* n) {
        return bom::virtual_ptr<C, Reg>(static_cast<C&>(*n));
    }
    static const Node* node(const bom::virtual_ptr<C, Reg>& c) {
        return c.get();
    }
};
template<class C, class Reg>
struct param<'N', C, Reg> {
    using method = int;
    using over = int;
};

template<int M>
struct method_id;

template<class Reg, int M, class Seq = std::make_integer_sequence<int, nparams(M)>>
struct Meth;

template<class Reg, int M, int... I>
struct Meth<Reg, M, std::integer_sequence<int, I...>> {
    using ret = std::conditional_t<cls_of[M], RT<M>&, int>;
    template<int J>
    using mparam = param<kinds_of[M][J], MP<M, vpos(M, J)>, Reg>;
    template<int K, int J>
    using oparam = param<kinds_of[M][J], OP<M, K, vpos(M, J)>, Reg>;
    using type =
        bom::method<method_id<M>, ret(typename mparam<I>::method...), Reg>;

    template<int J, class P, class A>
    static void note(const A& a) {
        if constexpr (kinds_of[M][J] == 'N')
            log_.nv[log_.nnv++] = a;
        else
            log_.nodes[vpos(M, J)] = P::node(a);
    }

    template<int K>
    struct over {
        using oret = std::conditional_t<cls_of[M], ORT<M, K>&, int>;
        static oret fn(typename oparam<K, I>::over... a) {
#ifdef UNI_COUNT
            at_entry = counts;
#endif
            ++log_.executed;
            log_.m = M;
            log_.k = K;
            log_.nnv = 0;
            (note<I, oparam<K, I>>(a), ...);
            if constexpr (cls_of[M]) {
                static ORT<M, K> r;
                r.code = K;
                return r;
            } else {
                return K;
            }
        }
    };

    template<int J, class X>
    static decltype(auto) arg(X* nodes, int nv) {
        if constexpr (kinds_of[M][J] == 'N')
            return nv + J;
        else
            return mparam<J>::make(nodes[vpos(M, J)]);
    }

    template<class R>
    static int code_of(R&& r) {
        if constexpr (cls_of[M])
            return r.code;
        else
            return r;
    }

    static int call(Node** a, int nv) {
        return code_of(type::fn(arg<I>(a, nv)...));
    }

    template<int K>
    static int call_next(Node** a, int nv) {
        return code_of(type::template next<over<K>::fn>(arg<I>(a, nv)...));
    }
    template<int K>
    static bool has_next() {
        return type::template has_next<over<K>::fn>();
    }

    using base_vp = bom::virtual_ptr<Node, Reg>;
    static constexpr bool all_vp = [] {
        for (int j = 0; j < nparams(M); ++j)
            if (kinds_of[M][j] != 'P' && kinds_of[M][j] != 'C' &&
                kinds_of[M][j] != 'N')
                return false;
        return true;
    }();
    template<int J>
    static decltype(auto)
    held_arg(const base_vp* held, const int* idx, int nv) {
        if constexpr (kinds_of[M][J] == 'N')
            return nv + J;
        else
            return held[idx[vpos(M, J)]]
                .template cast<MP<M, vpos(M, J)>>();
    }
    static int call_held(const base_vp* held, const int* idx, int nv) {
        if constexpr (all_vp)
            return code_of(type::fn(held_arg<I>(held, idx, nv)...));
        else
            return -1;
    }
    template<int P>
    static void make_final(Node* n) {
        auto p = bom::final_virtual_ptr<Reg>(static_cast<MP<M, P>&>(*n));
        (void)p;
    }
};

template<class Reg, int M, class Seq>
struct RegisterAll;
template<class Reg, int M, int... K>
struct RegisterAll<Reg, M, std::integer_sequence<int, K...>> {
    using type = typename Meth<Reg, M>::type::template override<
        Meth<Reg, M>::template over<K>::fn...>;
    static constexpr int (*next_fns[sizeof...(K) + 1])(Node**, int) = {
        &Meth<Reg, M>::template call_next<K>..., nullptr};
    static constexpr bool (*has_fns[sizeof...(K) + 1])() = {
        &Meth<Reg, M>::template has_next<K>..., nullptr};
    inline static type reg;
};

template<int R, class Reg, class = std::make_integer_sequence<int, NBASE>>
struct RecReg;
template<int R, class Reg, int... B>
struct RecReg<R, Reg, std::integer_sequence<int, B...>> {
    using type = bom::use_classes<RClass<R>, RBase<R, B>..., Reg>;
    alignas(type) static inline unsigned char buf[sizeof(type)];
    static inline type* p = nullptr;
    // Registrars have static storage duration in a program (zeroed memory);
    // creating and destroying one is what loading / unloading a library does.
    static void add() {
        std::memset(buf, 0, sizeof(buf));
        p = new (buf) type;
    }
    static void remove() {
        p->~type();
        p = nullptr;
    }
};

template<class Reg>
struct BackendT : Backend {
    template<class S>
    struct Tables;
    template<int... R>
    struct Tables<std::integer_sequence<int, R...>> {
        static constexpr void (*add[])() = {&RecReg<R, Reg>::add...};
        static constexpr void (*remove[])() = {&RecReg<R, Reg>::remove...};
    };
    using Recs = Tables<std::make_integer_sequence<int, NREC>>;
    template<int M>
    using Ov =
        RegisterAll<Reg, M, std::make_integer_sequence<int, nover_of[M]>>;
    template<class S>
    struct MTables;
    template<int... M>
    struct MTables<std::integer_sequence<int, M...>> {
        static constexpr int (*call[])(Node**, int) = {&Meth<Reg, M>::call...};
        static constexpr int (*call_held[])(
            const bom::virtual_ptr<Node, Reg>*, const int*, int) = {
            &Meth<Reg, M>::call_held...};
        static constexpr int (*const* next[])(Node**, int) = {
            Ov<M>::next_fns...};
        static constexpr bool (*const* has[])() = {Ov<M>::has_fns...};
        static void touch() {
            ((void)&Ov<M>::reg, ...);
        }
        static tid id(int m) {
            tid r = nullptr;
            ((m == M ? (void)(r = Reg::rtti::template static_type<
                                  typename Meth<Reg, M>::type>())
                     : void()),
             ...);
            return r;
        }
        static void final_(int m, int p, Node* n) {
            ((m == M && p == 0 ? Meth<Reg, M>::template make_final<0>(n)
                               : void()),
             ...);
            ((m == M && p == 1 ? Meth<Reg, M>::template make_final<1>(n)
                               : void()),
             ...);
        }
    };
    using Meths = MTables<std::make_integer_sequence<int, NMETH>>;

    using VP = bom::virtual_ptr<Node, Reg>;
    VP held[8];

    BackendT(const char* n) {
        name = n;
        checks = Reg::has_runtime_checks;
        indirect = Reg::has_indirect_vptr;
        Meths::touch();
        Reg::error_handler::set([this](const auto& v) {
            ++handler_calls;
            Outcome o;
            std::visit([&o](auto&& e) { fill(o, e); }, v);
            throw ErrEx{o};
        });
    }
    void add_record(int r) override {
        Recs::add[r]();
    }
    void remove_record(int r) override {
        Recs::remove[r]();
    }
    template<class F>
    Outcome guard(F f) {
        handler_calls = 0;
        log_ = MultiLog{};
        Outcome o;
        counts = Counts{};
        try {
            o.code = f();
            o.kind = Outcome::value;
        } catch (ErrEx& e) {
            o = e.o;
        }
        o.handler_calls = handler_calls;
        o.executed = log_.executed;
        return o;
    }
    Report initialize(int opts) override {
        Report r;
        handler_calls = 0;
        try {
            auto set = [&r](auto&& comp) {
                r.cells = comp.report.cells;
                r.not_implemented = comp.report.not_implemented;
                r.ambiguous = comp.report.ambiguous;
            };
            switch (opts) {
            case OPT_NONE:
                set(bom::initialize<Reg>());
                break;
            case OPT_N2216:
                set(bom::initialize<Reg>(bom::n2216()));
                break;
            case OPT_TRACE_ON:
                set(bom::initialize<Reg>(bom::trace(true)));
                break;
            case OPT_TRACE_OFF:
                set(bom::initialize<Reg>(bom::trace(false)));
                break;
            case OPT_TRACE_ENV:
                set(bom::initialize<Reg>(bom::trace::from_env()));
                break;
            case OPT_N2216 | OPT_TRACE_ENV:
                set(bom::initialize<Reg>(bom::trace::from_env(), bom::n2216()));
                break;
            case OPT_N2216 | OPT_TRACE_ON:
                set(bom::initialize<Reg>(bom::trace(true), bom::n2216()));
                break;
            case OPT_N2216 | OPT_TRACE_OFF:
                set(bom::initialize<Reg>(bom::n2216(), bom::trace(false)));
                break;
            }
        } catch (ErrEx& e) {
            r.error = e.o;
        }
        r.error.handler_calls = handler_calls;
        return r;
    }
    void finalize() override {
        bom::finalize<Reg>();
    }
    void check_args(Outcome& o, int m, const Node* const* a, int nv) {
        if (o.kind != Outcome::value)
            return;
        if (log_.executed != 1)
            o.bad = "executed " + std::to_string(log_.executed) + " overriders";
        else if (log_.m != m || log_.k != o.code)
            o.bad = "overrider " + std::to_string(log_.m) + "/" +
                std::to_string(log_.k) + " ran but result came from " +
                std::to_string(o.code);
        int n = 0;
        for (int j = 0; j < nparams(m); ++j) {
            if (kinds_of[m][j] == 'N') {
                if (log_.nv[n++] != nv + j)
                    o.bad = "non-virtual argument " + std::to_string(j) +
                        " altered";
            } else if (log_.nodes[vpos(m, j)] != a[vpos(m, j)]) {
                o.bad = "virtual argument " + std::to_string(j) +
                    " is not the caller's object";
            }
        }
    }
    Outcome call(int m, Node** a, int nv) override {
        auto o = guard([&] { return Meths::call[m](a, nv); });
        check_args(o, m, a, nv);
        return o;
    }
    Outcome call_next(int m, int k, Node** a, int nv) override {
        auto o = guard([&] { return Meths::next[m][k](a, nv); });
        check_args(o, m, a, nv);
        return o;
    }
    int has_next(int m, int k) override {
        return Meths::has[m][k]();
    }
    tid method_id(int m) override {
        return Meths::id(m);
    }
    Outcome hold(int i, Node* n) override {
        return guard([&] {
            held[i] = VP(*n);
            return 0;
        });
    }
    bool held_ok(int i, Node* n) override {
        VP fresh(*n);
        return held[i].get() == n && held[i].vptr() == fresh.vptr();
    }
    Outcome call_held(int m, const int* idx, int nv) override {
        auto o = guard([&] { return Meths::call_held[m](held, idx, nv); });
        const Node* a[MAXAR];
        for (int j = 0; j < arity(m); ++j)
            a[j] = held[idx[j]].get();
        check_args(o, m, a, nv);
        return o;
    }
    Outcome make_final(int m, int p, Node* n) override {
        return guard([&] {
            Meths::final_(m, p, n);
            return 0;
        });
    }
    std::string take_output() override {
        auto s = Reg::output::os.str();
        Reg::output::os.str("");
        Reg::output::os.clear();
        return s;
    }
};

} // namespace uni
