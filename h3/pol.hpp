// Policies and checks of the programs that combine policies (C21).
#pragma once
#include "rt.hpp"
#include <boost/openmethod/policies/static_rtti.hpp>

#include <sys/stat.h>
#include <unistd.h>

#include <algorithm>
#include <typeindex>

namespace up {

using bom::type_id;
using bom::vptr_type;
namespace mp11 = boost::mp11;

struct Opt {
    int value;
};
template<class... Options>
int opt(const std::tuple<Options...>& t) {
    if constexpr ((std::is_same_v<Options, Opt> || ...))
        return std::get<Opt>(t).value;
    else
        return -1;
}
// What a policy was used for in a registry.
template<class Policy, class Registry>
struct Use {
    static inline long initialized = 0, used = 0, finalized = 0, option = -2;
    static inline std::vector<type_id> seen;
};

// ------------------------------------------------------------------- rtti
template<class Policy, class Registry>
struct typeid_rtti {
    template<class C>
    static constexpr bool is_polymorphic = std::is_polymorphic_v<C>;
    template<class C>
    static type_id static_type() {
        return &typeid(C);
    }
    template<class C>
    static type_id dynamic_type(const C& c) {
        ++Use<Policy, Registry>::used;
        return &typeid(c);
    }
    template<class S>
    static void type_name(type_id t, S& s) {
        s << reinterpret_cast<const std::type_info*>(t)->name();
    }
    static std::type_index type_index(type_id t) {
        return *reinterpret_cast<const std::type_info*>(t);
    }
    template<class D, class B>
    static D dynamic_cast_ref(B&& b) {
        return dynamic_cast<D>(b);
    }
};
struct rtti_a : pol::rtti {
    template<class R>
    struct fn : typeid_rtti<rtti_a, R> {};
};
struct rtti_d : pol::deferred_static_rtti {
    template<class R>
    struct fn : typeid_rtti<rtti_d, R> {};
};
// small numbers
struct rtti_s : pol::rtti {
    template<class R>
    struct fn : defaults {
        template<class C, class = void>
        struct id_of {
            static type_id get() {
                static char c;
                return &c;
            }
        };
        template<class C>
        struct id_of<C, std::void_t<decltype(C::class_id)>> {
            static type_id get() {
                return reinterpret_cast<type_id>(std::size_t(C::class_id));
            }
        };
        template<class C>
        static constexpr bool is_polymorphic = std::is_polymorphic_v<C>;
        template<class C>
        static type_id static_type() {
            return id_of<C>::get();
        }
        template<class C>
        static type_id dynamic_type(const C& c) {
            ++Use<rtti_s, R>::used;
            return reinterpret_cast<type_id>(std::size_t(c.id()));
        }
        template<class D, class B>
        static D dynamic_cast_ref(B&& b) {
            return dynamic_cast<D>(b);
        }
    };
};

// ------------------------------------------------------------------- vptr
template<class Policy, class R, template<class...> class Map>
struct map_vptr {
    using use = Use<Policy, R>;
    using Value = std::conditional_t<R::has_indirect_vptr, const vptr_type*, vptr_type>;
    static inline Map<type_id, Value> map;
    template<class Context, class... Options>
    static void initialize(const Context& ctx, const std::tuple<Options...>& options) {
        ++use::initialized;
        use::option = opt(options);
        use::seen.clear();
        map.clear();
        for (auto c = ctx.classes_begin(); c != ctx.classes_end(); ++c)
            for (auto t = c->type_id_begin(); t != c->type_id_end(); ++t) {
                use::seen.push_back(*t);
                if constexpr (R::has_indirect_vptr)
                    map[*t] = &c->vptr();
                else
                    map[*t] = c->vptr();
            }
    }
    template<class C>
    static const vptr_type& dynamic_vptr(const C& c) {
        ++use::used;
        auto t = R::rtti::dynamic_type(c);
        auto i = map.find(t);
        if (i == map.end()) {
            if constexpr (R::has_error_handler) {
                bom::missing_class e;
                e.type = t;
                R::error_handler::error(e);
            }
            abort();
        }
        if constexpr (R::has_indirect_vptr)
            return *i->second;
        else
            return i->second;
    }
    template<class... Options>
    static void finalize(const std::tuple<Options...>& options) {
        ++use::finalized;
        use::option = opt(options);
        map.clear();
    }
};
struct vptr_a : pol::vptr {
    template<class R>
    struct fn : map_vptr<vptr_a, R, std::map> {};
};
struct vptr_b : pol::vptr {
    template<class R>
    struct fn : map_vptr<vptr_b, R, std::unordered_map> {};
};
struct vptr_v : pol::vptr_vector {};

// ------------------------------------------------------------------- hash
struct hash_a : pol::type_hash {
    template<class R>
    struct fn {
        using use = Use<hash_a, R>;
        static inline std::map<type_id, std::size_t> map;
        template<class Context, class... Options>
        static std::pair<std::size_t, std::size_t>
        initialize(const Context& ctx, const std::tuple<Options...>& options) {
            ++use::initialized;
            use::option = opt(options);
            use::seen.clear();
            map.clear();
            for (auto c = ctx.classes_begin(); c != ctx.classes_end(); ++c)
                for (auto t = c->type_id_begin(); t != c->type_id_end(); ++t) {
                    use::seen.push_back(*t);
                    map.emplace(*t, 7 + 3 * map.size());
                }
            return {7, 4 + 3 * map.size()};
        }
        static std::size_t hash(type_id t) {
            ++use::used;
            auto i = map.find(t);
            if (i == map.end()) {
                if constexpr (R::has_error_handler) {
                    bom::missing_class e;
                    e.type = t;
                    R::error_handler::error(e);
                }
                abort();
            }
            return i->second;
        }
        template<class... Options>
        static void finalize(const std::tuple<Options...>&) {
            ++use::finalized;
        }
    };
};
struct hash_f : pol::fast_perfect_hash {};

// ---------------------------------------------------------- errors, output
struct Caught {
    const void* registry;
    int kind;
};
template<class E>
constexpr int kind_of = std::is_same_v<E, bom::not_initialized> ? 0
    : std::is_same_v<E, bom::no_overrider>                      ? 1
    : std::is_same_v<E, bom::missing_class>                     ? 2
                                                                : 3;
template<class R>
inline char registry_tag;
struct err_a : pol::error_handler {
    template<class R>
    struct fn {
        template<class E>
        static void error(const E&) {
            ++Use<err_a, R>::used;
            throw Caught{&registry_tag<R>, kind_of<E>};
        }
    };
};
struct err_t : pol::throw_error_handler {};

struct sink {
    std::string s;
    sink& operator<<(const char* x) {
        s += x;
        return *this;
    }
    sink& operator<<(const std::string_view& x) {
        s += x;
        return *this;
    }
    sink& operator<<(const void* x) {
        s += x ? "p" : "0";
        return *this;
    }
    sink& operator<<(std::size_t x) {
        s += std::to_string(x);
        return *this;
    }
};
inline std::vector<sink*> sinks;
template<class Policy, class R>
struct user_output {
    struct registered_sink : sink {
        registered_sink() {
            sinks.push_back(this);
        }
    };
    inline static registered_sink os;
};
struct out_a : pol::output {
    template<class R>
    struct fn : user_output<out_a, R> {};
};
struct out_b : pol::output {
    template<class R>
    struct fn : user_output<out_b, R> {};
};

// ------------------------------------------------- categories of the user
struct note {
    using category = note;
};
struct note_a : note {
    template<class R>
    struct fn {
        static constexpr int value = 1;
        using registry = R;
    };
};
struct note_b : note {
    template<class R>
    struct fn {
        static constexpr int value = 2;
        using registry = R;
    };
};
struct mark final {
    using category = mark;
    template<class R>
    struct fn {
        using registry = R;
    };
};

// ---------------------------------------------------------------- classes
struct K0 {
    virtual ~K0() = default;
    static constexpr int class_id = 4;
    virtual std::size_t id() const {
        return class_id;
    }
};
struct K1 : K0 {
    static constexpr int class_id = 9;
    std::size_t id() const override {
        return class_id;
    }
};
struct pad {
    virtual ~pad() = default;
    long x = 1;
};
struct K2 : pad, K0 {
    static constexpr int class_id = 1;
    std::size_t id() const override {
        return class_id;
    }
};
struct K3 : K1 {
    static constexpr int class_id = 5;
    std::size_t id() const override {
        return class_id;
    }
};
struct Unknown : K1 {
    static constexpr int class_id = 12;
    std::size_t id() const override {
        return class_id;
    }
};

// -------------------------------------------------------------- run time
// What the model says of a registry.
enum { checks = 1, indirect = 2, has_vptr = 4, user_vptr = 8, vector_vptr = 16, hash_is_a = 32,
       default_handler = 64, throw_handler = 128, user_handler = 256, user_out = 512,
       stderr_out = 1024 };

struct use_m;
struct few_m;
struct ref_m;
template<class R>
using uni = bom::method<use_m, int(bom::virtual_ptr<K0, R>), R>;
template<class R>
using few = bom::method<few_m, int(bom::virtual_ptr<K0, R>), R>;
template<class R>
using ref = bom::method<ref_m, int(bom::virtual_<const K0&>, int), R>;
template<class R, class C, int N>
int f(bom::virtual_ptr<C, R>) {
    return N;
}
template<class R, class C, int N>
int g(const C&, int i) {
    return N + i;
}

inline long err_size() {
    fflush(stderr);
    struct stat st;
    fstat(2, &st);
    return long(st.st_size);
}
inline long out_size() {
    long n = 0;
    for (auto s : sinks)
        n += long(s->s.size());
    return n;
}

template<class R, unsigned F>
struct Run {
    // (the type of the registry of policies and errors)
    using T = typename R::registry_type;
    using err = bom::not_initialized;

    template<class E, class Fn>
    static void expect(const char* what, Fn fn) {
        bool ok = false;
        try {
            fn();
        } catch (const Caught& c) {
            ok = (F & (default_handler | user_handler)) && c.registry == &registry_tag<T> &&
                c.kind == kind_of<E>;
        } catch (const E&) {
            ok = F & throw_handler;
        }
        rt::check(ok, what);
    }
    template<class C>
    static bom::virtual_ptr<K0, R> vp(C& c) {
        if constexpr (F & has_vptr)
            return bom::virtual_ptr<K0, R>(static_cast<K0&>(c));
        else
            return bom::final_virtual_ptr<R>(c);
    }
    static void calls() {
        K0 k0;
        K1 k1;
        K2 k2;
        K3 k3;
        RT_CHECK(uni<R>::fn(vp(k0)) == 0 && uni<R>::fn(vp(k1)) == 1 &&
                     uni<R>::fn(vp(k2)) == 2 && uni<R>::fn(vp(k3)) == 1,
                 "wrong overrider");
        if constexpr (F & has_vptr)
            RT_CHECK(ref<R>::fn(k0, 10) == 10 && ref<R>::fn(k1, 10) == 10 &&
                         ref<R>::fn(k2, 10) == 12 && ref<R>::fn(k3, 10) == 13,
                     "wrong overrider for a reference");
        if constexpr (F & (default_handler | throw_handler | user_handler))
            expect<bom::no_overrider>("no_overrider is not reported by the handler",
                                      [&] { few<R>::fn(vp(k1)); });
        RT_CHECK(few<R>::fn(vp(k2)) == 5, "wrong overrider of few");
    }
    template<class... O>
    static void initialize(int n, bool trace, O... options) {
        using V = Use<vptr_a, T>;
        using W = Use<vptr_b, T>;
        using H = Use<hash_a, T>;
        auto v = V::initialized + W::initialized, h = H::initialized;
        auto e = err_size(), o = out_size();
        bom::initialize<R>(Opt{n}, options...);
        rt::check((out_size() != o) == (trace && (F & user_out)), "user's output");
        rt::check((err_size() != e) == (trace && (F & stderr_out)), "output to stderr");
        rt::check(V::initialized + W::initialized == v + !!(F & user_vptr),
                  "the vptr policy is initialized once");
        if constexpr (bool(F & vector_vptr) && bool(F & hash_is_a)) {
            rt::check(H::initialized == h + 1 && H::option == n, "the hash is initialized once");
            ids(H::seen);
        }
        if constexpr (F & user_vptr) {
            rt::check((V::initialized ? V::option : W::option) == n, "options of initialize");
            ids(V::initialized ? V::seen : W::seen);
        }
    }
    static void ids(std::vector<type_id> seen) {
        std::vector<type_id> all = {T::rtti::template static_type<K0>(),
                                    T::rtti::template static_type<K1>(),
                                    T::rtti::template static_type<K2>(),
                                    T::rtti::template static_type<K3>()};
        std::sort(all.begin(), all.end());
        std::sort(seen.begin(), seen.end());
        rt::check(seen == all, "type ids passed to the policy");
    }
    static void run(int n) {
        static bom::use_classes<K1, K0, K3, R> classes;
        static bom::use_classes<K2, K0, R> more;
        static typename uni<R>::template override<f<R, K0, 0>, f<R, K1, 1>, f<R, K2, 2>> o1;
        static typename few<R>::template override<f<R, K2, 5>> o2;
        if constexpr (F & has_vptr)
            static typename ref<R>::template override<g<R, K0, 0>, g<R, K2, 2>, g<R, K3, 3>> o3;
        if constexpr (F & default_handler)
            T::error_handler::set([](const auto& error) {
                std::visit(
                    [](auto& e) {
                        throw Caught{&registry_tag<T>, kind_of<std::decay_t<decltype(e)>>};
                    },
                    error);
            });
        constexpr bool catches = F & (default_handler | throw_handler | user_handler);
        K1 k1;
        Unknown u;
        if constexpr (catches && (F & checks) && (F & has_vptr))
            expect<bom::not_initialized>("a call before initialize", [&] { uni<R>::fn(k1); });
        initialize(n, false);
        calls();
        auto kept = vp(k1);
        if constexpr (F & (user_out | stderr_out)) {
            initialize(n + 1, true, bom::trace(true));
            calls();
            initialize(n + 2, false, bom::trace(false));
        } else
            initialize(n + 1, false);
        if constexpr (F & indirect)
            rt::check(uni<R>::fn(kept) == 1, "virtual_ptr kept");
        calls();
        if constexpr (catches && (F & checks) && (F & has_vptr)) {
            expect<bom::missing_class>("an unregistered class", [&] { uni<R>::fn(u); });
            expect<bom::missing_class>("an unregistered class, by reference",
                                       [&] { ref<R>::fn(u, 0); });
        }
        auto v = Use<vptr_a, T>::finalized + Use<vptr_b, T>::finalized;
        auto h = Use<hash_a, T>::finalized;
        auto e = err_size(), o = out_size();
        bom::finalize<R>(Opt{n});
        rt::check(err_size() == e && out_size() == o, "finalize writes");
        rt::check(Use<vptr_a, T>::finalized + Use<vptr_b, T>::finalized == v + !!(F & user_vptr),
                  "the vptr policy is finalized once");
        rt::check(Use<hash_a, T>::finalized == h + !!(F & hash_is_a),
                  "the hash is finalized once");
        if constexpr (catches && (F & checks) && (F & has_vptr))
            expect<bom::not_initialized>("a call after finalize", [&] { uni<R>::fn(k1); });
        initialize(n + 3, false);
        calls();
    }
};

// ---------------------------------------------------------- compile time
template<class R, class Category>
using found = typename R::template policy<Category>;
template<class R, class P>
using fn = typename P::template fn<typename R::registry_type>;
inline void same(bool ok, const char* what) {
    rt::begin(what);
    rt::check(ok, "differs from the model");
}

} // namespace up
