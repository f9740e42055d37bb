// Runtime of the generated programs: registries, instrumented values, checks.
#pragma once

#ifdef RT_OTHER_DEFAULT
// as in the documentation of BOOST_OPENMETHOD_DEFAULT_REGISTRY
#include <boost/openmethod/preamble.hpp>
#include <boost/openmethod/policies/std_rtti.hpp>
#include <boost/openmethod/policies/throw_error_handler.hpp>
#include <boost/openmethod/policies/vptr_map.hpp>
namespace rt {
struct user_registry
    : boost::openmethod::registry<
          boost::openmethod::policies::std_rtti, boost::openmethod::policies::vptr_map<>,
          boost::openmethod::policies::throw_error_handler> {};
} // namespace rt
#define BOOST_OPENMETHOD_DEFAULT_REGISTRY ::rt::user_registry
#endif
#include <boost/openmethod.hpp>
#include <boost/openmethod/initialize.hpp>
#include <boost/openmethod/interop/boost_intrusive_ptr.hpp>
#include <boost/openmethod/interop/std_shared_ptr.hpp>
#include <boost/openmethod/interop/std_unique_ptr.hpp>
#include <boost/openmethod/policies/throw_error_handler.hpp>
#include <boost/openmethod/policies/vptr_map.hpp>

#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <map>
#include <memory>
#include <stdexcept>
#include <string>
#include <typeinfo>
#include <utility>
#include <vector>

namespace bom = boost::openmethod;
namespace pol = boost::openmethod::policies;
using tid = const void*;

namespace rt {

// -------------------------------------------------------------- registries
using bom::default_registry;
using bom::indirect_registry;
struct checked_registry : bom::default_registry::with<pol::runtime_checks> {};
struct map_registry : bom::default_registry::with<pol::vptr_map<>>::without<pol::type_hash> {};

// Each class has a number; there are no casts but static_cast.
struct id_rtti : pol::rtti {
    template<class Registry>
    struct fn : defaults {
        template<class C, class = void>
        struct has_id : std::false_type {};
        template<class C>
        struct has_id<C, std::void_t<decltype(C::class_id)>> : std::true_type {};
        template<class C>
        static constexpr bool is_polymorphic = has_id<C>::value;
        template<class C>
        static tid static_type() {
            if constexpr (has_id<C>::value) {
                return reinterpret_cast<tid>(std::size_t(C::class_id));
            } else {
                static char c;
                return &c;
            }
        }
        template<class C>
        static tid dynamic_type(const C& c) {
            return reinterpret_cast<tid>(std::size_t(c.get_class_id()));
        }
        template<class S>
        static void type_name(tid t, S& s) {
            s << t;
        }
    };
};
struct id_registry
    : bom::registry<
          id_rtti, pol::vptr_vector, pol::fast_perfect_hash, pol::throw_error_handler,
          pol::runtime_checks> {};
struct id_ind_registry
    : bom::registry<
          id_rtti, pol::vptr_vector, pol::throw_error_handler, pol::indirect_vptr,
          pol::runtime_checks> {};

// The ids are known when main starts; casts of virtual bases are possible.
struct def_rtti : pol::deferred_static_rtti {
    template<class Registry>
    struct fn : id_rtti::fn<Registry> {
        template<class D, class B>
        static D dynamic_cast_ref(B&& b) {
            return dynamic_cast<D>(b);
        }
    };
};
struct def_registry
    : bom::registry<
          def_rtti, pol::vptr_vector, pol::throw_error_handler, pol::runtime_checks> {};

void init_program(); // the default registry of the macros
void init_default();
void init_indirect();
void init_checked();
void init_map();
void init_id();
void init_id_ind();
void init_def();

// ------------------------------------------------------------------ checks
[[noreturn]] inline void fail(const std::string& what) {
    std::string s = "FAILED: " + what + "\n";
    fwrite(s.data(), 1, s.size(), stdout);
    fflush(stdout);
    _Exit(1);
}
inline const char* where = "";
inline void check(bool ok, const char* what) {
    if (!ok)
        fail(std::string(where) + ": " + what);
}
#define RT_CHECK(x, what) ::rt::check((x), what)

inline std::vector<int> entered;          // overriders, in order
inline const void* want[32];              // addresses expected in the overriders
inline long live;                         // objects with a Live member

struct Live {
    Live() {
        ++live;
    }
    Live(const Live&) {
        ++live;
    }
    Live& operator=(const Live&) = default;
    ~Live() {
        --live;
    }
};

inline std::string list(const std::vector<int>& v) {
    std::string s;
    for (int i : v)
        s += " #" + std::to_string(i);
    return s.empty() ? " nothing" : s;
}

inline int calls;
inline void begin(const char* w) {
    where = w;
    entered.clear();
    ++calls;
}
inline void end(std::vector<int> expected) {
    if (entered != expected)
        fail(std::string(where) + ": ran" + list(entered) + " instead of" + list(expected));
}

// Address of the complete object.
template<class T>
const void* whole(const T& x) {
    return dynamic_cast<const void*>(&x);
}

// ------------------------------------------------------------------ values
struct Tr { // counts copies
    int v = 0, copies = 0;
    bool moved = false;
    Tr() = default;
    explicit Tr(int v) : v(v) {
    }
    Tr(const Tr& o) : v(o.v), copies(o.copies + 1), moved(o.moved) {
    }
    Tr(Tr&& o) noexcept : v(o.v), copies(o.copies), moved(o.moved) {
        o.moved = true;
    }
    Tr& operator=(const Tr& o) {
        v = o.v;
        copies = o.copies + 1;
        moved = o.moved;
        return *this;
    }
    Tr& operator=(Tr&& o) noexcept {
        v = o.v;
        copies = o.copies;
        moved = o.moved;
        o.moved = true;
        return *this;
    }
};
struct NC { // neither copied nor moved
    int v = 0;
    explicit NC(int v) : v(v) {
    }
    NC(const NC&) = delete;
    NC& operator=(const NC&) = delete;
};
struct Abs { // abstract
    virtual ~Abs() = default;
    virtual int v() const = 0;
};
struct Abs1 : Abs {
    int i;
    explicit Abs1(int i) : i(i) {
    }
    int v() const override {
        return i;
    }
};
struct Big {
    int a[24];
};
inline Big big(int n) {
    Big b;
    for (int i = 0; i < 24; ++i)
        b.a[i] = n + i;
    return b;
}
inline bool same(const Big& b, int n) {
    for (int i = 0; i < 24; ++i)
        if (b.a[i] != n + i)
            return false;
    return true;
}
enum class Color { red, green, blue };
inline int twice(int i) {
    return 2 * i;
}
inline int thrice(int i) {
    return 3 * i;
}
struct Conv { // from int
    int v;
    Conv(int v) : v(v) {
    }
};

// ------------------------------------------- programs of several files
inline int ints[16];
struct Case {
    int n;
    void (*fn)();
    Case* next;
    inline static Case* first;
    Case(int n, void (*fn)()) : n(n), fn(fn), next(first) {
        first = this;
    }
};
int run_cases(int n);
int expect_odr_violation();

// ------------------------------------------------ programs with libraries
struct dl_registry : bom::default_registry::with<pol::throw_error_handler> {};
struct dl_checked_registry : dl_registry::with<pol::runtime_checks> {};
struct dl_map_registry
    : dl_registry::with<pol::vptr_map<>>::without<pol::type_hash> {};
struct dl_indirect_registry : dl_registry::with<pol::indirect_vptr> {};
struct dl_indirect_checked_registry
    : dl_checked_registry::with<pol::indirect_vptr> {};
struct dl_indirect_map_registry : dl_map_registry::with<pol::indirect_vptr> {};

struct dl_object {
    const void* whole = nullptr;
    void* base[16] = {};
    void (*destroy)(const void*) = nullptr;
};
struct dl_module {
    void (*make[16])(dl_object&) = {};
    void* (*make_vp[16])(void*) = {};
    void (*drop_vp[16])(void*) = {};
    int (*call[16])(void**) = {};
    int (*call_vp[16])(void**) = {};
    void (*own_initialize)() = nullptr;
    void (*own_finalize)() = nullptr;
    int (*own_call)() = nullptr;
};
extern int dl_loaded[16]; // in the executable
dl_module* dl_exe();
template<int Module>
struct dl_mark {
    dl_mark() {
        ++dl_loaded[Module];
    }
    ~dl_mark() {
        --dl_loaded[Module];
    }
};

} // namespace rt
