// Support for the programs generated by rtti.py: the object system of a user.
#pragma once
#include "rt.hpp"

#include <boost/openmethod/policies/fast_perfect_hash.hpp>
#include <boost/openmethod/policies/static_rtti.hpp>
#include <boost/openmethod/policies/stderr_output.hpp>
#include <boost/openmethod/policies/vptr_vector.hpp>

#include <sstream>

namespace ct {

struct Node {
    tid id;
    void* whole;
};
constexpr int max_classes = 10, max_ids = 3, max_rounds = 2;
inline char memory[4096]; // type ids can be addresses in it
// These are defined by the program, and constant: static objects of templates are
// initialized in any order.
extern const int n_classes;
extern const bool addresses;
extern const std::uintptr_t table[max_rounds][max_classes][max_ids];
extern bool assigned; // ids are known
extern int sel;       // which of its ids a class uses
inline int round;
inline int unassigned;      // ids read before they were assigned
inline int dynamic_casts;
inline void* last;          // last object created
inline const void* want[4]; // objects expected in the overriders

inline tid get(int number, int which) {
    auto v = table[round][number][which];
    return addresses ? memory + v : reinterpret_cast<tid>(v);
}
inline tid id(int number) {
    if (!assigned)
        ++unassigned;
    return assigned ? get(number, sel) : nullptr;
}
inline int number_of(tid id) {
    for (int i = 0; i < n_classes; ++i)
        for (int j = 0; j < max_ids; ++j)
            if (get(i, j) == id)
                return i;
    return -1;
}
inline std::string name(int number) {
    return number < 0 ? "[other]" : "[class " + std::to_string(number) + "]";
}
struct Sel { // for the registrations that follow
    explicit Sel(int i) {
        sel = i;
    }
};

template<class C, class = void>
struct has_number : std::false_type {};
template<class C>
struct has_number<C, std::void_t<decltype(C::number)>> : std::true_type {};

template<bool Zero, class C>
tid static_id() {
    if constexpr (has_number<C>::value) {
        return id(C::number);
    } else if constexpr (Zero) {
        return nullptr;
    } else {
        static char c;
        return &c;
    }
}
template<class C>
tid dynamic_id(const C& c) {
    return c.node_of().id;
}

template<int>
struct Pad {
    long pad = 1;
};

// Base 'to' of the object of class 'from'.
using Up = void* (*)(void*);
extern const Up up[max_classes][max_classes];
template<class From, class To>
void* up_fn(void* p) {
    return static_cast<To*>(static_cast<From*>(p));
}

template<class D, class B>
D dynamic_cast_ref(B& b) {
    ++dynamic_casts;
    using To = std::remove_cv_t<std::remove_reference_t<D>>;
    const Node& n = b.node_of();
    void* p = up[number_of(n.id)][To::number](n.whole);
    return static_cast<D>(*static_cast<To*>(p));
}

template<class C>
void arg(int i, const C& c) {
    const Node& n = c.node_of();
    rt::check(n.whole == want[i], "the overrider got another object");
    rt::check(
        static_cast<const void*>(&c) == up[number_of(n.id)][C::number](n.whole),
        "the overrider got a wrong address");
}

// What is expected of an error.
enum { none, missing, ambiguous, final_, missing_class };
inline void text(const std::runtime_error& e, tid id, bool names) {
    std::ostringstream os;
    if (names)
        os << name(number_of(id));
    else
        os << "type_id(" << id << ")";
    rt::check(
        std::string(e.what()).find(os.str()) != std::string::npos,
        "the description does not name the types");
}
inline int what(
    const std::runtime_error& x, int arity, const std::vector<tid>& types, tid method,
    bool names) {
    try {
        throw;
    } catch (bom::bad_call& e) {
        rt::check(int(e.arity) == arity, "arity of the error");
        rt::check(e.method == method, "method of the error");
        for (std::size_t i = 0; i < types.size() && i < bom::bad_call::max_types; ++i)
            rt::check(e.types[i] == types[i], "types of the error");
        try {
            throw;
        } catch (bom::no_overrider&) {
            return missing;
        } catch (bom::ambiguous_call&) {
            return ambiguous;
        }
    } catch (bom::final_error& e) {
        rt::check(types.size() == 2, "final_error");
        rt::check(
            number_of(e.static_type) == number_of(types[0]), "static type of the error");
        rt::check(e.dynamic_type == types[1], "dynamic type of the error");
        text(x, e.static_type, names);
        text(x, e.dynamic_type, names);
        return final_;
    } catch (bom::missing_class& e) {
        rt::check(types.size() == 1 && e.type == types[0], "type of the error");
        text(x, types[0], names);
        return missing_class;
    }
}
template<class F>
void fails(F f, int expected, int arity, std::vector<tid> types, tid method, bool names) {
    int got = none;
    try {
        f();
    } catch (std::runtime_error& x) {
        got = what(x, arity, types, method, names);
    }
    rt::check(got != none, "the error is not reported");
    rt::check(got == expected, "another error is reported");
}

inline void traced(int number) {
    fflush(stderr);
    static std::string log;
    if (log.empty()) {
        FILE* f = fopen("err.txt", "r");
        char buf[4096];
        for (std::size_t n; f && (n = fread(buf, 1, sizeof buf, f));)
            log.append(buf, n);
        if (f)
            fclose(f);
    }
    rt::check(log.find(name(number)) != std::string::npos, "the trace does not name a class");
}

} // namespace ct
