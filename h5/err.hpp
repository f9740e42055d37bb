// C14: what happens when there is an error.  A fixed family of classes, several
// registries with the four kinds of error handling; histories of operations,
// some of which are errors, and handlers that throw, return, exit, call methods.
#pragma once

#include <boost/openmethod.hpp>
#include <boost/openmethod/initialize.hpp>
#include <boost/openmethod/policies/throw_error_handler.hpp>
#include <boost/openmethod/policies/vptr_map.hpp>
#include <boost/core/demangle.hpp>

#include <cstdlib>
#include <cstring>
#include <functional>
#include <memory>
#include <new>
#include <sstream>
#include <stdexcept>
#include <string>
#include <typeinfo>
#include <vector>

namespace err {

namespace bom = boost::openmethod;
namespace pol = boost::openmethod::policies;
using tid = const void*;

enum Kind {
    OK,
    NOT_INIT,
    NO_OVERRIDER,
    AMBIGUOUS,
    MISSING_CLASS,
    MISSING_BASE,
    FINAL,
    OTHER
};
inline const char* names[] = {"none",          "not_initialized", "no_overrider",
                              "ambiguous_call", "missing_class",   "missing_base",
                              "final_error",   "another error"};

struct Rec {
    Kind kind = OK;
    tid a = nullptr, b = nullptr; // type / base, derived / static, dynamic
    tid method = nullptr;
    std::size_t arity = 0;
    tid types[4] = {};
};

inline void fill(Rec& r, const bom::not_initialized&) {
    r.kind = NOT_INIT;
}
inline void bad(Rec& r, const bom::bad_call& e) {
    r.method = e.method;
    r.arity = e.arity;
    for (std::size_t i = 0; i < 4 && i < e.arity; ++i)
        r.types[i] = e.types[i];
}
inline void fill(Rec& r, const bom::no_overrider& e) {
    r.kind = NO_OVERRIDER;
    bad(r, e);
}
inline void fill(Rec& r, const bom::ambiguous_call& e) {
    r.kind = AMBIGUOUS;
    bad(r, e);
}
inline void fill(Rec& r, const bom::missing_class& e) {
    r.kind = MISSING_CLASS;
    r.a = e.type;
}
inline void fill(Rec& r, const bom::missing_base& e) {
    r.kind = MISSING_BASE;
    r.a = e.base;
    r.b = e.derived;
}
inline void fill(Rec& r, const bom::final_error& e) {
    r.kind = FINAL;
    r.a = e.static_type;
    r.b = e.dynamic_type;
}
inline void fill(Rec& r, const bom::openmethod_error&) {
    r.kind = OTHER;
}

// ------------------------------------------------------------------ classes
struct Animal {
    virtual ~Animal() = default;
    int value = 1;
};
struct Dog : Animal {};
struct Cat : Animal {};
struct Bulldog : Dog {};
struct Loner : Animal {}; // registered, not, or without its base
struct Ghost : Animal {}; // registered or not
struct Stray : Animal {}; // registered or not; no overrider
struct Pup : Animal {};   // registered or not; result of an overrider
enum { ANIMAL, DOG, CAT, BULLDOG, LONER, GHOST, STRAY, NCLS, PUP = NCLS, NTYPES };
inline const char* cls_names[] = {"Animal", "Dog",   "Cat",   "Bulldog",
                                  "Loner",  "Ghost", "Stray", "Pup"};

Animal& object(int cls);

// What the handlers do, and what happened; lives in memory shared with the
// children in which fatal errors are tried.
enum Behaviour {
    B_THROW,     // throws Thrown
    B_THROW_INT, // throws an int
    B_THROW_VARIANT,
    B_NESTED,    // calls a method, then throws
    B_RETURN,
    B_EXIT,
    B_DEFAULT, // the default function
    NBEH
};
inline const char* beh_names[] = {
    "throws an exception", "throws an int", "throws the error",
    "calls a method, then throws", "returns", "exits", "default"};
struct Log {
    int handler_calls;
    int handler_reg;  // which registry's handler
    int handler_fn;   // which function, for default_error_handler
    Rec rec;
    int executed;     // overriders
    int completed;    // the operation returned
    int what_len;
    char what[600];   // written to the output stream, or exception's what()
};
extern Log* log_;
struct Thrown {
    int reg;
};
struct Boom {
    int code;
};

// One registry and its methods.
struct Sys {
    virtual ~Sys() = default;
    std::string name;
    int id = 0;
    enum HK { DEFAULT, THROW, CUSTOM, NONE } hk = NONE;
    bool checks = false, output = false;
    Behaviour beh = B_THROW;
    int fn_id = 0;
    virtual void classes(bool) = 0;
    virtual void loner_alone(bool) = 0;
    virtual void loner(bool) = 0;
    virtual void ghost(bool) = 0;
    virtual void stray(bool) = 0;
    virtual void pup(bool) = 0;
    virtual void initialize() = 0;
    virtual void finalize() = 0;
    // returns the previous function's number
    virtual int set_handler(Behaviour, int fn_id) = 0;
    virtual int call(int m, Animal& a, Animal& b) = 0;
    virtual tid method_id(int m) = 0;
    virtual tid type(int cls) = 0;
    virtual std::string take_output() = 0;
};

enum { POKE, KICK, MEET, RELAY, BOOM, FINALIZE_PTR, CHAIN, BREED, NOPS };
inline const char* op_names[] = {
    "poke(virtual_ptr)", "kick(virtual_<T&>)", "meet", "relay, which calls poke",
    "boom, which throws", "virtual_ptr<Animal>::final", "chain, which calls next",
    "breed, which returns a class"};

struct Custom : pol::error_handler {
    template<class Registry>
    struct fn {
        static inline std::function<void(const Rec&)> f;
        template<class Error>
        static void error(const Error& e) {
            Rec r;
            fill(r, e);
            if (f)
                f(r);
        }
    };
};

struct Capture : pol::output {
    template<class Registry>
    struct fn {
        static inline std::ostringstream os;
    };
};

// A custom rtti policy, with names of its own.
struct Named : pol::rtti {
    template<class Registry>
    struct fn : defaults {
        template<class C>
        static constexpr bool is_polymorphic = std::is_base_of_v<Animal, C>;
        template<class C>
        static tid static_type() {
            return &typeid(C);
        }
        template<class C>
        static tid dynamic_type(const C& c) {
            return &typeid(c);
        }
        template<class S>
        static void type_name(tid t, S& s) {
            s << "the class with the name "
              << static_cast<const std::type_info*>(t)->name();
        }
        template<typename D, typename B>
        static auto dynamic_cast_ref(B&& obj) -> D {
            return dynamic_cast<D>(obj);
        }
    };
};

template<class T>
struct Toggle {
    // registration objects have static storage in user programs
    alignas(T) static inline unsigned char mem[sizeof(T)];
    static inline T* p = nullptr;
    static void set(bool on) {
        if (on && !p) {
            memset(mem, 0, sizeof mem);
            p = new (mem) T;
        } else if (!on && p) {
            p->~T();
            p = nullptr;
        }
    }
};

template<class Reg>
struct Meths {
    using VP = bom::virtual_ptr<Animal, Reg>;
    template<class T>
    using vp = bom::virtual_ptr<T, Reg>;
    template<class T>
    using vr = bom::virtual_<T>;

    struct poke_id;
    using poke = bom::method<poke_id, int(VP), Reg>;
    static int poke_dog(vp<Dog> d) {
        ++log_->executed;
        return 10 + d->value;
    }
    static int poke_bulldog(vp<Bulldog> d) {
        ++log_->executed;
        return 20 + d->value;
    }
    static int poke_ghost(vp<Ghost>) {
        ++log_->executed;
        return 30;
    }
    static int poke_loner(vp<Loner>) {
        ++log_->executed;
        return 40;
    }
    struct kick_id;
    using kick = bom::method<kick_id, int(vr<Animal&>, int), Reg>;
    static int kick_dog(Dog&, int i) {
        ++log_->executed;
        return 50 + i;
    }
    static int kick_cat(Cat&, int i) {
        ++log_->executed;
        return 60 + i;
    }
    struct meet_id;
    using meet = bom::method<meet_id, int(vr<Animal&>, int, VP), Reg>;
    static int meet_da(Dog&, int i, VP) {
        ++log_->executed;
        return 70 + i;
    }
    static int meet_ad(Animal&, int i, vp<Dog>) {
        ++log_->executed;
        return 80 + i;
    }
    static int meet_bb(Bulldog&, int i, vp<Bulldog>) {
        ++log_->executed;
        return 90 + i;
    }
    struct relay_id;
    using relay = bom::method<relay_id, int(vr<const Animal&>, VP), Reg>;
    static int relay_a(const Animal&, VP b) {
        ++log_->executed;
        return 100 + poke::fn(b);
    }
    struct boom_id;
    using boom = bom::method<boom_id, int(VP), Reg>;
    static int boom_a(VP) {
        ++log_->executed;
        throw Boom{Reg::has_runtime_checks};
    }
    struct chain_id;
    using chain = bom::method<chain_id, int(VP), Reg>;
    static int chain_bulldog(vp<Bulldog>);
    static int chain_dog(vp<Dog>);

    struct breed_id;
    using breed = bom::method<breed_id, Animal*(VP), Reg>;
    static Animal* breed_dog(vp<Dog> d) {
        ++log_->executed;
        return d.get();
    }
    static Pup* breed_bulldog(vp<Bulldog>) {
        ++log_->executed;
        static Pup pup;
        return &pup;
    }

    static inline typename poke::template override<poke_dog, poke_bulldog, poke_ghost, poke_loner> r1;
    static inline typename kick::template override<kick_dog, kick_cat> r2;
    static inline typename meet::template override<meet_da, meet_ad, meet_bb> r3;
    static inline typename relay::template override<relay_a> r4;
    static inline typename boom::template override<boom_a> r5;
    static inline typename chain::template override<chain_bulldog> r6;
    static inline typename chain::template override<chain_dog> r7;
    static inline typename breed::template override<breed_dog, breed_bulldog> r8;
    static void touch() {
        (void)&r1, (void)&r2, (void)&r3, (void)&r4, (void)&r5, (void)&r6,
            (void)&r7, (void)&r8;
    }
};
template<class Reg>
int Meths<Reg>::chain_bulldog(vp<Bulldog> b) {
    ++log_->executed;
    return 200 + chain::template next<chain_bulldog>(b);
}
template<class Reg>
int Meths<Reg>::chain_dog(vp<Dog> d) {
    ++log_->executed;
    return 300 + chain::template next<chain_dog>(d); // there is none
}

template<class Reg>
struct SysT : Sys {
    using M = Meths<Reg>;
    template<class H>
    static constexpr bool is =
        std::is_same_v<typename Reg::error_handler, typename H::template fn<typename Reg::registry_type>>;

    static inline SysT* self;
    SysT(const char* n, int id) {
        self = this;
        name = n;
        this->id = id;
        checks = Reg::has_runtime_checks;
        output = Reg::has_output;
        if constexpr (!Reg::has_error_handler)
            hk = NONE;
        else if constexpr (is<pol::default_error_handler>)
            hk = DEFAULT;
        else if constexpr (is<pol::throw_error_handler>)
            hk = THROW;
        else
            hk = CUSTOM;
        beh = hk == DEFAULT ? B_DEFAULT : B_THROW;
        if (hk == CUSTOM)
            set_handler(B_THROW, 0);
        M::touch();
    }

    void classes(bool on) override {
        Toggle<bom::use_classes<Animal, Dog, Cat, Bulldog, Reg>>::set(on);
    }
    void loner_alone(bool on) override {
        Toggle<bom::use_classes<Loner, Reg>>::set(on);
    }
    void loner(bool on) override {
        Toggle<bom::use_classes<Animal, Loner, Reg>>::set(on);
    }
    void ghost(bool on) override {
        Toggle<bom::use_classes<Animal, Ghost, Reg>>::set(on);
    }
    void stray(bool on) override {
        Toggle<bom::use_classes<Animal, Stray, Reg>>::set(on);
    }
    void pup(bool on) override {
        Toggle<bom::use_classes<Animal, Pup, Reg>>::set(on);
    }
    void initialize() override {
        bom::initialize<Reg>();
    }
    void finalize() override {
        bom::finalize<Reg>();
    }

    // what a handler does after recording the error
    static void act(Behaviour beh, const Rec& r, int fn, const void* variant) {
        ++log_->handler_calls;
        log_->handler_reg = self->id;
        log_->handler_fn = fn;
        log_->rec = r;
        switch (beh) {
        case B_THROW:
            throw Thrown{self->id};
        case B_THROW_INT:
            throw int(1000 + self->id);
        case B_THROW_VARIANT:
            if constexpr (is<pol::default_error_handler>)
                throw *static_cast<
                    const typename Reg::error_handler::error_variant*>(variant);
            throw Thrown{self->id};
        case B_NESTED: {
            // the registry is initialized when this is used
            int saved = log_->executed;
            int v = self->call(KICK, object(DOG), object(DOG));
            log_->executed = saved;
            if (v != 55)
                log_->handler_calls += 100;
            throw Thrown{self->id};
        }
        case B_EXIT:
            _Exit(7);
        default:
            return;
        }
    }

    int set_handler(Behaviour b, int fn) override {
        int previous = fn_id;
        [[maybe_unused]] Behaviour before = beh;
        beh = b;
        fn_id = fn;
        if constexpr (is<pol::default_error_handler>) {
            using H = typename Reg::error_handler;
            typename H::function_type old;
            if (b == B_DEFAULT) {
                old = H::set(H::default_handler);
            } else {
                old = H::set([b, fn](const typename H::error_variant& v) {
                    Rec r;
                    std::visit([&r](auto&& e) { fill(r, e); }, v);
                    act(b, r, fn, &v);
                });
            }
            // which one was it?
            if (!old)
                return -1;
            if (before == B_EXIT || before == B_NESTED)
                return previous;
            auto saved = *log_;
            log_->handler_calls = 0;
            log_->handler_fn = 0;
            try {
                old(typename H::error_variant(bom::not_initialized()));
            } catch (...) {
            }
            previous = log_->handler_fn;
            *log_ = saved;
        } else if constexpr (Reg::has_error_handler && !is<pol::throw_error_handler>) {
            Reg::error_handler::f = [b, fn](const Rec& r) {
                act(b, r, fn, nullptr);
            };
        }
        return previous;
    }

    int call(int m, Animal& a, Animal& b) override {
        switch (m) {
        case POKE:
            return M::poke::fn(a);
        case KICK:
            return M::kick::fn(a, 5);
        case MEET:
            return M::meet::fn(a, 6, b);
        case RELAY:
            return M::relay::fn(a, b);
        case BOOM:
            return M::boom::fn(a);
        case CHAIN:
            return M::chain::fn(a);
        case BREED: {
            Animal* p = M::breed::fn(a);
            return p == &a ? 500 : dynamic_cast<Pup*>(p) ? 510 : 501;
        }
        case FINALIZE_PTR: {
            auto p = bom::final_virtual_ptr<Reg>(a);
            return p.get() == &a ? 400 : 401;
        }
        }
        return -1;
    }
    template<class T>
    static tid st() {
        return Reg::rtti::template static_type<T>();
    }
    tid method_id(int m) override {
        switch (m) {
        case POKE:
            return st<typename M::poke>();
        case KICK:
            return st<typename M::kick>();
        case MEET:
            return st<typename M::meet>();
        case RELAY:
            return st<typename M::relay>();
        case BOOM:
            return st<typename M::boom>();
        case CHAIN:
            return st<typename M::chain>();
        case BREED:
            return st<typename M::breed>();
        }
        return nullptr;
    }
    tid type(int c) override {
        switch (c) {
        case ANIMAL:
            return st<Animal>();
        case DOG:
            return st<Dog>();
        case CAT:
            return st<Cat>();
        case BULLDOG:
            return st<Bulldog>();
        case LONER:
            return st<Loner>();
        case GHOST:
            return st<Ghost>();
        case PUP:
            return st<Pup>();
        default:
            return st<Stray>();
        }
    }
    std::string take_output() override {
        if constexpr (Reg::has_output) {
            if constexpr (std::is_same_v<typename Reg::output, typename Capture::fn<typename Reg::registry_type>>) {
                auto s = Reg::output::os.str();
                Reg::output::os.str("");
                return s;
            }
        }
        return "";
    }
};

Sys* make_default(int);
Sys* make_default_map(int);
Sys* make_default_quiet(int);
Sys* make_default_unchecked(int);
Sys* make_throw(int);
Sys* make_throw_unchecked(int);
Sys* make_custom(int);
Sys* make_custom_ind(int);
Sys* make_none(int);
Sys* make_none_unchecked(int);
Sys* make_stderr(int);

} // namespace err
