#include "../lib/pbt.hpp"
#include "err.hpp"

#include <csignal>
#include <fcntl.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/wait.h>
#include <unistd.h>

namespace err {

using pbt::Ctx;

Log* log_;

Animal& object(int cls) {
    static Animal animal;
    static Dog dog;
    static Cat cat;
    static Bulldog bulldog;
    static Loner loner;
    static Ghost ghost;
    static Stray stray;
    static Animal* all[] = {&animal, &dog,   &cat,  &bulldog,
                            &loner,  &ghost, &stray};
    return *all[cls];
}

static std::vector<Sys*>& systems() {
    static std::vector<Sys*> v = [] {
        std::vector<Sys*> r;
        int id = 0;
        for (auto f :
             {make_default, make_default_map, make_default_quiet,
              make_default_unchecked, make_throw, make_throw_unchecked,
              make_custom, make_custom_ind, make_none, make_none_unchecked,
              make_stderr})
            r.push_back(f(id++));
        return r;
    }();
    return v;
}

// What the model says an operation does.
struct Expect {
    bool skip = false;
    int value = 0;          // if there is no error
    bool boom = false;      // the overrider throws
    int executed = 0;
    std::vector<Rec> any;   // acceptable errors
};

struct State {
    bool classes = true, loner_alone = false, loner = true, ghost = true,
         stray = false, pup = true;
    bool inited = false, failed = false, dirty = false;
    bool stray_i = false; // when initialized
};

static Rec rec(Kind k, tid a = nullptr, tid b = nullptr) {
    Rec r;
    r.kind = k;
    r.a = a;
    r.b = b;
    return r;
}

static bool same(const Rec& a, const Rec& b) {
    if (a.kind != b.kind || a.a != b.a || a.b != b.b || a.method != b.method ||
        a.arity != b.arity)
        return false;
    for (std::size_t i = 0; i < a.arity && i < 4; ++i)
        if (a.types[i] != b.types[i])
            return false;
    return true;
}

static bool registered(const State& st, int c) {
    return c != STRAY || st.stray_i;
}

static Expect expect_call(Sys& s, const State& st, int m, int a, int b) {
    Expect e;
    if (st.failed || (st.inited && st.dirty)) {
        e.skip = true;
        return e;
    }
    if (!st.inited) {
        e.skip = !s.checks;
        e.any.push_back(rec(NOT_INIT));
        return e;
    }
    auto bad_call = [&](Kind k, int m, std::vector<int> types) {
        Rec r = rec(k);
        r.method = s.method_id(m);
        r.arity = types.size();
        for (std::size_t i = 0; i < types.size(); ++i)
            r.types[i] = s.type(types[i]);
        e.any.push_back(r);
    };
    bool uses_a = true, uses_b = m == MEET || m == RELAY;
    if (m == FINALIZE_PTR) {
        if (a != ANIMAL) {
            e.skip = !s.checks;
            e.any.push_back(rec(FINAL, s.type(ANIMAL), s.type(a)));
        }
        e.value = 400;
        return e;
    }
    if (uses_a && !registered(st, a))
        e.any.push_back(rec(MISSING_CLASS, s.type(a)));
    if (uses_b && !registered(st, b))
        e.any.push_back(rec(MISSING_CLASS, s.type(b)));
    if (!e.any.empty()) {
        e.skip = !s.checks;
        return e;
    }
    auto doggy = [](int c) { return c == DOG || c == BULLDOG; };
    auto poke = [&](int c) {
        switch (c) {
        case DOG:
            return 11;
        case BULLDOG:
            return 21;
        case GHOST:
            return 30;
        case LONER:
            return 40;
        }
        bad_call(NO_OVERRIDER, POKE, {c});
        return 0;
    };
    switch (m) {
    case POKE:
        e.value = poke(a);
        e.executed = e.any.empty();
        break;
    case KICK:
        if (doggy(a))
            e.value = 55;
        else if (a == CAT)
            e.value = 65;
        else
            bad_call(NO_OVERRIDER, KICK, {a});
        e.executed = e.any.empty();
        break;
    case MEET:
        if (a == BULLDOG && b == BULLDOG)
            e.value = 96;
        else if (doggy(a) && doggy(b))
            bad_call(AMBIGUOUS, MEET, {a, b});
        else if (doggy(a))
            e.value = 76;
        else if (doggy(b))
            e.value = 86;
        else
            bad_call(NO_OVERRIDER, MEET, {a, b});
        e.executed = e.any.empty();
        break;
    case RELAY:
        e.value = 100 + poke(b);
        e.executed = 1 + e.any.empty();
        break;
    case BOOM:
        e.boom = true;
        e.executed = 1;
        break;
    case BREED:
        if (doggy(a))
            e.value = a == DOG ? 500 : 510;
        else
            bad_call(NO_OVERRIDER, BREED, {a});
        e.executed = e.any.empty();
        break;
    case CHAIN:
        bad_call(NO_OVERRIDER, CHAIN, {a});
        e.executed = a == BULLDOG ? 2 : a == DOG ? 1 : 0;
        break;
    }
    return e;
}

static Expect expect_init(Sys& s, const State& st) {
    Expect e;
    if (!st.classes)
        for (int c : {DOG, CAT, BULLDOG})
            e.any.push_back(rec(MISSING_CLASS, s.type(c)));
    if (!st.pup)
        e.any.push_back(rec(MISSING_CLASS, s.type(PUP)));
    if (!st.classes && !st.loner && !st.ghost && !st.stray && !st.pup)
        e.any.push_back(rec(MISSING_CLASS, s.type(ANIMAL)));
    if (!st.ghost)
        e.any.push_back(rec(MISSING_CLASS, s.type(GHOST)));
    if (!st.loner)
        e.any.push_back(
            st.loner_alone ? rec(MISSING_BASE, s.type(ANIMAL), s.type(LONER))
                           : rec(MISSING_CLASS, s.type(LONER)));
    return e;
}

static std::string describe(Sys& s, const Rec& r) {
    auto n = [&](tid t) -> std::string {
        for (int i = 0; i < NTYPES; ++i)
            if (t == s.type(i))
                return cls_names[i];
        return t ? "?" : "-";
    };
    std::string d = names[r.kind];
    if (r.a || r.b)
        d += " (" + n(r.a) + ", " + n(r.b) + ")";
    if (r.arity) {
        d += " (";
        for (std::size_t i = 0; i < r.arity && i < 4; ++i)
            d += n(r.types[i]) + " ";
        d += ")";
        if (!r.method)
            d += " without method";
    }
    return d;
}

// The description must say what happened and to what classes.
static std::string text_problem(Sys& s, const Rec& r, const std::string& text) {
    auto has = [&](const std::string& w) { return text.find(w) != text.npos; };
    auto cls = [&](tid t) {
        for (int i = 0; i < NTYPES; ++i)
            if (t == s.type(i))
                return has(cls_names[i]);
        return false;
    };
    bool ok = true;
    switch (r.kind) {
    case NOT_INIT:
        ok = has("not initialized");
        break;
    case NO_OVERRIDER:
        ok = has("not implemented");
        break;
    case AMBIGUOUS:
        ok = has("ambiguous");
        break;
    case MISSING_CLASS:
        ok = cls(r.a);
        break;
    case MISSING_BASE:
    case FINAL:
        ok = cls(r.a) && cls(r.b);
        break;
    default:
        break;
    }
    return ok ? "" : "the text \"" + text + "\" does not describe " + describe(s, r);
}

static Sys* aborting;
static int err_fd = -1;

static void save_text(const std::string& s) {
    log_->what_len = int(std::min(s.size(), sizeof(log_->what) - 1));
    memcpy(log_->what, s.data(), log_->what_len);
    log_->what[log_->what_len] = 0;
}

static void on_abort(int) {
    auto s = aborting->take_output();
    if (err_fd >= 0) {
        char buf[600];
        lseek(err_fd, 0, SEEK_SET);
        auto n = read(err_fd, buf, sizeof buf);
        if (n > 0)
            s.append(buf, std::size_t(n));
    }
    save_text(s);
    signal(SIGABRT, SIG_DFL);
    raise(SIGABRT);
}

struct Seen {
    enum { RETURNED, THROWN, INT, VARIANT, LIB, BOOM_, UNKNOWN, ABORTED, EXITED, DIED } how = RETURNED;
    int value = 0;
    int reg = -1;
    Rec rec; // LIB and VARIANT
    std::string text;
};
static const char* how_names[] = {
    "returned", "threw the handler's exception", "threw the handler's int",
    "threw the error variant", "threw the error", "threw the overrider's exception",
    "threw something else", "aborted", "exited", "died"};

// Catches what throw_error_handler throws, in every documented way.
static void catch_lib(Seen& seen) {
    seen.how = Seen::UNKNOWN;
    try {
        throw;
    } catch (std::runtime_error& e) {
        seen.text = e.what();
        try {
            throw;
        } catch (bom::openmethod_error&) {
            seen.how = Seen::LIB;
            try {
                throw;
            } catch (bom::not_initialized& e) {
                fill(seen.rec, e);
            } catch (bom::no_overrider& e) {
                fill(seen.rec, e);
            } catch (bom::ambiguous_call& e) {
                fill(seen.rec, e);
            } catch (bom::missing_class& e) {
                fill(seen.rec, e);
            } catch (bom::missing_base& e) {
                fill(seen.rec, e);
            } catch (bom::final_error& e) {
                fill(seen.rec, e);
            } catch (...) {
                seen.rec.kind = OTHER;
            }
        } catch (...) {
        }
    } catch (...) {
    }
}

template<class Variant>
static bool catch_variant(Seen& seen) {
    try {
        throw;
    } catch (Variant& v) {
        seen.how = Seen::VARIANT;
        std::visit([&](auto&& e) { fill(seen.rec, e); }, v);
        return true;
    } catch (...) {
        return false;
    }
}

static Seen in_process(const std::function<int()>& f) {
    Seen seen;
    *log_ = Log();
    try {
        seen.value = f();
        log_->completed = 1;
    } catch (Thrown& t) {
        seen.how = Seen::THROWN;
        seen.reg = t.reg;
    } catch (int i) {
        seen.how = Seen::INT;
        seen.reg = i - 1000;
    } catch (Boom&) {
        seen.how = Seen::BOOM_;
    } catch (std::exception&) {
        catch_lib(seen);
    } catch (...) {
        seen.how = Seen::VARIANT; // compared with the log
    }
    return seen;
}

static Seen in_child(Sys& s, const std::function<int()>& f) {
    Seen seen;
    *log_ = Log();
    fflush(nullptr);
    int fd = memfd_create("stderr", 0);
    auto pid = fork();
    if (pid < 0) {
        close(fd);
        throw pbt::Discard();
    }
    if (pid == 0) {
        struct rlimit rl = {0, 0};
        setrlimit(RLIMIT_CORE, &rl);
        for (int sig : {SIGSEGV, SIGBUS, SIGFPE, SIGILL})
            signal(sig, SIG_DFL);
        dup2(fd, 2);
        err_fd = fd;
        aborting = &s;
        signal(SIGABRT, on_abort);
        signal(SIGALRM, SIG_DFL);
        alarm(30);
        try {
            f();
            log_->completed = 1;
        } catch (...) {
            log_->completed = 2;
        }
        _Exit(0);
    }
    int status = 0;
    waitpid(pid, &status, 0);
    close(fd);
    if (WIFEXITED(status)) {
        seen.how = Seen::EXITED;
        seen.value = WEXITSTATUS(status);
    } else if (WIFSIGNALED(status) && WTERMSIG(status) == SIGABRT) {
        seen.how = Seen::ABORTED;
    } else {
        seen.how = Seen::DIED;
        seen.value = WIFSIGNALED(status) ? WTERMSIG(status) : -1;
    }
    seen.text = std::string(log_->what, std::size_t(log_->what_len));
    return seen;
}

// Runs an operation and compares with what is expected.
static void check(
    Ctx& c, Sys& s, const Expect& e, const std::string& what,
    const std::function<int()>& f) {
    auto& all = systems();
    for (auto x : all)
        x->take_output();
    bool error = !e.any.empty();
    bool fatal = error &&
        (s.hk == Sys::NONE ||
         (s.hk != Sys::THROW &&
          (s.beh == B_RETURN || s.beh == B_EXIT || s.beh == B_DEFAULT)));
    std::string ctx = what + " in the registry with " + s.name;
    if (error && s.hk != Sys::THROW && s.hk != Sys::NONE)
        ctx += std::string(", whose handler ") + beh_names[s.beh];
    std::string expected = error ? describe(s, e.any[0]) : "no error";
    auto seen = fatal ? in_child(s, f) : in_process(f);
    auto got = [&] {
        std::string r = std::string(how_names[seen.how]) + " " +
            std::to_string(seen.value);
        r += ", handler called " + std::to_string(log_->handler_calls) + " times";
        if (log_->handler_calls)
            r += " with " + describe(s, log_->rec);
        if (seen.rec.kind)
            r += ", error " + describe(s, seen.rec);
        if (!seen.text.empty())
            r += ", text \"" + seen.text + "\"";
        return r;
    };
    auto fail = [&](const std::string& why) {
        c.fail(ctx + ": expected " + expected + "; " + why + " (" + got() + ")");
    };
    if (!fatal)
        for (auto x : all) {
            auto o = x->take_output();
            if (!o.empty())
                fail("\"" + o + "\" was written to the output of the registry with " + x->name);
        }
    if (log_->executed != e.executed)
        fail(std::to_string(log_->executed) + " overriders ran instead of " +
             std::to_string(e.executed));
    if (!error) {
        if (log_->handler_calls)
            fail("the handler was called");
        if (e.boom) {
            if (seen.how != Seen::BOOM_)
                fail("the overrider's exception did not come out");
            return;
        }
        if (seen.how != Seen::RETURNED)
            fail("it did not return");
        if (seen.value != e.value)
            fail("value " + std::to_string(seen.value) + " instead of " +
                 std::to_string(e.value));
        return;
    }
    c.label(std::string("errors: ") + expected.substr(0, expected.find(' ')));
    c.label(std::string("errors in ") + s.name);
    c.nontrivial = true;
    auto matches = [&](const Rec& r) {
        for (auto& a : e.any)
            if (same(a, r))
                return true;
        return false;
    };
    bool recorded = (s.hk == Sys::DEFAULT && s.beh != B_DEFAULT) || s.hk == Sys::CUSTOM;
    if (log_->handler_calls != (recorded ? 1 : 0))
        fail("the handler should be called " + std::to_string(recorded ? 1 : 0) + " times");
    if (recorded) {
        if (log_->handler_reg != s.id || log_->handler_fn != s.fn_id)
            fail("the wrong handler was called");
        if (!matches(log_->rec))
            fail("the handler did not get the right error");
    }
    if (log_->completed)
        fail("the operation went on");
    switch (s.hk) {
    case Sys::NONE:
        if (seen.how != Seen::ABORTED)
            fail("the program should be aborted");
        if (!seen.text.empty())
            fail("there is no handler, nothing should be written");
        return;
    case Sys::THROW:
        if (seen.how != Seen::LIB)
            fail("the exception should be the error and a runtime_error");
        if (!matches(seen.rec))
            fail("the exception is not the right error");
        if (auto p = text_problem(s, seen.rec, seen.text); !p.empty())
            fail("what(): " + p);
        return;
    default:
        break;
    }
    switch (s.beh) {
    case B_THROW:
    case B_NESTED:
        if (seen.how != Seen::THROWN || seen.reg != s.id)
            fail("the exception should reach the caller");
        break;
    case B_THROW_INT:
        if (seen.how != Seen::INT || seen.reg != s.id)
            fail("the exception should reach the caller");
        break;
    case B_THROW_VARIANT:
        if (s.hk == Sys::CUSTOM ? seen.how != Seen::THROWN : seen.how != Seen::VARIANT)
            fail("the exception should reach the caller");
        break;
    case B_RETURN:
        if (seen.how != Seen::ABORTED)
            fail("the handler returned, the program should be aborted");
        if (!seen.text.empty())
            fail("nothing should be written");
        break;
    case B_EXIT:
        if (seen.how != Seen::EXITED || seen.value != 7)
            fail("the handler ended the program with status 7");
        break;
    case B_DEFAULT:
        if (seen.how != Seen::ABORTED)
            fail("the default handler returns, the program should be aborted");
        if (!s.output) {
            if (!seen.text.empty())
                fail("there is no output policy, nothing should be written");
        } else {
            std::string p = "?";
            for (auto& r : e.any)
                if (!p.empty())
                    p = text_problem(s, r, seen.text);
            if (!p.empty())
                fail(p);
            if (seen.text.back() != '\n' ||
                std::count(seen.text.begin(), seen.text.end(), '\n') != 1)
                fail("the description should be one line");
        }
        break;
    default:
        break;
    }
}

static void p_errors(Ctx& c) {
    if (!log_) {
        void* p = mmap(
            nullptr, sizeof(Log), PROT_READ | PROT_WRITE,
            MAP_SHARED | MAP_ANONYMOUS, -1, 0);
        if (p == MAP_FAILED)
            exit(3);
        log_ = new (p) Log();
    }
    auto& all = systems();
    struct Reset {
        void operator()() {
            for (auto s : systems()) {
                s->finalize();
                s->ghost(true);
                s->stray(false);
                s->pup(true);
                s->loner_alone(false);
                s->loner(true);
                s->classes(true);
                s->set_handler(s->hk == Sys::DEFAULT ? B_DEFAULT : B_THROW, 0);
                s->fn_id = 0;
                s->take_output();
            }
        }
        ~Reset() {
            operator()();
        }
    } reset;
    reset();
    int n = 1 + int(c.t.u(3));
    std::vector<int> use;
    for (int i = 0; i < n; ++i) {
        int k = int(c.t.u(uint32_t(all.size())));
        if (std::find(use.begin(), use.end(), k) == use.end())
            use.push_back(k);
    }
    std::vector<State> states(all.size());
    int steps = 2 + int(c.t.u(16)), fns = 0;
    for (int step = 0; step < steps; ++step) {
        int k = c.t.pick(use);
        auto& s = *all[k];
        auto& st = states[k];
        // most registries are initialized first
        uint32_t op = !st.inited && !st.failed && c.t.chance(2, 3) ? 0 : c.t.u(12);
        switch (op) {
        case 0:
        case 1: { // initialize
            auto e = expect_init(s, st);
            if (!e.any.empty() && s.beh == B_NESTED && s.hk != Sys::NONE && s.hk != Sys::THROW)
                continue;
            if (c.verbose)
                c.desc << "initialize [" << s.name << "]\n";
            check(c, s, e, "initialize", [&] {
                s.initialize();
                return 0;
            });
            if (e.any.empty()) {
                st.inited = true;
                st.failed = st.dirty = false;
                st.stray_i = st.stray;
            } else if (s.hk == Sys::THROW || (s.hk != Sys::NONE && s.beh != B_RETURN && s.beh != B_EXIT && s.beh != B_DEFAULT)) {
                // (the others failed in another process)
                if (st.inited)
                    st.failed = true;
            }
            break;
        }
        case 2: { // finalize
            if (c.t.chance(1, 2))
                continue;
            if (c.verbose)
                c.desc << "finalize [" << s.name << "]\n";
            s.finalize();
            st.inited = st.failed = false;
            break;
        }
        case 3: { // change the registration
            int what = int(c.t.u(6));
            static const char* w[] = {"class Ghost", "class Stray", "class Loner", "class Loner alone", "the classes", "class Pup"};
            if (c.verbose)
                c.desc << "toggle " << w[what] << " [" << s.name << "]\n";
            switch (what) {
            case 0:
                s.ghost(st.ghost = !st.ghost);
                break;
            case 1:
                s.stray(st.stray = !st.stray);
                break;
            case 2:
                s.loner(st.loner = !st.loner);
                break;
            case 3:
                s.loner_alone(st.loner_alone = !st.loner_alone);
                break;
            case 5:
                s.pup(st.pup = !st.pup);
                break;
            case 4:
                if (c.t.chance(3, 4))
                    continue;
                s.classes(st.classes = !st.classes);
            }
            st.dirty = true;
            break;
        }
        case 4: { // change the handler
            if (s.hk == Sys::NONE || s.hk == Sys::THROW)
                continue;
            auto b = Behaviour(c.t.u(s.hk == Sys::DEFAULT ? NBEH : B_DEFAULT));
            int fn = b == B_DEFAULT ? 0 : ++fns;
            int before = s.fn_id;
            if (c.verbose)
                c.desc << "handler " << fn << " that " << beh_names[b] << " [" << s.name << "]\n";
            int old = s.set_handler(b, fn);
            s.take_output();
            if (s.hk == Sys::DEFAULT && old != before)
                c.fail("set(handler " + std::to_string(fn) + ") in " + s.name + " returned handler " +
                       std::to_string(old) + " instead of " + std::to_string(before));
            break;
        }
        default: { // use
            int m = int(c.t.u(NOPS)), a = int(c.t.u(NCLS)), b = int(c.t.u(NCLS));
            auto e = expect_call(s, st, m, a, b);
            if (e.skip)
                continue;
            if (!e.any.empty() && e.any[0].kind == NOT_INIT && s.beh == B_NESTED)
                continue;
            std::string what = std::string(op_names[m]) + " with " + cls_names[a];
            if (m == MEET || m == RELAY)
                what += std::string(", ") + cls_names[b];
            if (c.verbose)
                c.desc << what << " [" << s.name << "]\n";
            c.hash((m * 8 + a) * 8 + b);
            check(c, s, e, what, [&] { return s.call(m, object(a), object(b)); });
            // the registry is still usable
            if (st.inited && !st.dirty && !e.any.empty() && c.t.chance(1, 2)) {
                auto ok = expect_call(s, st, KICK, CAT, CAT);
                check(c, s, ok, "kick(virtual_<T&>) with Cat after that", [&] {
                    return s.call(KICK, object(CAT), object(CAT));
                });
            }
        }
        }
        c.hash(uint64_t(k));
    }
}

} // namespace err

int main(int argc, char** argv) {
    std::map<std::string, pbt::Property> props;
    props["C14"] = {err::p_errors, "at least one error occurred"};
    return pbt::main(argc, argv, props);
}
