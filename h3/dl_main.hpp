// Histories of loading and unloading libraries (included by the generated main).
#pragma once

#include <dlfcn.h>
#include <sys/wait.h>
#include <unistd.h>

#include <algorithm>
#include <random>

namespace dl {

struct Over {
    int method, module;
    std::vector<int> params;
    bool next;
};
struct Meth {
    unsigned users; // modules that can call it
    std::vector<int> cls;
    bool all_vp;
};

// tables written by the generator
extern const int n_classes, n_modules;
extern const bool derives[][16];
extern const unsigned registered[]; // modules that register a class
extern const std::vector<Meth> methods;
extern const std::vector<Over> overriders;
extern const bool indirect, global;
void initialize();
void finalize();

inline std::vector<int> best(const std::vector<int>& app) {
    auto dominates = [](const Over& a, const Over& b) {
        bool some = false;
        for (std::size_t i = 0; i < a.params.size(); ++i) {
            if (a.params[i] == b.params[i])
                continue;
            if (derives[b.params[i]][a.params[i]])
                return false;
            if (derives[a.params[i]][b.params[i]])
                some = true;
        }
        return some;
    };
    std::vector<int> top;
    for (int a : app) {
        bool dominated = false;
        for (int b : app)
            dominated |= b != a && dominates(overriders[b], overriders[a]);
        if (!dominated)
            top.push_back(a);
    }
    return top;
}

// What the documentation promises for the modules in mask: the overriders that
// run, -1 for no overrider, -2 for an ambiguity.
inline std::vector<int> expected(int m, std::vector<int> args, unsigned mask) {
    std::vector<int> res, skip;
    for (;;) {
        std::vector<int> app;
        for (int i = 0; i < int(overriders.size()); ++i) {
            auto& o = overriders[i];
            if (o.method != m || !(mask >> o.module & 1) ||
                std::count(skip.begin(), skip.end(), i))
                continue;
            bool ok = true;
            for (std::size_t j = 0; j < args.size(); ++j)
                ok &= derives[args[j]][o.params[j]];
            if (ok)
                app.push_back(i);
        }
        auto top = best(app);
        if (top.size() != 1) {
            if (res.empty())
                res.push_back(top.empty() ? -1 : -2);
            return res;
        }
        res.push_back(top[0]);
        if (!overriders[top[0]].next)
            return res;
        skip.push_back(top[0]);
        args = overriders[top[0]].params;
    }
}

struct Object {
    int cls, module;
    rt::dl_object o;
    ~Object() {
        o.destroy(o.whole);
    }
};
struct Vp {
    Object* obj;
    int base, module;
    void* p;
    void (*drop)(void*);
    ~Vp() {
        drop(p);
    }
};

struct World {
    std::mt19937 rng;
    std::vector<std::string> log;
    std::vector<void*> handles[8];
    rt::dl_module* mod[8] = {};
    std::vector<std::unique_ptr<Object>> objs;
    std::vector<std::unique_ptr<Vp>> vps;
    unsigned snapshot = 0;
    bool initialized = false, unloaded = false;
    long calls = 0, errors = 0, inits = 0, opens = 0, closes = 0;

    explicit World(unsigned seed) : rng(seed) {
        mod[0] = rt::dl_exe();
    }
    int u(int n) {
        return int(rng() % unsigned(n));
    }
    void fail(const std::string& what) {
        std::string s = what + "\nafter:";
        for (auto& l : log)
            s += "\n  " + l;
        rt::fail(s);
    }
    unsigned loaded() {
        unsigned m = 1;
        for (int i = 1; i < n_modules; ++i)
            m |= unsigned(rt::dl_loaded[i] > 0) << i;
        return m;
    }
    bool dirty() {
        return !initialized || unloaded;
    }

    void open(int i) {
        std::string name = "./lib" + std::to_string(i) + ".so";
        log.push_back("dlopen " + name);
        void* h = dlopen(name.c_str(), RTLD_NOW | (global ? RTLD_GLOBAL : RTLD_LOCAL));
        if (!h)
            fail(std::string("dlopen: ") + dlerror());
        handles[i].push_back(h);
        auto f = reinterpret_cast<rt::dl_module* (*)()>(
            dlsym(h, ("dl_module_" + std::to_string(i)).c_str()));
        if (!f)
            fail("dlsym");
        mod[i] = f();
        if (handles[i].size() == 1 && mod[i]->own_initialize)
            mod[i]->own_initialize();
        ++opens;
    }
    void close(int i) {
        log.push_back("dlclose lib" + std::to_string(i));
        if (handles[i].size() == 1) {
            // nothing that may be in the library is left
            vps.erase(
                std::remove_if(
                    vps.begin(), vps.end(),
                    [&](auto& v) {
                        return v->module == i || v->obj->module == i ||
                            ((registered[v->obj->cls] >> i & 1) &&
                             !(registered[v->obj->cls] & 1));
                    }),
                vps.end());
            objs.erase(
                std::remove_if(
                    objs.begin(), objs.end(), [&](auto& o) { return o->module == i; }),
                objs.end());
            if (mod[i]->own_finalize)
                mod[i]->own_finalize();
            mod[i] = nullptr;
        }
        auto before = loaded();
        dlclose(handles[i].back());
        handles[i].pop_back();
        if (loaded() != before)
            unloaded = true;
        ++closes;
    }
    void init() {
        if (u(4) == 0) {
            log.push_back("finalize");
            finalize();
        }
        log.push_back("initialize");
        if (!indirect)
            vps.clear();
        initialize();
        snapshot = loaded();
        initialized = true;
        unloaded = false;
        ++inits;
    }
    bool usable(Object& o) {
        return (snapshot >> o.module & 1) && (registered[o.cls] >> o.module & 1);
    }

    // Calls method m from module i.
    void call(int i, int m, const std::vector<Object*>& args, void** kept) {
        void* p[4] = {};
        std::vector<int> cls;
        std::string what = "method " + std::to_string(m) + " from module " +
            std::to_string(i) + (kept ? ", kept virtual_ptrs, with" : ", with");
        for (std::size_t j = 0; j < args.size(); ++j) {
            p[j] = kept ? kept[j] : args[j]->o.base[methods[m].cls[j]];
            rt::want[j] = args[j]->o.whole;
            cls.push_back(args[j]->cls);
            what += " K" + std::to_string(args[j]->cls) + " of module " +
                std::to_string(args[j]->module);
        }
        auto e = expected(m, cls, snapshot);
        rt::entered.clear();
        int code = kept ? mod[i]->call_vp[m](p) : mod[i]->call[m](p);
        ++calls;
        if (e[0] < 0) {
            ++errors;
            if (code != e[0] || !rt::entered.empty())
                fail(what + ": expected error " + std::to_string(e[0]) + ", got " +
                     std::to_string(code) + ", ran" + rt::list(rt::entered));
            return;
        }
        if (rt::entered != e || code != e[0])
            fail(what + ": ran" + rt::list(rt::entered) + " instead of" + rt::list(e) +
                 ", returned " + std::to_string(code));
    }

    void calls_now(int n) {
        if (dirty())
            return;
        for (int k = 0; k < n; ++k) {
            int m = u(int(methods.size()));
            std::vector<int> is;
            for (int i = 0; i < n_modules; ++i)
                if ((methods[m].users >> i & 1) && (snapshot >> i & 1) && mod[i])
                    is.push_back(i);
            if (is.empty())
                continue;
            int i = is[u(int(is.size()))];
            std::vector<Object*> args;
            std::vector<void*> kept;
            bool with_vps = methods[m].all_vp && u(2) && !vps.empty();
            for (int c : methods[m].cls) {
                if (with_vps) {
                    std::vector<Vp*> ok;
                    for (auto& v : vps)
                        if (v->base == c && usable(*v->obj))
                            ok.push_back(v.get());
                    if (ok.empty())
                        break;
                    auto v = ok[u(int(ok.size()))];
                    args.push_back(v->obj);
                    kept.push_back(v->p);
                } else {
                    std::vector<Object*> ok;
                    for (auto& o : objs)
                        if (derives[o->cls][c] && usable(*o))
                            ok.push_back(o.get());
                    if (ok.empty())
                        break;
                    args.push_back(ok[u(int(ok.size()))]);
                }
            }
            if (args.size() == methods[m].cls.size())
                call(i, m, args, with_vps ? kept.data() : nullptr);
        }
        for (int i = 1; i < n_modules; ++i)
            if (mod[i] && mod[i]->own_call && mod[i]->own_call() != 4000 + i)
                fail("the registry of a library stopped working");
    }

    void make() {
        std::vector<std::pair<int, int>> ok;
        for (int i = 0; i < n_modules; ++i)
            for (int c = 0; c < n_classes; ++c)
                if (mod[i] && mod[i]->make[c])
                    ok.push_back({i, c});
        auto [i, c] = ok[u(int(ok.size()))];
        auto o = std::make_unique<Object>();
        o->cls = c;
        o->module = i;
        mod[i]->make[c](o->o);
        log.push_back("a K" + std::to_string(c) + " is made by module " + std::to_string(i));
        objs.push_back(std::move(o));
    }
    void make_vp() {
        if (dirty() || objs.empty())
            return;
        auto& o = *objs[u(int(objs.size()))];
        if (!usable(o))
            return;
        std::vector<std::pair<int, int>> ok;
        for (int i = 0; i < n_modules; ++i)
            for (int b = 0; b < n_classes; ++b)
                if (mod[i] && (snapshot >> i & 1) && mod[i]->make_vp[b] && derives[o.cls][b])
                    ok.push_back({i, b});
        if (ok.empty())
            return;
        auto [i, b] = ok[u(int(ok.size()))];
        auto v = std::make_unique<Vp>();
        v->obj = &o;
        v->base = b;
        v->module = i;
        v->p = mod[i]->make_vp[b](o.o.base[b]);
        v->drop = mod[i]->drop_vp[b];
        log.push_back("module " + std::to_string(i) + " makes a virtual_ptr<K" +
                      std::to_string(b) + "> to a K" + std::to_string(o.cls) + " of module " +
                      std::to_string(o.module));
        vps.push_back(std::move(v));
    }

    void run(int steps) {
        if (u(4))
            init();
        for (int s = 0; s < steps; ++s) {
            int i = 1 + u(n_modules - 1);
            switch (u(10)) {
            case 0:
            case 1:
                if (handles[i].size() < 2)
                    open(i);
                if (u(4))
                    init();
                break;
            case 2:
            case 3:
                if (!handles[i].empty())
                    close(i);
                if (u(4))
                    init();
                break;
            case 4:
                init();
                break;
            case 5:
            case 6:
                if (objs.size() < 30)
                    for (int k = u(4); k >= 0; --k)
                        make();
                break;
            case 7:
                if (!objs.empty()) {
                    auto k = u(int(objs.size()));
                    vps.erase(
                        std::remove_if(vps.begin(), vps.end(),
                                       [&](auto& v) { return v->obj == objs[k].get(); }),
                        vps.end());
                    objs.erase(objs.begin() + k);
                }
                break;
            default:
                if (vps.size() < 20)
                    for (int k = u(4); k >= 0; --k)
                        make_vp();
            }
            calls_now(8);
        }
        vps.clear();
        objs.clear();
        for (int i = 1; i < n_modules; ++i)
            while (!handles[i].empty())
                close(i);
        init();
        for (int k = 0; k < 6; ++k)
            make();
        calls_now(20);
        vps.clear();
        objs.clear();
    }
};

inline int main(int seed, int histories, int steps) {
    long calls = 0;
    for (int k = 0; k < histories; ++k) {
        int fd[2];
        if (pipe(fd))
            rt::fail("pipe");
        auto pid = fork();
        if (!pid) {
            long out[5];
            {
                World w(seed * 100 + k);
                try {
                    w.run(steps);
                } catch (bom::openmethod_error&) {
                    w.fail("an openmethod_error is thrown");
                }
                out[0] = w.calls;
            }
            if (write(fd[1], out, sizeof out[0]) < 0)
                _Exit(3);
            exit(0);
        }
        ::close(fd[1]);
        long got = 0;
        if (read(fd[0], &got, sizeof got) == sizeof got)
            calls += got;
        ::close(fd[0]);
        int status;
        waitpid(pid, &status, 0);
        if (status) {
            std::printf("history %d ends with %x\n", k, status);
            return 1;
        }
    }
    std::printf("calls %ld\n", calls);
    return 0;
}

} // namespace dl
