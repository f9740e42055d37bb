// The perfect hash of type ids: many classes, many ids, arbitrary values.
#include "../lib/pbt.hpp"

#include <boost/openmethod.hpp>
#include <boost/openmethod/initialize.hpp>
#include <boost/openmethod/policies/fast_perfect_hash.hpp>
#include <boost/openmethod/policies/throw_error_handler.hpp>
#include <boost/openmethod/policies/vptr_vector.hpp>

#include <cmath>
#include <set>
#include <unordered_map>

namespace bom = boost::openmethod;
namespace pol = boost::openmethod::policies;
using bom::type_id;

constexpr int NREC = 140;
static type_id table[NREC];
static std::unordered_map<type_id, int> class_of; // id -> class

struct Node {
    type_id type;
};
template<int I>
struct X;
template<>
struct X<0> : Node {};
template<int I>
struct X : X<0> {};

template<class T>
struct rec_of : std::integral_constant<int, -1> {};
template<int I>
struct rec_of<X<I>> : std::integral_constant<int, I> {};

struct my_rtti : pol::deferred_static_rtti {
    template<class>
    struct fn : defaults {
        template<class T>
        static constexpr bool is_polymorphic = std::is_base_of_v<Node, T>;
        template<class T>
        static auto static_type() -> type_id {
            static char other;
            if constexpr (rec_of<T>::value >= 0)
                return table[rec_of<T>::value];
            else
                return &other;
        }
        template<class T>
        static auto dynamic_type(const T& x) -> type_id {
            if constexpr (std::is_base_of_v<Node, T>)
                return x.type;
            else
                return nullptr;
        }
        static auto type_index(type_id t) -> std::uint64_t {
            auto i = class_of.find(t);
            return i == class_of.end() ? std::uint64_t(t) * 2 + 1
                                       : std::uint64_t(i->second) * 2;
        }
        template<typename D, typename B>
        static auto dynamic_cast_ref(B&& x) -> D {
            return static_cast<D>(x);
        }
    };
};

// A user-written vptr policy, that uses the hash as documented.
struct my_vptr : pol::vptr {
    template<class R>
    struct fn {
        inline static std::size_t min_value, max_value;
        inline static std::vector<bom::vptr_type> vptrs;
        using hash = typename R::template policy<pol::type_hash>;

        template<class Context, class... Options>
        static void initialize(const Context& ctx, const std::tuple<Options...>& opts) {
            auto range = hash::initialize(ctx, opts);
            min_value = range.first;
            max_value = range.second;
            vptrs.assign(max_value - min_value + 1, nullptr);
            for (auto c = ctx.classes_begin(); c != ctx.classes_end(); ++c)
                for (auto t = c->type_id_begin(); t != c->type_id_end(); ++t)
                    vptrs.at(hash::hash(*t) - min_value) = c->vptr();
        }
        template<class C>
        static auto dynamic_vptr(const C& x) -> const bom::vptr_type& {
            return vptrs.at(hash::hash(R::rtti::dynamic_type(x)) - min_value);
        }
    };
};

template<class... P>
using hashed = bom::registry<my_rtti, pol::fast_perfect_hash, pol::throw_error_handler, P...>;
struct r_vec : hashed<pol::vptr_vector> {};
struct r_vec_chk : hashed<pol::vptr_vector, pol::runtime_checks> {};
struct r_ind_chk : hashed<pol::vptr_vector, pol::runtime_checks, pol::indirect_vptr> {};
struct r_mine : hashed<my_vptr> {};
struct r_mine_chk : hashed<my_vptr, pol::runtime_checks> {};

struct Records {
    virtual ~Records() = default;
    const char* name;
    bool checks;
    virtual void add(int i) = 0;
    virtual void remove(int i) = 0;
    virtual int initialize(std::size_t& attempts, std::size_t& buckets) = 0;
    virtual void finalize() = 0;
    virtual std::size_t hash(type_id t) = 0;
    virtual int lookup(type_id t) = 0; // record whose v-table pointer was found
    virtual bool reported(type_id t, int how) = 0;
    virtual int call(type_id t) = 0;
    virtual bool range(std::size_t& lo, std::size_t& hi) = 0;
};

template<class R>
struct Impl : Records {
    using Hash = typename R::template policy<pol::type_hash>;
    struct m_id;
    using M = bom::method<m_id, int(bom::virtual_<X<0>&>), R>;
    static int over(X<0>&) {
        return 42;
    }
    void (*adders[NREC])();
    void (*removers[NREC])();
    const bom::vptr_type* svptr[NREC];

    template<int I>
    struct slot {
        using rec = std::conditional_t<
            I == 0, bom::use_classes<X<0>, R>, bom::use_classes<X<I>, X<0>, R>>;
        alignas(rec) inline static char buf[sizeof(rec)];
        static void add() {
            std::memset(buf, 0, sizeof(buf));
            asm volatile("" ::"r"(buf) : "memory");
            new (buf) rec;
        }
        static void remove() {
            reinterpret_cast<rec*>(buf)->~rec();
        }
    };
    template<int... I>
    void fill(std::integer_sequence<int, I...>) {
        ((adders[I] = slot<I>::add, removers[I] = slot<I>::remove,
          svptr[I] = &R::template static_vptr<X<I>>),
         ...);
    }
    Impl(const char* n) {
        name = n;
        checks = R::has_runtime_checks;
        fill(std::make_integer_sequence<int, NREC>());
        static typename M::template override<over> o;
        (void)&o;
    }
    void add(int i) override {
        adders[i]();
    }
    void remove(int i) override {
        removers[i]();
    }
    int initialize(std::size_t& attempts, std::size_t& buckets) override {
        try {
            bom::initialize<R>();
            return 0;
        } catch (const pol::fast_perfect_hash::search_error& e) {
            attempts = e.attempts;
            buckets = e.buckets;
            return 1;
        } catch (const bom::openmethod_error&) {
            return 2;
        }
    }
    void finalize() override {
        bom::finalize<R>();
    }
    std::size_t hash(type_id t) override {
        return Hash::hash(t);
    }
    int lookup(type_id t) override {
        X<0> x;
        x.type = t;
        auto& v = R::vptr::dynamic_vptr(x);
        for (int i = 0; i < NREC; ++i)
            if (*svptr[i] && v == *svptr[i])
                return i;
        return -1;
    }
    bool reported(type_id t, int how) override {
        try {
            X<0> x;
            x.type = t;
            if (how == 0)
                Hash::hash(t);
            else if (how == 1)
                M::fn(x);
            else
                bom::virtual_ptr<X<0>, R> p(x);
        } catch (const bom::missing_class& e) {
            return e.type == t;
        }
        return false;
    }
    int call(type_id t) override {
        X<0> x;
        x.type = t;
        return M::fn(x);
    }
    bool range(std::size_t& lo, std::size_t& hi) override {
        if constexpr (std::is_base_of_v<my_vptr, boost::mp11::mp_back<typename R::policy_list>> ||
                      std::is_base_of_v<my_vptr, boost::mp11::mp_at_c<typename R::policy_list, 3>>) {
            lo = R::vptr::min_value;
            hi = R::vptr::max_value;
            return true;
        }
        return false;
    }
    // forget what previous programs left
    void clear_vptrs() {
        for (auto p : svptr)
            *const_cast<bom::vptr_type*>(p) = nullptr;
    }
};

static std::string hex(type_id t) {
    char b[32];
    std::snprintf(b, sizeof b, "%p", t);
    return b;
}

static std::vector<uint64_t> gen_ids(pbt::Ctx& c, int n, std::string& what) {
    std::vector<uint64_t> ids;
    std::set<uint64_t> seen;
    auto push = [&](uint64_t v) {
        // the largest integer is how the table marks an empty bucket
        if (v != ~0ull && seen.insert(v).second)
            ids.push_back(v);
    };
    int style = c.t.weighted({4, 4, 3, 3, 2, 2, 2, 2});
    uint64_t base = 0x555555550000ull + uint64_t(c.t.u(1 << 16)) * 8;
    int tries = 0;
    switch (style) {
    case 0: // type_info objects, one after the other
        what = "like type_info objects";
        for (uint64_t v = base; int(ids.size()) < n; v += 16 + 8 * c.t.u(3))
            push(v);
        break;
    case 1: { // several shared libraries
        what = "in several modules";
        std::vector<uint64_t> mods{base};
        for (int i = 0, k = 1 + int(c.t.u(4)); i < k; ++i)
            mods.push_back(0x7f0000000000ull + uint64_t(c.t.raw()) * 4096);
        while (int(ids.size()) < n && ++tries < 4 * n) {
            auto& m = mods[c.t.u(uint32_t(mods.size()))];
            push(m += 16 + 8 * c.t.u(5));
        }
        break;
    }
    case 2:
        what = "random";
        while (int(ids.size()) < n)
            push(c.t.raw64());
        break;
    case 3:
        what = "small integers";
        for (uint64_t v = c.t.u(3); int(ids.size()) < n; v += 1 + c.t.u(4))
            push(v);
        break;
    case 4: { // same low bits
        what = "high bits";
        int sh = c.t.range(20, 56);
        for (uint64_t v = 0; int(ids.size()) < n && ++tries < 4 * n; ++v)
            push(v << sh | 0x10);
        break;
    }
    case 5:
        what = "powers of two";
        for (int i = 0; i < 64 && int(ids.size()) < n; ++i)
            push(1ull << i);
        break;
    case 6: { // same stride, any size
        what = "large stride";
        uint64_t step = (uint64_t(c.t.raw()) << c.t.u(24)) | 1;
        for (uint64_t v = c.t.raw64(); int(ids.size()) < n; v += step)
            push(v);
        break;
    }
    case 7: // near the ends
        what = "extreme values";
        for (uint64_t v = 0; int(ids.size()) < n; ++v)
            push(v % 2 ? ~0ull - v : v);
        break;
    }
    return ids;
}

static void p_hash(pbt::Ctx& c, const std::vector<Records*>& all) {
    auto& r = *all[c.t.u(uint32_t(all.size()))];
    int rounds = 1 + int(c.t.u(3));
    std::set<type_id> before; // registered in a previous round only
    std::vector<int> live;
    struct Cleanup {
        Records& r;
        std::vector<int>& live;
        ~Cleanup() {
            while (!live.empty()) {
                r.remove(live.back());
                live.pop_back();
            }
            r.finalize();
        }
    } cleanup{r, live};
    c.label(std::string("registry ") + r.name);
    for (int round = 0; round < rounds; ++round) {
        // classes, each with one or several ids
        int max = c.t.chance(1, 3) ? NREC : 40;
        int want = 1 + int(c.t.u(uint32_t(max)));
        std::string what;
        auto raw = gen_ids(c, want, what);
        int n = int(raw.size());
        int alias = c.t.weighted({3, 2, 1}); // none, some, many
        std::vector<int> cls(n);
        int classes = 0;
        for (int i = 0; i < n; ++i) {
            if (i && alias && c.t.chance(alias, 4))
                cls[i] = int(c.t.u(classes));
            else
                cls[i] = classes++;
        }
        while (!live.empty()) {
            before.insert(table[live.back()]);
            r.remove(live.back());
            live.pop_back();
        }
        class_of.clear();
        std::vector<int> order(n);
        for (int i = 0; i < n; ++i) {
            table[i] = type_id(raw[i]);
            class_of[table[i]] = cls[i];
            before.erase(table[i]);
            order[i] = i;
            c.hash(raw[i]);
        }
        for (int i = n; i < NREC; ++i)
            table[i] = nullptr;
        c.t.shuffle(order);
        std::vector<int> first(classes, -1);
        for (int i : order) {
            r.add(i);
            live.push_back(i);
            if (first[cls[i]] < 0)
                first[cls[i]] = i;
        }
        std::string desc = std::to_string(n) + " type ids of " +
            std::to_string(classes) + " classes, " + what + ", " + r.name +
            ", initialization " + std::to_string(round + 1);
        if (c.verbose) {
            c.desc << desc << ":";
            for (int i : order)
                c.desc << " " << hex(table[i]) << "(" << cls[i] << ")";
            c.desc << "\n";
        }
        std::size_t attempts = 0, buckets = 0;
        int rc = r.initialize(attempts, buckets);
        if (rc == 2)
            c.fail("initialize reported another error: " + desc);
        if (rc == 1) {
            c.label("search failed");
            // Random values are spread over up to 2^(log2(1.25 n) + 4)
            // buckets in four times 100000 attempts.
            double b = std::pow(2., std::floor(std::log2(std::max(2., classes * 1.25))) + 4);
            if (double(n) * n / (2 * b) < 5)
                c.fail("no hash found: " + desc);
            if (!attempts || !buckets || (buckets & (buckets - 1)))
                c.fail("search_error has no details: " + desc);
            continue; // initialize again with something else
        }
        c.label(std::string("ids ") + what);
        std::size_t lo = 0, hi = ~std::size_t(0);
        r.range(lo, hi);
        std::map<std::size_t, int> used;
        for (int i = 0; i < n; ++i) {
            auto h = r.hash(table[i]);
            if (h < lo || h > hi)
                c.fail("hash of " + hex(table[i]) + " out of the range returned: " + desc);
            if (!used.emplace(h, i).second)
                c.fail("two ids have the same hash: " + desc);
            if (r.hash(table[i]) != h)
                c.fail("hash is not stable");
            int got = r.lookup(table[i]);
            if (got < 0 || cls[got] != cls[i])
                c.fail("the v-table pointer found for " + hex(table[i]) +
                       " is not its class's: " + desc);
            if (class_of[table[i]] >= 0 && r.call(table[i]) != 42)
                c.fail("call: " + desc);
        }
        c.label("ids hashed", n);
        if (r.checks) {
            // any other id is reported
            std::vector<type_id> others(before.begin(), before.end());
            for (int k = 0; k < 12; ++k) {
                uint64_t v;
                switch (c.t.u(6)) {
                case 0:
                    v = c.t.raw64();
                    break;
                case 4: // same lower half
                    v = raw[c.t.u(n)] + (uint64_t(1 + c.t.u(1 << 16)) << 32);
                    break;
                case 1:
                    v = raw[c.t.u(n)] + 1 + c.t.u(32);
                    break;
                case 2:
                    v = raw[c.t.u(n)] ^ (1ull << c.t.u(64));
                    break;
                case 3:
                    v = c.t.u(200);
                    break;
                default:
                    v = raw[c.t.u(n)] - 1 - c.t.u(32);
                }
                others.push_back(type_id(v));
            }
            for (auto t : others) {
                if (class_of.count(t) || std::uint64_t(t) == ~0ull)
                    continue;
                for (int how = 0; how < 3; ++how)
                    if (!r.reported(t, how))
                        c.fail("id " + hex(t) + ", not registered, is not reported by " +
                               (how == 0 ? "hash" : how == 1 ? "a call" : "virtual_ptr") +
                               ": " + desc);
                c.label("other ids reported");
            }
        }
        if (c.t.chance(1, 3)) {
            r.finalize();
            before.clear();
        }
        c.nontrivial = c.nontrivial || n >= 3;
    }
}

template<class R>
Records* make(const char* name) {
    static Impl<R> i(name);
    return &i;
}

int main(int argc, char** argv) {
    std::vector<Records*> all = {
        make<r_vec>("vptr_vector"), make<r_vec_chk>("vptr_vector, checks"),
        make<r_ind_chk>("vptr_vector, indirect, checks"),
        make<r_mine>("own vptr policy"), make<r_mine_chk>("own vptr policy, checks")};
    std::map<std::string, pbt::Property> props;
    props["C12"] = {[&](pbt::Ctx& c) { p_hash(c, all); },
                    "a hash was found for at least three ids; distinct = distinct "
                    "sequences of sets of ids"};
    return pbt::main(argc, argv, props);
}
