// Calls from several threads.
#include "../lib/pbt.hpp"
#include "common.hpp"


// ---------------------------------------------------------------- cases
struct Op {
    int kind, x, y, w;
    long result;
};

struct Job {
    int reg = 0;
    std::vector<Op> ops;
    std::vector<int> modes; // a thread that initializes its own registry
};

static void run_threads(pbt::Ctx& c, std::vector<Instance*>& all) {
    auto& t = c.t;
    // each registry is either shared by callers, or owned by one thread
    int nshared = 1 + int(t.u(2));
    std::vector<int> regs(all.size());
    for (std::size_t i = 0; i < regs.size(); ++i)
        regs[i] = int(i);
    t.shuffle(regs);
    int phases = 1 + int(t.u(2));
    std::string desc;
    for (int ph = 0; ph < phases; ++ph) {
        for (int i = 0; i < nshared; ++i) {
            int mode = int(t.u(4));
            all[regs[i]]->initialize(mode);
            c.hash(regs[i] * 4 + mode);
            c.desc << "initialize [" << all[regs[i]]->name() << "] mode " << mode << "\n";
        }
        int nt = 2 + int(t.u(3));
        std::vector<Job> jobs(nt);
        int next_own = nshared;
        int callers = 0;
        for (auto& j : jobs) {
            if (callers >= 2 && t.chance(1, 4)) {
                j.reg = regs[next_own++ % regs.size()];
                int n = 1 + int(t.u(3));
                for (int k = 0; k < n; ++k)
                    j.modes.push_back(int(t.u(6)));
                c.label("threads that initialize another registry");
            } else {
                ++callers;
                j.reg = regs[t.u(nshared)];
            }
            int n = 1 + int(t.u(12));
            for (int k = 0; k < n; ++k)
                j.ops.push_back(
                    {int(t.u(NOPS)), int(t.u(42)), int(t.u(42)), int(t.u(7)), 0});
            c.hash(j.reg);
            c.desc << "thread on [" << all[j.reg]->name() << "]"
                   << (j.modes.empty() ? "" : " (its own, initialized by it)") << ":";
            for (auto& o : j.ops) {
                c.hash(((o.kind * 64 + o.x) * 64 + o.y) * 64 + o.w);
                c.label("op " + std::to_string(o.kind));
                c.desc << " " << o.kind << "(" << o.x << "," << o.y << "," << o.w << ")";
            }
            c.desc << "\n";
        }
        std::atomic<int> ready{0};
        auto body = [&](Job& j) {
            ready.fetch_add(1, std::memory_order_relaxed);
            while (ready.load(std::memory_order_relaxed) < nt)
                std::this_thread::yield();
            auto* r = all[j.reg];
            if (j.modes.empty()) {
                for (auto& o : j.ops)
                    o.result = r->op(o.kind, o.x, o.y, o.w);
                return;
            }
            for (int m : j.modes) {
                r->initialize(m & 3);
                for (auto& o : j.ops)
                    o.result = r->op(o.kind, o.x, o.y, o.w);
                if (m >= 4)
                    r->finalize();
            }
            if (j.modes.back() >= 4) {
                r->initialize(j.modes.back() & 3);
            }
        };
        std::vector<std::thread> threads;
        for (auto& j : jobs)
            threads.emplace_back([&] { body(j); });
        for (auto& th : threads)
            th.join();
        // the same operations, alone
        for (auto& j : jobs)
            for (auto& o : j.ops) {
                long again = all[j.reg]->op(o.kind, o.x, o.y, o.w);
                if (again != o.result)
                    c.fail(
                        "operation " + std::to_string(o.kind) + "(" +
                        std::to_string(o.x) + "," + std::to_string(o.y) + "," +
                        std::to_string(o.w) + ") gave " + std::to_string(o.result) +
                        " among other threads, " + std::to_string(again) +
                        " alone, in registry " + all[j.reg]->name());
            }
        if (callers >= 2)
            c.nontrivial = true;
    }
}

int main(int argc, char** argv) {
    std::vector<Instance*> all = {instance0(), instance1(), instance2(), instance3(),
                                  instance4(), instance5(), instance6(), instance7()};

    std::map<std::string, pbt::Property> props;
    props["C24"] = {[&](pbt::Ctx& c) { run_threads(c, all); },
                    "at least two threads used the same registries at the same time; distinct = "
                    "distinct lists of operations"};
    return pbt::main(argc, argv, props);
}
