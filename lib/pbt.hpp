// A small property-based testing engine (choice-tape style).
//
// Every random decision of a case is drawn from a tape.  A case is a pure
// function of its tape; when the tape is exhausted draws come from a PRNG
// seeded by (seed, case index), or are 0 when replaying.  Shrinking edits the
// tape (delete / zero / lower) and re-runs the case in a forked child, so that
// crashes (sanitizer reports, signals, abort) shrink the same way as ordinary
// failures.
#pragma once

#include <fcntl.h>
#include <signal.h>
#include <stdint.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <unistd.h>

#include <algorithm>
#include <chrono>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fstream>
#include <functional>
#include <map>
#include <sstream>
#include <stdexcept>
#include <string>
#include <unordered_set>
#include <vector>

namespace pbt {

inline uint64_t mix(uint64_t x) {
    x += 0x9E3779B97F4A7C15ull;
    x = (x ^ (x >> 30)) * 0xBF58476D1CE4E5B9ull;
    x = (x ^ (x >> 27)) * 0x94D049BB133111EBull;
    return x ^ (x >> 31);
}

constexpr std::size_t max_tape = 1 << 16;

struct Shared {
    uint64_t case_index;
    uint32_t len;
    uint32_t tape[max_tape];
    char msg[8192];
    uint64_t evaluations, nontrivial, discarded;
    uint32_t done;
};

struct Failure {
    std::string msg;
};
struct Discard {};

class Tape {
  public:
    Shared* sh;
    const std::vector<uint32_t>* fixed; // replay tape, or null
    uint64_t s;
    std::size_t pos = 0;

    Tape(Shared* sh, const std::vector<uint32_t>* fixed, uint64_t seed)
        : sh(sh), fixed(fixed), s(seed) {
        sh->len = 0;
    }
    // uniform in [0, n)
    uint32_t u(uint32_t n) {
        if (n <= 1) {
            return 0;
        }
        uint32_t v;
        if (fixed) {
            v = pos < fixed->size() ? (*fixed)[pos] : 0;
            if (v >= n) {
                v %= n;
            }
        } else {
            s += 0x9E3779B97F4A7C15ull;
            v = uint32_t((unsigned __int128)(mix(s)) * n >> 64);
        }
        ++pos;
        if (sh->len < max_tape) {
            sh->tape[sh->len++] = v;
        } else {
            throw Discard();
        }
        return v;
    }
    int range(int a, int b) { // inclusive
        return b <= a ? a : a + int(u(uint32_t(b - a + 1)));
    }
    bool chance(uint32_t num, uint32_t den) { // true is "complex": shrinks to false
        return u(den) >= den - num;
    }
    uint32_t raw() {
        return u(0xFFFFFFFFu);
    }
    uint64_t raw64() {
        uint64_t a = raw();
        return (a << 32) ^ raw();
    }
    // index by weight
    int weighted(std::initializer_list<int> w) {
        int total = 0;
        for (int x : w)
            total += x;
        int v = int(u(total)), i = 0;
        for (int x : w) {
            if (v < x)
                return i;
            v -= x;
            ++i;
        }
        return 0;
    }
    template<class V>
    auto pick(const V& v) -> const typename V::value_type& {
        return v[u(uint32_t(v.size()))];
    }
    template<class V>
    void shuffle(V& v) {
        // with an all-zero tape this is the identity
        for (std::size_t i = 0; i + 1 < v.size(); ++i) {
            std::size_t j = i + u(uint32_t(v.size() - i));
            std::swap(v[i], v[j]);
        }
    }
};

struct Ctx {
    Tape& t;
    bool verbose = false;
    std::ostringstream desc;
    uint64_t h = 1469598103934665603ull;
    bool nontrivial = false;
    std::map<std::string, uint64_t>* labels = nullptr;

    explicit Ctx(Tape& t) : t(t) {
    }
    void hash(uint64_t v) {
        h = (h ^ mix(v)) * 1099511628211ull;
    }
    void label(const std::string& l, uint64_t n = 1) {
        if (labels)
            (*labels)[l] += n;
    }
    [[noreturn]] void fail(const std::string& m) {
        throw Failure{m};
    }
};

struct Property {
    std::function<void(Ctx&)> run;
    std::string rule;
};

struct Options {
    std::string prop, out, replay_dir, replay, extra;
    uint64_t seed = 1;
    uint64_t cases = 1000;
    double time = 60;
    int workers = 8;
    double shrink_time = 60;
    bool verbose = false;
    bool print = false;
};

inline Options& options() {
    static Options o;
    return o;
}

enum class Status { pass, fail, discard };

struct Result {
    Status st;
    std::string msg;
};

inline Result run_one(const Property& p, Ctx& c) {
    try {
        p.run(c);
        return {Status::pass, ""};
    } catch (Failure& f) {
        return {Status::fail, f.msg};
    } catch (Discard&) {
        return {Status::discard, ""};
    } catch (std::exception& e) {
        return {Status::fail, std::string("unexpected exception: ") + e.what()};
    }
}

inline void arm(int seconds) {
    struct itimerval tv {};
    tv.it_value.tv_sec = seconds;
    setitimer(ITIMER_PROF, &tv, nullptr);
}

inline Shared* new_shared() {
    void* p = mmap(
        nullptr, sizeof(Shared), PROT_READ | PROT_WRITE,
        MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    if (p == MAP_FAILED) {
        perror("mmap");
        exit(3);
    }
    return static_cast<Shared*>(p);
}

inline void copy_msg(Shared* sh, const std::string& m) {
    auto n = std::min(m.size(), sizeof(sh->msg) - 1);
    memcpy(sh->msg, m.data(), n);
    sh->msg[n] = 0;
}

inline std::string tail(const std::string& path, std::size_t n) {
    std::ifstream f(path, std::ios::binary);
    std::stringstream ss;
    ss << f.rdbuf();
    auto s = ss.str();
    // for sanitizer reports the head matters most
    auto p = s.find("ERROR: AddressSanitizer");
    if (p == std::string::npos)
        p = s.find("runtime error:");
    if (p == std::string::npos)
        p = s.find("WARNING: ThreadSanitizer");
    if (p != std::string::npos) {
        auto b = s.rfind('\n', p);
        b = b == std::string::npos ? 0 : b + 1;
        return s.substr(b, n);
    }
    return s.size() > n ? s.substr(s.size() - n) : s;
}

// Runs a tape in a forked child.  true = fails.
struct Attempt {
    bool fails = false;
    std::string msg;
    std::vector<uint32_t> tape; // canonicalised
    std::string desc;
};

inline std::string tmpdir() {
    static std::string d = [] {
        const char* t = getenv("PBT_TMP");
        return std::string(t ? t : "/tmp");
    }();
    return d;
}

inline Attempt attempt(
    const Property& p, const std::vector<uint32_t>& tape, bool verbose = false,
    std::string* errtext = nullptr) {
    static Shared* sh = new_shared();
    sh->len = 0;
    sh->msg[0] = 0;
    std::string err = tmpdir() + "/attempt." + std::to_string(getpid()) + ".err";
    std::string dsc = tmpdir() + "/attempt." + std::to_string(getpid()) + ".dsc";
    ::unlink(dsc.c_str());
    fflush(nullptr);
    pid_t pid = fork();
    if (pid < 0) {
        perror("fork");
        exit(3);
    }
    if (pid == 0) {
        int fd = open(err.c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0644);
        dup2(fd, 2);
        dup2(fd, 1);
        arm(60);
        Tape t(sh, &tape, 0);
        Ctx c(t);
        c.verbose = verbose;
        auto r = run_one(p, c);
        if (verbose) {
            std::ofstream(dsc) << c.desc.str();
        }
        if (r.st == Status::fail) {
            copy_msg(sh, r.msg);
            _exit(1);
        }
        _exit(0);
    }
    int status = 0;
    while (waitpid(pid, &status, 0) < 0 && errno == EINTR) {
    }
    Attempt a;
    a.tape.assign(sh->tape, sh->tape + sh->len);
    if (WIFEXITED(status) && WEXITSTATUS(status) == 0) {
        a.fails = false;
    } else if (WIFEXITED(status) && WEXITSTATUS(status) == 1) {
        a.fails = true;
        a.msg = sh->msg;
    } else {
        a.fails = true;
        a.msg = WIFSIGNALED(status)
            ? "process killed by signal " + std::to_string(WTERMSIG(status))
            : "process exited with code " + std::to_string(WEXITSTATUS(status));
        a.msg += "\n" + tail(err, 2500);
    }
    if (errtext) {
        *errtext = tail(err, 4000);
    }
    if (verbose) {
        std::ifstream f(dsc);
        std::stringstream ss;
        ss << f.rdbuf();
        a.desc = ss.str();
        ::unlink(dsc.c_str());
    }
    ::unlink(err.c_str());
    return a;
}

inline std::vector<uint32_t>
shrink(const Property& p, std::vector<uint32_t> best, double budget) {
    auto t0 = std::chrono::steady_clock::now();
    auto expired = [&] {
        return std::chrono::duration<double>(
                   std::chrono::steady_clock::now() - t0)
                   .count() > budget;
    };
    auto better = [](const std::vector<uint32_t>& a,
                     const std::vector<uint32_t>& b) {
        if (a.size() != b.size())
            return a.size() < b.size();
        return std::lexicographical_compare(
            a.begin(), a.end(), b.begin(), b.end());
    };
    auto attempt_tape = [&](const std::vector<uint32_t>& cand) {
        auto a = attempt(p, cand);
        if (!a.fails)
            return false;
        // canonical tape: what was really consumed, without trailing zeros
        auto t = a.tape;
        while (!t.empty() && t.back() == 0)
            t.pop_back();
        if (better(t, best)) {
            best = t;
            return true;
        }
        return false;
    };
    {
        auto t = best;
        while (!t.empty() && t.back() == 0)
            t.pop_back();
        if (t.size() < best.size() && attempt(p, t).fails)
            best = t;
    }
    bool progress = true;
    while (progress && !expired()) {
        progress = false;
        for (std::size_t k : {64, 32, 16, 8, 4, 3, 2, 1}) {
            for (std::size_t i = best.size(); i-- > 0 && !expired();) {
                if (i + k > best.size())
                    continue;
                auto c = best;
                c.erase(c.begin() + i, c.begin() + i + k);
                if (attempt_tape(c)) {
                    progress = true;
                    i = std::min(i, best.size());
                }
            }
            if (expired())
                break;
        }
        for (std::size_t k : {16, 4, 1}) {
            for (std::size_t i = 0; i + k <= best.size() && !expired(); ++i) {
                bool any = false;
                auto c = best;
                for (std::size_t j = i; j < i + k; ++j) {
                    any |= c[j] != 0;
                    c[j] = 0;
                }
                if (any && attempt_tape(c))
                    progress = true;
            }
        }
        for (std::size_t i = 0; i < best.size() && !expired(); ++i) {
            uint32_t lo = 0;
            while (i < best.size() && best[i] > lo && !expired()) {
                auto c = best;
                uint32_t mid = lo + (best[i] - lo) / 2;
                c[i] = mid;
                auto before = best.size();
                if (attempt_tape(c)) {
                    progress = true;
                    if (best.size() != before)
                        break;
                } else {
                    lo = mid + 1;
                }
            }
        }
    }
    return best;
}

inline std::string json_escape(const std::string& s) {
    std::string o;
    for (unsigned char ch : s) {
        switch (ch) {
        case '"': o += "\\\""; break;
        case '\\': o += "\\\\"; break;
        case '\n': o += "\\n"; break;
        case '\t': o += "\\t"; break;
        default:
            if (ch < 0x20 || ch >= 0x7f) {
                char b[8];
                snprintf(b, sizeof b, "\\u%04x", ch);
                o += b;
            } else {
                o += char(ch);
            }
        }
    }
    return o;
}

inline void write_replay(
    const std::string& path, const std::string& prop, const std::string& kind,
    const std::vector<uint32_t>& tape, const std::string& msg,
    const std::string& desc, uint64_t seed, uint64_t first, uint64_t last) {
    std::ofstream f(path);
    f << "pbt-replay 1\nproperty " << prop << "\nextra " << options().extra
      << "\nkind " << kind << "\nseed " << seed << "\ncases " << first << " "
      << last << "\ntape " << tape.size();
    for (auto v : tape)
        f << " " << v;
    f << "\n# failure: ";
    for (char c : msg) {
        f << c;
        if (c == '\n')
            f << "# ";
    }
    f << "\n# case:\n# ";
    for (char c : desc) {
        f << c;
        if (c == '\n')
            f << "# ";
    }
    f << "\n";
}

// Runs cases [first, last] of the seeded stream in one child; true = fails.
inline bool stream_fails(
    const Property& p, uint64_t seed, uint64_t first, uint64_t last,
    uint64_t step, std::string* msg) {
    static Shared* sh = new_shared();
    sh->msg[0] = 0;
    std::string err = tmpdir() + "/stream." + std::to_string(getpid()) + ".err";
    fflush(nullptr);
    pid_t pid = fork();
    if (pid == 0) {
        int fd = open(err.c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0644);
        dup2(fd, 2);
        dup2(fd, 1);
        for (uint64_t i = first; i <= last; i += step) {
            arm(60);
            Tape t(sh, nullptr, mix(seed * 0x1000193 + i) ^ mix(i));
            Ctx c(t);
            auto r = run_one(p, c);
            if (r.st == Status::fail) {
                copy_msg(sh, r.msg);
                _exit(1);
            }
        }
        _exit(0);
    }
    int status = 0;
    while (waitpid(pid, &status, 0) < 0 && errno == EINTR) {
    }
    bool f = !(WIFEXITED(status) && WEXITSTATUS(status) == 0);
    if (f && msg) {
        *msg = std::string(sh->msg) + "\n" + tail(err, 2500);
    }
    ::unlink(err.c_str());
    return f;
}

inline int replay_file(
    const std::map<std::string, Property>& props, const std::string& path) {
    std::ifstream f(path);
    std::string w, prop, kind, line;
    uint64_t seed = 0, first = 0, last = 0;
    std::vector<uint32_t> tape;
    while (std::getline(f, line)) {
        std::istringstream is(line);
        is >> w;
        if (w == "property")
            is >> prop;
        else if (w == "kind")
            is >> kind;
        else if (w == "seed")
            is >> seed;
        else if (w == "cases")
            is >> first >> last;
        else if (w == "tape") {
            std::size_t n;
            is >> n;
            tape.resize(n);
            for (auto& v : tape)
                is >> v;
        }
        if (!line.empty() && line[0] == '#')
            break;
    }
    if (!options().prop.empty())
        prop = options().prop;
    auto it = props.find(prop);
    if (it == props.end()) {
        fprintf(stderr, "unknown property %s\n", prop.c_str());
        return 2;
    }
    if (kind == "stream") {
        std::string msg;
        bool fl = stream_fails(
            it->second, seed, first, last, options().workers, &msg);
        printf("%s\n%s\n", fl ? "FAILS" : "passes", msg.c_str());
        return fl ? 1 : 0;
    }
    auto a = attempt(it->second, tape, true);
    printf(
        "%s\n%s\n%s\n", a.fails ? "FAILS" : "passes", a.msg.c_str(),
        a.desc.c_str());
    return a.fails ? 1 : 0;
}

inline int main(
    int argc, char** argv, const std::map<std::string, Property>& props) {
    auto& o = options();
    for (int i = 1; i < argc; ++i) {
        std::string a = argv[i];
        auto val = [&]() -> std::string { return i + 1 < argc ? argv[++i] : ""; };
        if (a == "--prop")
            o.prop = val();
        else if (a == "--seed")
            o.seed = strtoull(val().c_str(), nullptr, 10);
        else if (a == "--cases")
            o.cases = strtoull(val().c_str(), nullptr, 10);
        else if (a == "--time")
            o.time = atof(val().c_str());
        else if (a == "--workers")
            o.workers = atoi(val().c_str());
        else if (a == "--out")
            o.out = val();
        else if (a == "--replay-dir")
            o.replay_dir = val();
        else if (a == "--replay")
            o.replay = val();
        else if (a == "--extra")
            o.extra = val();
        else if (a == "--shrink-time")
            o.shrink_time = atof(val().c_str());
        else if (a == "--print")
            o.print = true;
    }
    if (!o.replay.empty())
        return replay_file(props, o.replay);
    auto it = props.find(o.prop);
    if (it == props.end()) {
        fprintf(stderr, "unknown property %s\n", o.prop.c_str());
        return 2;
    }
    const Property& p = it->second;

    int W = o.workers;
    std::vector<Shared*> sh(W);
    std::vector<pid_t> pids(W);
    std::vector<std::string> errs(W), outs(W);
    auto t0 = std::chrono::steady_clock::now();
    for (int w = 0; w < W; ++w) {
        sh[w] = new_shared();
        auto base = tmpdir() + "/w" + std::to_string(w) + "." +
            std::to_string(getpid());
        errs[w] = base + ".err";
        outs[w] = base + ".out";
        fflush(nullptr);
        pids[w] = fork();
        if (pids[w] == 0) {
            int fd = open(errs[w].c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0644);
            dup2(fd, 2);
            if (!o.print)
                dup2(fd, 1);
            std::unordered_set<uint64_t> seen;
            std::map<std::string, uint64_t> labels;
            std::vector<std::string> samples;
            int rc = 0;
            for (uint64_t i = w; i < o.cases; i += W) {
                if ((i / W) % 16 == 0 &&
                    std::chrono::duration<double>(
                        std::chrono::steady_clock::now() - t0)
                            .count() > o.time)
                    break;
                sh[w]->case_index = i;
                arm(60);
                Tape t(sh[w], nullptr, mix(o.seed * 0x1000193 + i) ^ mix(i));
                Ctx c(t);
                c.labels = &labels;
                bool want = samples.size() < 2;
                c.verbose = want;
                auto r = run_one(p, c);
                if (r.st == Status::fail) {
                    copy_msg(sh[w], r.msg);
                    rc = 1;
                    break;
                }
                if (r.st == Status::discard) {
                    ++sh[w]->discarded;
                    continue;
                }
                ++sh[w]->evaluations;
                if (c.nontrivial) {
                    if (seen.insert(c.h).second) {
                        ++sh[w]->nontrivial;
                        if (want)
                            samples.push_back(c.desc.str().substr(0, 3000));
                    }
                }
            }
            arm(0);
            std::ofstream f(outs[w]);
            f << seen.size() << "\n";
            for (auto h : seen)
                f << h << "\n";
            f << labels.size() << "\n";
            for (auto& [k, v] : labels)
                f << v << " " << k << "\n";
            f << samples.size() << "\n";
            for (auto& s : samples)
                f << json_escape(s) << "\n";
            f.close();
            fflush(nullptr);
            _exit(rc);
        }
    }
    int bad = -1;
    std::string bad_msg;
    uint64_t bad_index = UINT64_MAX;
    std::vector<uint32_t> bad_tape;
    std::vector<int> st(W);
    for (int left = W; left > 0;) {
        int status;
        pid_t pid = waitpid(-1, &status, 0);
        if (pid < 0) {
            if (errno == EINTR)
                continue;
            break;
        }
        for (int w = 0; w < W; ++w) {
            if (pids[w] != pid)
                continue;
            --left;
            pids[w] = -1;
            bool ok = WIFEXITED(status) && WEXITSTATUS(status) == 0;
            // SIGKILL comes from outside (memory guard, timeouts): not a verdict
            if (WIFSIGNALED(status) && WTERMSIG(status) == SIGKILL && bad < 0) {
                fprintf(stderr, "worker %d was killed from outside\n", w);
                ok = true;
            }
            if (!ok && bad < 0) {
                bad = w;
                bad_index = sh[w]->case_index;
                bad_tape.assign(sh[w]->tape, sh[w]->tape + sh[w]->len);
                if (WIFEXITED(status) && WEXITSTATUS(status) == 1)
                    bad_msg = sh[w]->msg;
                else
                    bad_msg = (WIFSIGNALED(status)
                                   ? "signal " + std::to_string(WTERMSIG(status))
                                   : "exit code " +
                                       std::to_string(WEXITSTATUS(status))) +
                        "\n" + tail(errs[w], 2500);
                for (int v = 0; v < W; ++v)
                    if (pids[v] > 0)
                        kill(pids[v], SIGKILL);
            }
        }
    }
    double wall = std::chrono::duration<double>(
                      std::chrono::steady_clock::now() - t0)
                      .count();
    uint64_t evals = 0, disc = 0;
    std::unordered_set<uint64_t> all;
    std::map<std::string, uint64_t> labels;
    std::vector<std::string> samples;
    for (int w = 0; w < W; ++w) {
        evals += sh[w]->evaluations;
        disc += sh[w]->discarded;
        std::ifstream f(outs[w]);
        std::size_t n = 0;
        f >> n;
        for (std::size_t i = 0; i < n; ++i) {
            uint64_t h;
            f >> h;
            all.insert(h);
        }
        n = 0;
        f >> n;
        for (std::size_t i = 0; i < n; ++i) {
            uint64_t v;
            std::string k;
            f >> v;
            f.ignore(1);
            std::getline(f, k);
            labels[k] += v;
        }
        n = 0;
        f >> n;
        std::string s;
        std::getline(f, s);
        for (std::size_t i = 0; i < n; ++i) {
            std::getline(f, s);
            if (samples.size() < 6)
                samples.push_back(s);
        }
        ::unlink(outs[w].c_str());
        ::unlink(errs[w].c_str());
    }
    std::string replay_path, final_msg;
    if (bad >= 0) {
        replay_path = o.replay_dir + "/" + o.prop + "-" + o.extra +
            (o.extra.empty() ? "" : "-") + "seed" + std::to_string(o.seed) +
            "-case" + std::to_string(bad_index) + ".replay";
        bool reproducible = true;
        for (int i = 0; i < 3 && reproducible; ++i)
            reproducible = attempt(p, bad_tape).fails;
        if (reproducible) {
            auto small = shrink(p, bad_tape, o.shrink_time);
            auto a = attempt(p, small, true);
            if (!a.fails) { // cannot happen for a deterministic case
                small = bad_tape;
                a = attempt(p, small, true);
            }
            final_msg = a.msg;
            write_replay(
                replay_path, o.prop, "tape", small, a.msg, a.desc, o.seed,
                bad_index, bad_index);
        } else {
            // depends on earlier cases of the same process: replay the stream
            uint64_t lo = bad % W;
            std::string m;
            bool ok = true;
            for (int i = 0; i < 2 && ok; ++i)
                ok = stream_fails(p, o.seed, lo, bad_index, W, &m);
            if (ok) {
                // bisect for a late start that still fails
                uint64_t a = 0, b = (bad_index - lo) / W;
                while (a < b) {
                    uint64_t mid = (a + b + 1) / 2;
                    if (stream_fails(
                            p, o.seed, lo + mid * W, bad_index, W, nullptr))
                        a = mid;
                    else
                        b = mid - 1;
                }
                final_msg = bad_msg + m;
                write_replay(
                    replay_path, o.prop, "stream", {}, final_msg, "", o.seed,
                    lo + a * W, bad_index);
            } else {
                fprintf(
                    stderr, "failure did not reproduce (ignored): %s\n",
                    bad_msg.c_str());
                replay_path.clear();
                bad = -2;
            }
        }
    }
    if (!o.out.empty()) {
        std::ofstream f(o.out);
        f << "{\"property\":\"" << o.prop << "\",\"extra\":\""
          << json_escape(o.extra) << "\",\"seed\":" << o.seed
          << ",\"evaluations\":" << evals
          << ",\"distinct_nontrivial\":" << all.size()
          << ",\"discarded\":" << disc << ",\"wall_s\":" << wall
          << ",\"rule\":\"" << json_escape(p.rule) << "\",\"labels\":{";
        bool first = true;
        for (auto& [k, v] : labels) {
            f << (first ? "" : ",") << "\"" << json_escape(k) << "\":" << v;
            first = false;
        }
        f << "},\"samples\":[";
        first = true;
        for (auto& s : samples) {
            f << (first ? "" : ",") << "\"" << s << "\"";
            first = false;
        }
        f << "],\"violation\":";
        if (!replay_path.empty())
            f << "{\"replay\":\"" << json_escape(replay_path)
              << "\",\"message\":\"" << json_escape(final_msg) << "\"}";
        else
            f << "null";
        f << ",\"unreproduced\":" << (bad == -2 ? "true" : "false") << "}\n";
    }
    if (!replay_path.empty()) {
        printf("FAIL %s\n%s\n", replay_path.c_str(), final_msg.c_str());
        return 1;
    }
    return 0;
}

} // namespace pbt
