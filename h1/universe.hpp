// The "universe": a fixed set of C++ class / method / overrider templates whose
// type ids are read from a table at each initialize() (the rtti policy derives
// from deferred_static_rtti).  One binary thus explores arbitrary hierarchies,
// registrations, methods and overriders through the library's public API.
#pragma once

#include <cstddef>
#include <cstdint>
#include <map>
#include <string>
#include <vector>

namespace uni {

using tid = const void*;

#ifdef UNI_BIG
constexpr int NREC = 150;
#else
constexpr int NREC = 28;  // registration records (the last one is the dummy's)
#endif
constexpr int NBASE = 5;  // base slots per record
constexpr int DUMMY_REC = NREC - 1;

struct MethodSpec {
    const char* kinds; // V K Q P C: virtual; N: non-virtual
    int overriders;
    bool cls_return;
};

// V virtual_<T&>   K virtual_<const T&>   Q virtual_<T*>
// P virtual_ptr<T> C const virtual_ptr<T>&   N int
#ifdef UNI_BIG
// Many more of everything than the machine word has bits.
#define UNI_TEN(M, T)                                                          \
    M(T##0, "V", 1, false)                                                     \
    M(T##1, "P", 1, false)                                                     \
    M(T##2, "V", 2, false)                                                     \
    M(T##3, "C", 1, false)                                                     \
    M(T##4, "VN", 1, false)                                                    \
    M(T##5, "V", 0, false)                                                     \
    M(T##6, "K", 1, false)                                                     \
    M(T##7, "NQ", 1, false)                                                    \
    M(T##8, "VV", 1, false)                                                    \
    M(T##9, "PV", 2, false)
#define UNI_METHODS(M)                                                         \
    M(0, "V", 100, false)                                                      \
    M(1, "P", 70, false)                                                       \
    M(2, "VV", 90, false)                                                      \
    M(3, "PNC", 66, false)                                                     \
    M(4, "VV", 33, false)                                                      \
    M(5, "VVV", 20, false)                                                     \
    M(6, "VVVVV", 5, false)                                                    \
    M(7, "PPNVPVV", 4, false)                                                  \
    M(8, "V", 68, true)                                                        \
    M(9, "VV", 65, true)                                                       \
    UNI_TEN(M, 1)                                                              \
    UNI_TEN(M, 2)                                                              \
    UNI_TEN(M, 3)                                                              \
    UNI_TEN(M, 4)                                                              \
    UNI_TEN(M, 5)                                                              \
    UNI_TEN(M, 6)                                                              \
    UNI_TEN(M, 7)                                                              \
    M(80, "VVNVVVVPVVVVKVVVVVVV", 2, false)

constexpr int NMETH = 81;
constexpr int MAXOV = 100;
constexpr int MAXAR = 19;
#else
#define UNI_METHODS(M)                                                         \
    M(0, "V", 0, false)                                                        \
    M(1, "V", 1, false)                                                        \
    M(2, "P", 2, false)                                                        \
    M(3, "NV", 2, false)                                                       \
    M(4, "C", 3, false)                                                        \
    M(5, "V", 4, false)                                                        \
    M(6, "PN", 5, false)                                                       \
    M(7, "Q", 6, false)                                                        \
    M(8, "NNK", 8, false)                                                      \
    M(9, "VV", 0, false)                                                       \
    M(10, "VV", 1, false)                                                      \
    M(11, "VP", 2, false)                                                      \
    M(12, "PNV", 3, false)                                                     \
    M(13, "CC", 4, false)                                                      \
    M(14, "VNV", 5, false)                                                     \
    M(15, "PP", 6, false)                                                      \
    M(16, "KNQ", 8, false)                                                     \
    M(17, "VV", 10, false)                                                     \
    M(18, "VVV", 2, false)                                                     \
    M(19, "PVP", 3, false)                                                     \
    M(20, "VNPV", 4, false)                                                    \
    M(21, "VVV", 6, false)                                                     \
    M(22, "PPP", 8, false)                                                     \
    M(23, "VVVV", 3, false)                                                    \
    M(24, "VPNCK", 5, false)                                                   \
    M(25, "V", 4, true)                                                        \
    M(26, "VV", 4, true)                                                       \
    M(27, "PV", 6, true)                                                       \
    M(28, "VVP", 5, true)

constexpr int NMETH = 29;
constexpr int MAXOV = 10;
constexpr int MAXAR = 4;
#endif

inline const MethodSpec specs[NMETH] = {
#define UNI_SPEC(I, K, N, R) {K, N, R},
    UNI_METHODS(UNI_SPEC)
#undef UNI_SPEC
};

inline bool is_vkind(char c) {
    return c != 'N';
}

inline int arity(int m) {
    int n = 0;
    for (const char* k = specs[m].kinds; *k; ++k)
        n += is_vkind(*k);
    return n;
}

// The table read by rtti::static_type.
struct Table {
    tid rec[NREC];
    tid recbase[NREC][NBASE];
    tid mparam[NMETH][MAXAR];
    tid oparam[NMETH][MAXOV][MAXAR];
    tid mret[NMETH];
    tid oret[NMETH][MAXOV];
    std::map<tid, tid> alias; // type id -> canonical id (type_index)
};
extern Table table;

struct Node {
    tid type;
};

enum Opts { OPT_NONE = 0, OPT_N2216 = 1, OPT_TRACE_ON = 2, OPT_TRACE_OFF = 4, OPT_TRACE_ENV = 8 };

struct Outcome {
    enum Kind {
        nothing,
        value,
        no_overrider,
        ambiguous,
        not_initialized,
        missing_class,
        missing_base,
        final_error,
        odr,
        search_error
    };
    Kind kind = nothing;
    int code = -1; // overrider index that ran, for value
    std::string bad; // argument fidelity problem, if any
    tid method = nullptr;
    std::size_t arity = 0;
    std::vector<tid> types;
    tid type = nullptr, type2 = nullptr;
    int handler_calls = 0;
    int executed = 0; // number of overriders that ran
};

inline const char* kind_name(Outcome::Kind k) {
    static const char* n[] = {
        "nothing",       "value",        "no_overrider", "ambiguous",
        "not_initialized", "missing_class", "missing_base", "final_error",
        "odr",           "search_error"};
    return n[k];
}

struct Report {
    std::size_t cells = 0, not_implemented = 0, ambiguous = 0;
    Outcome error; // kind==nothing when initialize succeeded
};

struct Held; // opaque virtual_ptr

struct Backend {
    virtual ~Backend() = default;
    const char* name;
    bool checks = false;   // runtime_checks
    bool indirect = false; // indirect_vptr
    bool small_ids = false; // type ids must be small integers
    int handler_calls = 0;
    virtual void add_record(int r) = 0;
    virtual void remove_record(int r) = 0;
    virtual Report initialize(int opts) = 0;
    virtual void finalize() = 0;
    virtual Outcome call(int m, Node** args, int nv) = 0;
    virtual Outcome call_next(int m, int k, Node** args, int nv) = 0;
    virtual int has_next(int m, int k) = 0;
    virtual tid method_id(int m) = 0;
    // virtual_ptr<Node> kept across operations
    virtual Outcome hold(int i, Node* n) = 0;
    virtual Outcome call_held(int m, const int* held, int nv) = 0; // P/C only
    virtual bool held_ok(int i, Node* n) = 0;
    virtual Outcome make_final(int m, int p, Node* n) = 0;
    virtual std::string take_output() = 0;
};

struct MultiLog {
    int executed;
    int m, k;
    const Node* nodes[MAXAR];
    int nv[4];
    int nnv;
    tid vptr_mismatch;
};
extern MultiLog log_;

// Counted in builds with -DUNI_COUNT (C26): memory reads, made in the code
// compiled with -fsanitize-coverage=trace-loads, and dynamic_type's calls.
struct Counts {
    uint64_t loads, dynamic_types;
};
inline Counts counts, at_entry; // of the overrider

Backend* backend_vec();      // vptr_vector + fast_perfect_hash
Backend* backend_vec_chk();  // the same + runtime_checks
Backend* backend_map_chk();  // vptr_map + runtime_checks
Backend* backend_ind();      // vptr_vector + hash + indirect_vptr + checks
Backend* backend_map_ind();  // vptr_map + indirect_vptr
Backend* backend_small();    // vptr_vector, no hash
Backend* backend_small_chk();
Backend* backend_small_ind();

} // namespace uni
