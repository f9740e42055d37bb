// Objects whose identity, subobject addresses and destruction are tracked.
#pragma once
#include "../lib/pbt.hpp"
#include <cstdint>
#include <string>
#include <vector>

namespace vp {

constexpr int NC = 7; // classes in a family, the last one is not registered

struct Record {
    int dyn;              // class index
    const void* sub[NC];  // address of each subobject
    int destroyed = 0;
    bool stack = false;   // owned by the harness
    void* most_derived = nullptr;
    void (*del)(void*) = nullptr;
};

struct World {
    std::vector<Record> objs;
    bool counting = true;
    std::string err;
};
inline World world;

inline void complain(const std::string& s) {
    if (world.err.empty())
        world.err = s;
}

// Root data: not registered as a class.
struct Tracked {
    int id;
    mutable int refs = 0;
    Tracked() : id(int(world.objs.size())) {
        world.objs.push_back(Record{});
    }
    Tracked(const Tracked&) = delete;
    ~Tracked() {
        auto& r = world.objs[id];
        if (++r.destroyed != 1)
            complain("object destroyed twice");
        if (refs != 0)
            complain("object destroyed while intrusive pointers refer to it");
    }
};

inline void intrusive_ptr_add_ref(const Tracked* p) {
    ++p->refs;
}

inline void intrusive_ptr_release(const Tracked* p) {
    if (--p->refs == 0) {
        auto& r = world.objs[p->id];
        r.del(r.most_derived);
    }
}

// What an overrider saw.
struct Seen {
    int method = -1, cls = -1;
    const void* addr = nullptr; // of the parameter, as `cls`
    int cls2 = -1;
    const void* addr2 = nullptr;
    bool vptr_ok = true;
    long owners = -1; // of the object, in the overrider
};
inline Seen seen;
inline int calls_seen;

inline int lookups; // of v-table pointers, made by the "counted" registries

struct Machine {
    bool counted = false;
    virtual ~Machine() = default;
    virtual const char* name() const = 0;
    virtual void run(pbt::Ctx& c, int weights) = 0;
};

Machine* machine_vec();
Machine* machine_map();
Machine* machine_ind();
Machine* machine_map_ind();
Machine* machine_plain();
Machine* machine_np();
Machine* machine_np_ind();
Machine* machine_count();
Machine* machine_count_ind();

} // namespace vp
