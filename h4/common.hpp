#pragma once
#include "../lib/pbt.hpp"

namespace ip {

struct World {
    std::string err;
    long created = 0, destroyed = 0;
    std::string where;
    bool probing = true; // call methods in constructors and destructors
    int countdown = -1;  // constructors left until one throws
    long probes = 0;
};
inline World world;

inline void complain(const std::string& s) {
    if (world.err.empty())
        world.err = world.where + ": " + s;
}

struct Boom {};

struct Machine {
    virtual ~Machine() = default;
    virtual const char* name() const = 0;
    virtual bool can_misuse() const = 0;
    virtual void run(pbt::Ctx& c, bool misuse) = 0;
};

Machine* machine_direct();
Machine* machine_checked();
Machine* machine_indirect();
Machine* machine_static();
Machine* machine_static_ind();
Machine* machine_poly();
Machine* machine_poly_ind();

} // namespace ip
