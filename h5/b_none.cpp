#include "err.hpp"

namespace err {
struct Reg_none : bom::registry<pol::std_rtti, pol::vptr_vector, pol::fast_perfect_hash, Capture, pol::runtime_checks> {};
Sys* make_none(int id) {
    static SysT<Reg_none> s("no handler, checks", id);
    return &s;
}
} // namespace err
