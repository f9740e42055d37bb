#include "err.hpp"

namespace err {
struct Reg_custom : bom::registry<Named, pol::vptr_vector, pol::fast_perfect_hash, Custom, Capture, pol::runtime_checks> {};
Sys* make_custom(int id) {
    static SysT<Reg_custom> s("user's handler, checks", id);
    return &s;
}
} // namespace err
