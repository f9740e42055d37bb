#include "err.hpp"

namespace err {
struct Reg_throw : bom::registry<pol::std_rtti, pol::vptr_vector, pol::fast_perfect_hash, pol::throw_error_handler, Capture, pol::runtime_checks> {};
Sys* make_throw(int id) {
    static SysT<Reg_throw> s("throwing handler, checks", id);
    return &s;
}
} // namespace err
