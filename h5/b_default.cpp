#include "err.hpp"

namespace err {
struct Reg_default : bom::registry<pol::std_rtti, pol::vptr_vector, pol::fast_perfect_hash, pol::default_error_handler, Capture, pol::runtime_checks> {};
Sys* make_default(int id) {
    static SysT<Reg_default> s("default handler, std_rtti, hash, checks", id);
    return &s;
}
} // namespace err
