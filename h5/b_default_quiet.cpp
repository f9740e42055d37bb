#include "err.hpp"

namespace err {
struct Reg_default_quiet : bom::registry<pol::std_rtti, pol::vptr_vector, pol::fast_perfect_hash, pol::default_error_handler, pol::runtime_checks, pol::indirect_vptr> {};
Sys* make_default_quiet(int id) {
    static SysT<Reg_default_quiet> s("default handler, no output, indirect, checks", id);
    return &s;
}
} // namespace err
