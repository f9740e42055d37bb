#include "err.hpp"

namespace err {
struct Reg_default_unchecked : bom::registry<Named, pol::vptr_vector, pol::fast_perfect_hash, pol::default_error_handler, Capture> {};
Sys* make_default_unchecked(int id) {
    static SysT<Reg_default_unchecked> s("default handler, no checks", id);
    return &s;
}
} // namespace err
