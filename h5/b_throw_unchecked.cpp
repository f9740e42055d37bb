#include "err.hpp"

namespace err {
struct Reg_throw_unchecked : bom::registry<Named, pol::vptr_map<>, pol::throw_error_handler> {};
Sys* make_throw_unchecked(int id) {
    static SysT<Reg_throw_unchecked> s("throwing handler, no checks, no output", id);
    return &s;
}
} // namespace err
