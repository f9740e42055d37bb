#include "err.hpp"

namespace err {
struct Reg_none_unchecked : bom::registry<pol::std_rtti, pol::vptr_map<>, pol::indirect_vptr> {};
Sys* make_none_unchecked(int id) {
    static SysT<Reg_none_unchecked> s("no handler, no checks", id);
    return &s;
}
} // namespace err
