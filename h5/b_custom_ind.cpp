#include "err.hpp"

namespace err {
struct Reg_custom_ind : bom::registry<pol::std_rtti, pol::vptr_map<>, Custom, pol::runtime_checks, pol::indirect_vptr> {};
Sys* make_custom_ind(int id) {
    static SysT<Reg_custom_ind> s("user's handler, vptr_map, indirect, checks", id);
    return &s;
}
} // namespace err
