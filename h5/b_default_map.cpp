#include "err.hpp"

namespace err {
struct Reg_default_map : bom::registry<pol::runtime_checks, Named, Capture, pol::default_error_handler, pol::vptr_map<>> {};
Sys* make_default_map(int id) {
    static SysT<Reg_default_map> s("default handler, custom rtti, vptr_map, checks", id);
    return &s;
}
} // namespace err
