#include "err.hpp"

namespace err {
struct Reg_stderr : bom::default_registry::with<pol::runtime_checks> {};
Sys* make_stderr(int id) {
    static SysT<Reg_stderr> s("default handler, stderr, checks", id);
    return &s;
}
} // namespace err
