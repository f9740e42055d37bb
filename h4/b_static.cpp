#include "ip.hpp"
namespace ip {
struct reg_static : bom::registry<pol::static_rtti> {};
Machine* machine_static() {
    static Impl<Family<reg_static, false, 0>> m("static rtti");
    return &m;
}
} // namespace ip
