#include "ip.hpp"
namespace ip {
struct reg_static_ind : bom::registry<pol::static_rtti, pol::indirect_vptr> {};
Machine* machine_static_ind() {
    static Impl<Family<reg_static_ind, false, 0>> m("static rtti, indirect");
    return &m;
}
} // namespace ip
