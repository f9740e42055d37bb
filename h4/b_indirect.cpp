#include "ip.hpp"
namespace ip {
struct reg_indirect : bom::registry<pol::std_rtti, pol::throw_error_handler, pol::indirect_vptr, pol::runtime_checks> {};
Machine* machine_indirect() {
    static Impl<Family<reg_indirect, false, 0>> m("indirect, checks");
    return &m;
}
} // namespace ip
