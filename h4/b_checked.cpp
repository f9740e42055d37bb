#include "ip.hpp"
namespace ip {
struct reg_checked : bom::registry<pol::std_rtti, pol::throw_error_handler, pol::runtime_checks> {};
Machine* machine_checked() {
    static Impl<Family<reg_checked, false, 0>> m("direct, checks");
    return &m;
}
} // namespace ip
