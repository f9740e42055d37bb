#include "ip.hpp"
namespace ip {
struct reg_direct : bom::registry<pol::std_rtti, pol::throw_error_handler> {};
Machine* machine_direct() {
    static Impl<Family<reg_direct, false, 0>> m("direct");
    return &m;
}
} // namespace ip
