#include "vp.hpp"
namespace vp {
struct reg_map : bom::registry<pol::std_rtti, pol::vptr_map<>, pol::throw_error_handler, pol::runtime_checks> {};
Machine* machine_map() {
    static Impl<Poly<1>, reg_map, true> m("map, checks");
    return &m;
}
} // namespace vp
