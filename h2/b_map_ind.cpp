#include "vp.hpp"
namespace vp {
struct reg_map_ind : bom::registry<pol::std_rtti, pol::vptr_map<>, pol::throw_error_handler, pol::indirect_vptr> {};
Machine* machine_map_ind() {
    static Impl<Poly<3>, reg_map_ind, false> m("map, indirect");
    return &m;
}
} // namespace vp
