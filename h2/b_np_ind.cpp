#include "vp.hpp"
namespace vp {
struct reg_np_ind : bom::registry<pol::static_rtti, pol::indirect_vptr> {};
Machine* machine_np_ind() {
    static Impl<NonPoly<6>, reg_np_ind, false> m("static rtti, indirect");
    return &m;
}
} // namespace vp
