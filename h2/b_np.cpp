#include "vp.hpp"
namespace vp {
struct reg_np : bom::registry<pol::static_rtti> {};
Machine* machine_np() {
    static Impl<NonPoly<5>, reg_np, false> m("static rtti");
    return &m;
}
} // namespace vp
