#include "vp.hpp"
namespace vp {
struct reg_ind : bom::registry<pol::std_rtti, pol::vptr_vector, pol::fast_perfect_hash, pol::throw_error_handler, pol::indirect_vptr, pol::runtime_checks> {};
Machine* machine_ind() {
    static Impl<Poly<2>, reg_ind, true> m("vector, hash, indirect, checks");
    return &m;
}
} // namespace vp
