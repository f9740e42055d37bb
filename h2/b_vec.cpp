#include "vp.hpp"
namespace vp {
struct reg_vec : bom::registry<pol::std_rtti, pol::vptr_vector, pol::fast_perfect_hash, pol::throw_error_handler, pol::runtime_checks> {};
Machine* machine_vec() {
    static Impl<Poly<0>, reg_vec, true> m("vector, hash, checks");
    return &m;
}
} // namespace vp
