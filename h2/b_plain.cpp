#include "vp.hpp"
namespace vp {
struct reg_plain : bom::registry<pol::std_rtti, pol::vptr_vector, pol::fast_perfect_hash, pol::throw_error_handler> {};
Machine* machine_plain() {
    static Impl<Poly<4>, reg_plain, false> m("vector, hash");
    return &m;
}
} // namespace vp
