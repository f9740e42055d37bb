#include "ip.hpp"
#include <boost/openmethod/policies/vptr_vector.hpp>
#include <boost/openmethod/policies/fast_perfect_hash.hpp>
#include <boost/openmethod/policies/vptr_map.hpp>
namespace ip {
struct reg_poly : bom::registry<pol::std_rtti, pol::vptr_vector, pol::fast_perfect_hash, pol::throw_error_handler, pol::runtime_checks> {};
Machine* machine_poly() {
    static Impl<Family<reg_poly, true, 0>> m("virtual functions, checks");
    return &m;
}
} // namespace ip
