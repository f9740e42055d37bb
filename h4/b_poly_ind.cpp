#include "ip.hpp"
#include <boost/openmethod/policies/vptr_vector.hpp>
#include <boost/openmethod/policies/fast_perfect_hash.hpp>
#include <boost/openmethod/policies/vptr_map.hpp>
namespace ip {
struct reg_poly_ind : bom::registry<pol::std_rtti, pol::vptr_map<>, pol::throw_error_handler, pol::indirect_vptr> {};
Machine* machine_poly_ind() {
    static Impl<Family<reg_poly_ind, true, 0>> m("virtual functions, indirect");
    return &m;
}
} // namespace ip
