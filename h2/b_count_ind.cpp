#include "vp.hpp"
// The v-table pointers are looked up through a policy that counts.
namespace vp {
struct counting_vector_ind : pol::vptr {
    template<class Registry>
    struct fn : pol::vptr_vector::fn<Registry> {
        using base = pol::vptr_vector::fn<Registry>;
        template<class Class>
        static auto dynamic_vptr(const Class& arg) -> const bom::vptr_type& {
            ++lookups;
            return base::dynamic_vptr(arg);
        }
    };
};
struct reg_count_ind : bom::registry<pol::std_rtti, counting_vector_ind, pol::fast_perfect_hash, pol::throw_error_handler, pol::indirect_vptr> {};
Machine* machine_count_ind() {
    static Impl<Poly<21>, reg_count_ind, false> m("counted lookups, indirect");
    m.counted = true;
    return &m;
}
} // namespace vp
