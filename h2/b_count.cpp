#include "vp.hpp"
// The v-table pointers are looked up through a policy that counts.
namespace vp {
struct counting_vector : pol::vptr {
    template<class Registry>
    struct fn : pol::vptr_vector::fn<Registry> {
        using base = pol::vptr_vector::fn<Registry>;
        template<class Class>
        static auto dynamic_vptr(const Class& arg) -> const bom::vptr_type& {
            ++lookups;
            return base::dynamic_vptr(arg);
        }
    };
};
struct reg_count : bom::registry<pol::std_rtti, counting_vector, pol::fast_perfect_hash, pol::throw_error_handler, pol::runtime_checks> {};
Machine* machine_count() {
    static Impl<Poly<20>, reg_count, true> m("counted lookups");
    m.counted = true;
    return &m;
}
} // namespace vp
