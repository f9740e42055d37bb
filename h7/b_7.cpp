#include "th.hpp"
struct reg7 : bom::registry<int_rtti, pol::vptr_vector, pol::fast_perfect_hash, pol::throw_error_handler, pol::indirect_vptr> {};
Instance* instance7() {
    return make<reg7>("registry<int_rtti, vptr_vector, fast_perfect_hash, throw_error_handler, indirect_vptr>");
}
