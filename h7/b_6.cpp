#include "th.hpp"
struct reg6 : bom::registry<int_rtti, pol::vptr_map<>, pol::default_error_handler, no_output, pol::indirect_vptr> {};
Instance* instance6() {
    return make<reg6>("registry<int_rtti, vptr_map<>, default_error_handler, no_output, indirect_vptr>");
}
