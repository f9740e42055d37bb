#include "th.hpp"
struct reg2 : bom::registry<pol::std_rtti, pol::vptr_map<>, pol::throw_error_handler, pol::runtime_checks> {};
Instance* instance2() {
    return make<reg2>("registry<std_rtti, vptr_map<>, throw_error_handler, runtime_checks>");
}
