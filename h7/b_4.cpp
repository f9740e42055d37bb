#include "th.hpp"
struct reg4 : bom::registry<int_rtti, pol::vptr_vector, pol::throw_error_handler, pol::runtime_checks> {};
Instance* instance4() {
    return make<reg4>("registry<int_rtti, vptr_vector, throw_error_handler, runtime_checks>");
}
