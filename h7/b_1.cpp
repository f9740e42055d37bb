#include "th.hpp"
struct reg1 : std_reg<pol::vptr_vector, pol::throw_error_handler, pol::runtime_checks> {};
Instance* instance1() {
    return make<reg1>("std_reg<vptr_vector, throw_error_handler, runtime_checks>");
}
