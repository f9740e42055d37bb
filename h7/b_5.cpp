#include "th.hpp"
struct reg5 : std_reg<pol::vptr_vector, pol::default_error_handler, pol::runtime_checks, no_output> {};
Instance* instance5() {
    return make<reg5>("std_reg<vptr_vector, default_error_handler, runtime_checks, no_output>");
}
