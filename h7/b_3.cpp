#include "th.hpp"
struct reg3 : std_reg<pol::vptr_vector, pol::throw_error_handler, pol::runtime_checks, pol::indirect_vptr> {};
Instance* instance3() {
    return make<reg3>("std_reg<vptr_vector, throw_error_handler, runtime_checks, indirect_vptr>");
}
