#include "th.hpp"
struct reg0 : std_reg<pol::vptr_vector, pol::throw_error_handler> {};
Instance* instance0() {
    return make<reg0>("std_reg<vptr_vector, throw_error_handler>");
}
