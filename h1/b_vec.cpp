#include "backend.hpp"
namespace uni {
struct reg_vec : bom::registry<dyn_rtti, pol::vptr_vector, pol::fast_perfect_hash, pol::default_error_handler, capture_output> {};
Backend* backend_vec() {
    static BackendT<reg_vec> b("vptr_vector+hash");
    return &b;
}
} // namespace uni
