#include "backend.hpp"
namespace uni {
struct reg_vec_chk : bom::registry<dyn_rtti, pol::vptr_vector, pol::fast_perfect_hash, pol::runtime_checks, pol::default_error_handler, capture_output> {};
Backend* backend_vec_chk() {
    static BackendT<reg_vec_chk> b("vptr_vector+hash+checks");
    return &b;
}
} // namespace uni
