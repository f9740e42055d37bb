#include "backend.hpp"
namespace uni {
struct reg_ind : bom::registry<dyn_rtti, pol::vptr_vector, pol::fast_perfect_hash, pol::indirect_vptr, pol::runtime_checks, pol::default_error_handler, capture_output> {};
Backend* backend_ind() {
    static BackendT<reg_ind> b("vptr_vector+hash+indirect+checks");
    return &b;
}
} // namespace uni
