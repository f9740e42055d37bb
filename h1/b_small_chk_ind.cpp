#include "backend.hpp"
namespace uni {
struct reg_small_chk_ind : bom::registry<dyn_rtti, pol::vptr_vector, pol::runtime_checks, pol::indirect_vptr, pol::default_error_handler, capture_output> {};
Backend* backend_small_chk_ind() {
    static BackendT<reg_small_chk_ind> b("small vptr_vector+indirect+checks");
    return &b;
}
} // namespace uni
