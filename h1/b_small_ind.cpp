#include "backend.hpp"
namespace uni {
struct reg_small_ind : bom::registry<dyn_rtti, pol::vptr_vector, pol::indirect_vptr, pol::default_error_handler, capture_output> {};
Backend* backend_small_ind() {
    static BackendT<reg_small_ind> b("small vptr_vector+indirect");
    return &b;
}
} // namespace uni
