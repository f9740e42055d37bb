#include "backend.hpp"
namespace uni {
struct reg_small_chk : bom::registry<dyn_rtti, pol::vptr_vector, pol::runtime_checks, pol::default_error_handler, capture_output> {};
Backend* backend_small_chk() {
    static BackendT<reg_small_chk> b("small vptr_vector+checks");
    return &b;
}
} // namespace uni
