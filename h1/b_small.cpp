#include "backend.hpp"
namespace uni {
struct reg_small : bom::registry<dyn_rtti, pol::vptr_vector, pol::default_error_handler, capture_output> {};
Backend* backend_small() {
    static BackendT<reg_small> b("small vptr_vector");
    return &b;
}
} // namespace uni
