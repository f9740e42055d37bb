#include "backend.hpp"
namespace uni {
struct reg_map : bom::registry<dyn_rtti, pol::vptr_map<>, pol::default_error_handler, capture_output> {};
Backend* backend_map() {
    static BackendT<reg_map> b("vptr_map");
    return &b;
}
} // namespace uni
