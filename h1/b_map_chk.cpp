#include "backend.hpp"
namespace uni {
struct reg_map_chk : bom::registry<dyn_rtti, pol::vptr_map<>, pol::runtime_checks, pol::default_error_handler, capture_output> {};
Backend* backend_map_chk() {
    static BackendT<reg_map_chk> b("vptr_map+checks");
    return &b;
}
} // namespace uni
