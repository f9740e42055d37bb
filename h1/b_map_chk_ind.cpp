#include "backend.hpp"
namespace uni {
struct reg_map_chk_ind : bom::registry<dyn_rtti, pol::vptr_map<>, pol::runtime_checks, pol::indirect_vptr, pol::default_error_handler, capture_output> {};
Backend* backend_map_chk_ind() {
    static BackendT<reg_map_chk_ind> b("vptr_map+indirect+checks");
    return &b;
}
} // namespace uni
