#include "backend.hpp"
namespace uni {
struct reg_map_ind : bom::registry<dyn_rtti, pol::vptr_map<>, pol::indirect_vptr, pol::default_error_handler, capture_output> {};
Backend* backend_map_ind() {
    static BackendT<reg_map_ind> b("vptr_map+indirect");
    return &b;
}
} // namespace uni
