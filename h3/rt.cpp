#include "rt.hpp"
#include <boost/openmethod/initialize.hpp>

namespace rt {
template<class R>
static void init() {
    try {
        bom::initialize<R>();
    } catch (std::runtime_error& e) {
        fail(std::string("initialize: ") + e.what());
    }
}
void init_program() {
    init<BOOST_OPENMETHOD_DEFAULT_REGISTRY>();
}
int run_cases(int n) {
    std::map<int, void (*)()> all;
    for (auto c = Case::first; c; c = c->next)
        all[c->n] = c->fn;
    check(int(all.size()) == n, "cases are missing");
    for (auto& c : all)
        c.second();
    printf("calls %d\n", calls);
    return 0;
}
int expect_odr_violation() {
    using registry = bom::default_registry;
    registry::error_handler::set([](const registry::error_handler::error_variant& e) {
        if (auto p = std::get_if<bom::odr_violation>(&e))
            throw *p;
    });
    try {
        bom::initialize();
    } catch (bom::odr_violation) {
        return 0;
    }
    fail("files that define the default registry differently are not reported");
}
void init_default() {
    init<default_registry>();
}
void init_indirect() {
    init<indirect_registry>();
}
void init_checked() {
    init<checked_registry>();
}
void init_map() {
    init<map_registry>();
}
void init_id() {
    init<id_registry>();
}
void init_def() {
    init<def_registry>();
}
void init_id_ind() {
    init<id_ind_registry>();
}
} // namespace rt
