// Properties of virtual_ptr.
#include "common.hpp"

int main(int argc, char** argv) {
    using namespace vp;
    std::vector<Machine*> all = {machine_vec(),     machine_map(),
                                 machine_ind(),     machine_map_ind(),
                                 machine_plain(),   machine_np(),
                                 machine_np_ind()};
    auto run = [&](pbt::Ctx& c, int weights) {
        all[c.t.u(uint32_t(all.size()))]->run(c, weights);
    };
    std::map<std::string, pbt::Property> props;
    const char* rule =
        "at least five steps had an effect and at least two objects were "
        "created; distinct = distinct sequences of steps";
    props["C15"] = {[&](pbt::Ctx& c) { run(c, 0); }, rule};
    props["C26"] = {
        [&](pbt::Ctx& c) {
            (c.t.chance(1, 2) ? machine_count() : machine_count_ind())
                ->run(c, c.t.chance(1, 2));
        },
        rule};
    props["C17"] = {[&](pbt::Ctx& c) { run(c, 1); }, rule};
    props["C11"] = {
        [&](pbt::Ctx& c) {
            (c.t.chance(1, 2) ? machine_vec() : machine_map())->run(c, 2);
        },
        rule};
    return pbt::main(argc, argv, props);
}
