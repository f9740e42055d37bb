// Objects with embedded v-table pointers.
#include "common.hpp"

int main(int argc, char** argv) {
    using namespace ip;
    std::vector<Machine*> all = {
        machine_direct(), machine_checked(), machine_indirect(), machine_static(),
        machine_static_ind(), machine_poly(), machine_poly_ind()};
    std::vector<Machine*> misuse;
    for (auto m : all)
        if (m->can_misuse())
            misuse.push_back(m);
    std::map<std::string, pbt::Property> props;
    props["C18"] = {[&](pbt::Ctx& c) { c.t.pick(all)->run(c, false); },
                    "at least four steps had an effect; distinct = distinct "
                    "sequences of steps"};
    props["C11"] = {[&](pbt::Ctx& c) { c.t.pick(misuse)->run(c, true); },
                    "objects existed when incorrect uses were tried; distinct = "
                    "distinct sequences of steps"};
    return pbt::main(argc, argv, props);
}
