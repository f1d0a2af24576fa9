#include "typed.hpp"
static int init = [] {
    mc::scenario("pairs-8", [] { row<bool, TYPES>(choose(NTYPES)); }, 1);
    mc::scenario("pairs-9", [] { row<std::shared_ptr<Tr>, TYPES>(choose(NTYPES)); }, 1);
    return 0;
}();
