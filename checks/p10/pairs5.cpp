#include "typed.hpp"
static int init = [] {
    mc::scenario("pairs-10", [] { row<std::shared_ptr<String>, TYPES>(choose(NTYPES)); }, 1);
    mc::scenario("pairs-11", [] { row<jobject, TYPES>(choose(NTYPES)); }, 1);
    return 0;
}();
