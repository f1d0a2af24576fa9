#include "typed.hpp"
static int init = [] {
    mc::scenario("pairs-2", [] { row<jchar, TYPES>(choose(NTYPES)); }, 1);
    mc::scenario("pairs-3", [] { row<jshort, TYPES>(choose(NTYPES)); }, 1);
    return 0;
}();
