#include "typed.hpp"
static int init = [] {
    mc::scenario("pairs-6", [] { row<jfloat, TYPES>(choose(NTYPES)); }, 1);
    mc::scenario("pairs-7", [] { row<jdouble, TYPES>(choose(NTYPES)); }, 1);
    return 0;
}();
