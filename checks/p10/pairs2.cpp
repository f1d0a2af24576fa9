#include "typed.hpp"
static int init = [] {
    mc::scenario("pairs-4", [] { row<jint, TYPES>(choose(NTYPES)); }, 1);
    mc::scenario("pairs-5", [] { row<jlong, TYPES>(choose(NTYPES)); }, 1);
    return 0;
}();
