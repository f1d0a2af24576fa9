#include "typed.hpp"
static int init = [] {
    mc::scenario("pairs-0", [] { row<jboolean, TYPES>(choose(NTYPES)); }, 1);
    mc::scenario("pairs-1", [] { row<jbyte, TYPES>(choose(NTYPES)); }, 1);
    return 0;
}();
