#include "typed.hpp"
static int init = [] {
    mc::scenario("pairs-12", [] { row<std::shared_ptr<jnivm::Array<jint>>, TYPES>(choose(NTYPES)); }, 1);
    return 0;
}();
