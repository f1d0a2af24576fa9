// The string functions of the standard library, instrumented like everything else
#include <string>
template class std::basic_string<char>;
