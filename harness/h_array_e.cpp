#define PBT_NO_MAIN
#include "h_array.hpp"
void array_int_7(pbt::Src &s) { machine<int, 7>(s); }
