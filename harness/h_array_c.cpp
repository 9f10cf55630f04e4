#define PBT_NO_MAIN
#include "h_array.hpp"
void array_int_2(pbt::Src &s) { machine<int, 2>(s); }
void array_long_4(pbt::Src &s) { machine<long, 4>(s); }
