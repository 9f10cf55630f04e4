#define PBT_NO_MAIN
#include "h_array.hpp"
void array_int_1(pbt::Src &s) { machine<int, 1>(s); }
void array_int_3(pbt::Src &s) { machine<int, 3>(s); }
