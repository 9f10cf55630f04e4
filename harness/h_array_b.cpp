#define PBT_NO_MAIN
#include "h_array.hpp"
void array_double_2(pbt::Src &s) { machine<double, 2>(s); }
void array_double_3(pbt::Src &s) { machine<double, 3>(s); }
