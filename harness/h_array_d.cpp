#define PBT_NO_MAIN
#include "h_array.hpp"
void array_float_5(pbt::Src &s) { machine<float, 5>(s); }
void array_double_1(pbt::Src &s) { machine<double, 1>(s); }
