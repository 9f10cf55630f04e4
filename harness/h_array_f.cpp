#define PBT_NO_MAIN
#include "h_array.hpp"
void array_double_10(pbt::Src &s) { machine<double, 10>(s); }
