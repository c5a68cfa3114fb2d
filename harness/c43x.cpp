/* the vector and matrix monitors compiled as C++, with the operators of the C++ interface */
#include "c43.c"
