/* the quaternion monitors compiled as C++, with the operators of the C++ interface */
#include "c44.c"
