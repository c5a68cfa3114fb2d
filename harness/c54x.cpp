/* the macro monitors compiled as C++ */
#include "c54.c"
