/* C50: the implementation alone, for configurations that keep it in a translation unit of its own */
#define ZPL_IMPLEMENTATION
#include "zpl.h"
