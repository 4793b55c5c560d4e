// the same without MEOJSON_KEEP_FLOATING_PRECISION
#define HX_PLAIN 1
#include "flt_h.cpp"
