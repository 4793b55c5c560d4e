// fixed-size arrays, tuples, variants
#define HX_PART 3
#define HX_CASES 13
#include "conv.hpp"
