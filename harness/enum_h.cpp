// enumerations
#define HX_PART 5
#define HX_CASES 6
#include "conv.hpp"
