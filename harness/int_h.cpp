// integers
#define HX_PART 1
#define HX_CASES 16
#include "conv.hpp"
