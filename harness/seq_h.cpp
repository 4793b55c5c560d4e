// collections and maps
#define HX_PART 2
#define HX_CASES 18
#include "conv.hpp"
