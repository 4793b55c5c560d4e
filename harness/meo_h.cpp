// jsonization macros
#define HX_PART 6
#define HX_CASES 5
#include "conv.hpp"
