// optional and smart pointers
#define HX_PART 4
#define HX_CASES 10
#include "conv.hpp"
