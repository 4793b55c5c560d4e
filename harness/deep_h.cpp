// known finding: the parser recurses once per nesting level, so a deeply nested text exhausts the C++ stack
#include "json.hpp"
#include <cstdio>
int main() { auto r = json::parse(std::string(3000000, '[')); std::printf("%d\n", (int)r.has_value()); return 0; }
