// Enumerations: instantiates the conversions between enums and json values that contracts are written for.
#include "json.hpp"
#include <limits>
namespace vd {
using namespace json;
enum class Color { Red = 1, Green = 2, Blue = 4, blue = 5, BLUE = 6 };
enum class Neg { Low = -128, minus_one = -1, Zero = 0, _under = 1, High9 = 128, TooLow = -129, TooHigh = 129 };
enum class Sparse { A = -200, B = -199, C_ = 0, d = 199, E = 200, MEOJSON_ENUM_RANGE(A, E) };
enum class Big : unsigned long long { First, Second, Huge = 1ull << 32, Huge1 = (1ull << 32) + 1, Top = 1ull << 63 };
enum class One : long long { only = 7, MEOJSON_ENUM_RANGE(7, 7), Min = std::numeric_limits<long long>::min() };
enum Plain : unsigned { p_none = 0, p_a = 1, p_b = 2 };
template <class E> void enums(E e, const value& v, value r) {
    value x(e); (void)v.is<E>(); (void)v.as<E>(); (void)std::move(r).as<E>(); (void)v.operator E();
}
template void enums(Color, const value&, value);
template void enums(Neg, const value&, value);
template void enums(Sparse, const value&, value);
template void enums(Big, const value&, value);
template void enums(One, const value&, value);
template void enums(Plain, const value&, value);
}
