// Floating point numbers in values: construction, conversion, lookup.
#include "json.hpp"
namespace vd {
using namespace json;
void ctors(float f, double d, long double l) { value a(f), b(d), c(l); }
long double reads(const value& v) { (void)(float)v; (void)(double)v; (void)(long double)v; (void)v.as_float(); (void)v.as_double(); return v.as_long_double(); }
template <typename T> void conv(const value& v, const array& a, const object& o, size_t i, const std::string& k, T d) {
    (void)v.is<T>(); (void)v.as<T>(); (void)v.all<T>(); (void)a.all<T>(); (void)o.all<T>();
    (void)v.find<T>(i); (void)v.find<T>(k); (void)a.find<T>(i); (void)o.find<T>(k);
    (void)v.get(k, d); (void)v.get(i, d); (void)v.get(k, i, d); (void)v.get(i, k, d); (void)v.get(k, k, d); (void)a.get(i, d); (void)o.get(k, d);
}
template <typename T> T move_out(value v) { return std::move(v).as<T>(); }
template void conv<float>(const value&, const array&, const object&, size_t, const std::string&, float);
template void conv<double>(const value&, const array&, const object&, size_t, const std::string&, double);
template void conv<long double>(const value&, const array&, const object&, size_t, const std::string&, long double);
template float move_out<float>(value); template double move_out<double>(value); template long double move_out<long double>(value);
}
