// Structs with MEO_JSONIZATION: instantiates what the macros generate, and the conversions of json values, objects and containers that use it.
#include "json.hpp"
#include <map>
#include <optional>
#include <tuple>
#include <vector>
namespace vd {
using namespace json;
struct S1
{
    int x = 5; std::string s = "dflt";
    MEO_JSONIZATION(x, MEO_OPT s)
};
struct S2      // every kind of marker, nested, keys that differ from the members
{
    std::vector<int> vec; S1 inner; std::map<std::string, int> m; std::string name = "n"; unsigned long big = 3; int renamed = -1;
    MEO_JSONIZATION(vec, MEO_OPT inner, MEO_OPT m, MEO_KEY("the name") name, big, MEO_OPT MEO_KEY("other") renamed)
};
struct S3      // nothing is required
{
    int a = 0; bool b = true; std::optional<int> o = 5;
    MEO_JSONIZATION(MEO_OPT a, MEO_KEY("B") MEO_OPT b, MEO_OPT o)
};
struct S4      // members named like members of json classes, one member for another's key
{
    json::value any; bool begin = false; long end = 0; std::tuple<int, std::string> both { 1, "q" };
    MEO_JSONIZATION(any, MEO_KEY("end") begin, MEO_KEY("begin") end, MEO_OPT both)
};
struct S5
{
    std::vector<S1> list; std::map<std::string, S3> by; std::optional<S1> maybe;
    MEO_JSONIZATION(list, MEO_OPT by, MEO_OPT maybe)
};
template <class T> void use(const T& x, T y, const value& v, value r, const object& o, std::string& e)
{
    value a(x); object b(x);
    (void)x.to_json(); (void)x.check_json(v); (void)x.check_json(v, e); (void)y.from_json(v); (void)y.from_json(v, e);
    (void)v.is<T>(); (void)v.as<T>(); (void)v.operator T(); (void)std::move(r).as<T>(); (void)o.operator T();
}
template void use(const S1&, S1, const value&, value, const object&, std::string&);
template void use(const S2&, S2, const value&, value, const object&, std::string&);
template void use(const S3&, S3, const value&, value, const object&, std::string&);
template void use(const S4&, S4, const value&, value, const object&, std::string&);
template void use(const S5&, S5, const value&, value, const object&, std::string&);
template <class T> void look(const T& d, const value& v, const array& a, const object& o, size_t i, const std::string& k)
{
    (void)v.find<T>(i); (void)v.find<T>(k); (void)a.find<T>(i); (void)o.find<T>(k); (void)v.get(i, d); (void)v.get(k, d); (void)v.get(k, i, d); (void)a.get(i, d); (void)a.get(i, k, d); (void)o.get(k, d);
}
#define LOOK(...) template void look<__VA_ARGS__>(const __VA_ARGS__&, const value&, const array&, const object&, size_t, const std::string&)
LOOK(S1); LOOK(S3); LOOK(std::vector<S1>); LOOK(std::optional<S1>);
}
