// Typed lookup: find<T>(key or position) and get(keys and positions, default) for containers, wrappers and variants.
#include "json.hpp"
#include <array>
#include <deque>
#include <filesystem>
#include <list>
#include <map>
#include <memory>
#include <optional>
#include <set>
#include <unordered_map>
#include <variant>
#include <vector>
namespace vd {
using namespace json;
template <class T> void look(const T& d, const value& v, const array& a, const object& o, size_t i, const std::string& k)
{
    (void)v.find<T>(i); (void)v.find<T>(k); (void)a.find<T>(i); (void)o.find<T>(k);
    (void)v.get(i, d); (void)v.get(k, d); (void)v.get(k, i, d); (void)a.get(i, d); (void)a.get(i, k, d); (void)o.get(k, d);
}
#define LOOK(...) template void look<__VA_ARGS__>(const __VA_ARGS__&, const value&, const array&, const object&, size_t, const std::string&)
using MI = std::map<std::string, int>; using UB = std::unordered_map<std::string, bool>; using A3 = std::array<int, 3>; using PS = std::pair<int, std::string>; using T3 = std::tuple<int, std::string, bool>;
using V1 = std::variant<int, std::string, bool>; using V2 = std::variant<std::monostate, std::vector<int>, std::string>; using V3 = std::variant<int, unsigned long, std::string>;
LOOK(std::vector<int>); LOOK(std::vector<std::string>); LOOK(std::list<long>); LOOK(std::vector<std::vector<int>>); LOOK(MI); LOOK(UB); LOOK(A3); LOOK(PS); LOOK(T3); LOOK(std::optional<int>); LOOK(std::optional<std::vector<int>>);
LOOK(std::shared_ptr<int>); LOOK(std::set<std::string>); LOOK(V1); LOOK(V2); LOOK(V3); LOOK(std::list<value>);
}
