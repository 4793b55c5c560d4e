// Iteration over arrays and objects, and construction from lists: client code with contracts of its own (C23).
#include "json.hpp"
#include <utility>
#include <vector>
namespace vd {
using namespace json;
array forward(const array& a) { array r; for (const auto& v : a) { r.emplace_back(v); } return r; }
array forward_mut(array& a) { array r; for (auto it = a.begin(); it != a.end(); ++it) { r.emplace_back(*it); } return r; }
array forward_c(const array& a) { array r; for (auto it = a.cbegin(); it != a.cend(); ++it) { r.emplace_back(*it); } return r; }
array backward(const array& a) { array r; for (auto it = a.rbegin(); it != a.rend(); ++it) { r.emplace_back(*it); } return r; }
array backward_mut(array& a) { array r; for (auto it = a.rbegin(); it != a.rend(); ++it) { r.emplace_back(*it); } return r; }
array backward_c(const array& a) { array r; for (auto it = a.crbegin(); it != a.crend(); ++it) { r.emplace_back(*it); } return r; }
array by_index(const array& a) { array r; for (size_t i = 0; i < a.size(); ++i) { r.emplace_back(a[i]); } return r; }
void fill(array& a, const value& v) { for (auto& x : a) { x = v; } }
object members(const object& o) { object r; for (const auto& [k, v] : o) { r.emplace(k, v); } return r; }
object members_c(const object& o) { object r; for (auto it = o.cbegin(); it != o.cend(); ++it) { r.emplace(it->first, it->second); } return r; }
object members_mut(object& o) { object r; for (auto it = o.begin(); it != o.end(); ++it) { r.emplace(it->first, it->second); } return r; }
array names(const object& o) { array r; for (const auto& [k, v] : o) { r.emplace_back(value(k)); } return r; }
void fill_members(object& o, const value& v) { for (auto& [k, x] : o) { x = v; } }
array list(const value& x, const value& y, const value& z) { return array { x, y, z }; }
object dict(const std::string& k, const value& x, const std::string& l, const value& y) { return object { { k, x }, { l, y } }; }
value tree(const std::string& k, const value& x, const std::string& l, const value& y) { return value { { k, x }, { l, y } }; }
}
