// Containers, tuples and wrappers: instantiates the conversions that contracts are written for.
#include "json.hpp"
#include <array>
#include <deque>
#include <list>
#include <map>
#include <memory>
#include <optional>
#include <tuple>
#include <unordered_map>
#include <variant>
#include <set>
#include <unordered_set>
#include <filesystem>
#include <vector>
namespace vd {
using namespace json;
template <class T> void ops(const value& v, value r) { if constexpr (!std::is_same_v<T, std::monostate>) { (void)v.operator T(); (void)std::move(r).operator T(); } }
template <class T> void seqs(const T& c, T m, T n, const value& v, value r, const array& a, array ra) { ops<T>(v, v);
    array x(c); array y(std::move(m)); value z(c); value w(std::move(n));
    (void)v.is<T>(); (void)v.as<T>(); (void)std::move(r).as<T>(); (void)a.as<T>(); (void)std::move(ra).as<T>();
}
template <class T> void maps(const T& c, T m, T n, const value& v, value r, const object& a, object ra) { ops<T>(v, v);
    object x(c); object y(std::move(m)); value z(c); value w(std::move(n));
    (void)v.is<T>(); (void)v.as<T>(); (void)std::move(r).as<T>(); (void)a.as<T>(); (void)std::move(ra).as<T>();
}
template <class T> void wraps(const T& c, T m, const value& v, value r) { ops<T>(v, v);
    value z(c); value w(std::move(m));
    (void)v.is<T>(); (void)v.as<T>(); (void)std::move(r).as<T>();
}
template <class T> void moves(T m, const value& v, value r) { ops<T>(v, v);
    value w(std::move(m));
    (void)v.is<T>(); (void)v.as<T>(); (void)std::move(r).as<T>();
}
template void seqs(const std::vector<int>&, std::vector<int>, std::vector<int>, const value&, value, const array&, array);
template void seqs(const std::vector<std::string>&, std::vector<std::string>, std::vector<std::string>, const value&, value, const array&, array);
template void seqs(const std::list<long>&, std::list<long>, std::list<long>, const value&, value, const array&, array);
template void seqs(const std::deque<bool>&, std::deque<bool>, std::deque<bool>, const value&, value, const array&, array);
template void seqs(const std::vector<std::vector<int>>&, std::vector<std::vector<int>>, std::vector<std::vector<int>>, const value&, value, const array&, array);
template void seqs(const std::vector<std::optional<int>>&, std::vector<std::optional<int>>, std::vector<std::optional<int>>, const value&, value, const array&, array);
template void seqs(const std::vector<std::map<std::string, int>>&, std::vector<std::map<std::string, int>>, std::vector<std::map<std::string, int>>, const value&, value, const array&, array);
template void seqs(const std::array<int, 3>&, std::array<int, 3>, std::array<int, 3>, const value&, value, const array&, array);
template void seqs(const std::array<std::string, 2>&, std::array<std::string, 2>, std::array<std::string, 2>, const value&, value, const array&, array);
template void seqs(const std::pair<int, std::string>&, std::pair<int, std::string>, std::pair<int, std::string>, const value&, value, const array&, array);
template void seqs(const std::tuple<int, std::string, bool>&, std::tuple<int, std::string, bool>, std::tuple<int, std::string, bool>, const value&, value, const array&, array);
template void maps(const std::map<std::string, int>&, std::map<std::string, int>, std::map<std::string, int>, const value&, value, const object&, object);
template void maps(const std::map<std::string, std::string>&, std::map<std::string, std::string>, std::map<std::string, std::string>, const value&, value, const object&, object);
template void maps(const std::unordered_map<std::string, bool>&, std::unordered_map<std::string, bool>, std::unordered_map<std::string, bool>, const value&, value, const object&, object);
template void maps(const std::map<std::string, std::vector<int>>&, std::map<std::string, std::vector<int>>, std::map<std::string, std::vector<int>>, const value&, value, const object&, object);
template void wraps(const std::optional<int>&, std::optional<int>, const value&, value);
template void wraps(const std::optional<std::string>&, std::optional<std::string>, const value&, value);
template void wraps(const std::optional<std::vector<int>>&, std::optional<std::vector<int>>, const value&, value);
template void wraps(const std::shared_ptr<int>&, std::shared_ptr<int>, const value&, value);
template void moves(std::unique_ptr<std::string>, const value&, value);
using V1 = std::variant<int, std::string, bool>; using V2 = std::variant<std::monostate, std::vector<int>, std::string>; using V3 = std::variant<int, unsigned long, std::string>;
template void seqs(const std::set<int>&, std::set<int>, std::set<int>, const value&, value, const array&, array);
template void seqs(const std::set<std::string>&, std::set<std::string>, std::set<std::string>, const value&, value, const array&, array);
template void seqs(const std::unordered_set<std::string>&, std::unordered_set<std::string>, std::unordered_set<std::string>, const value&, value, const array&, array);
template void seqs(const std::vector<unsigned>&, std::vector<unsigned>, std::vector<unsigned>, const value&, value, const array&, array);
template void seqs(const std::array<unsigned long, 2>&, std::array<unsigned long, 2>, std::array<unsigned long, 2>, const value&, value, const array&, array);
template void seqs(const std::vector<std::filesystem::path>&, std::vector<std::filesystem::path>, std::vector<std::filesystem::path>, const value&, value, const array&, array);
template void seqs(const std::list<value>&, std::list<value>, std::list<value>, const value&, value, const array&, array);
template void seqs(const std::vector<V1>&, std::vector<V1>, std::vector<V1>, const value&, value, const array&, array);
template void maps(const std::map<std::string, value>&, std::map<std::string, value>, std::map<std::string, value>, const value&, value, const object&, object);
template void maps(const std::map<std::string, V1>&, std::map<std::string, V1>, std::map<std::string, V1>, const value&, value, const object&, object);
template void wraps(const V1&, V1, const value&, value);
template void wraps(const V2&, V2, const value&, value);
template void wraps(const V3&, V3, const value&, value);
template void wraps(const std::filesystem::path&, std::filesystem::path, const value&, value);
template void wraps(const std::monostate&, std::monostate, const value&, value);
}
