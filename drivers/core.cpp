// Value, array and object: construction, copies, access, lookup, mutation, comparison. Instantiates what contracts are written for.
#include "json.hpp"
#include <list>
#include <map>
#include <unordered_map>
#include <vector>
namespace vd {
using namespace json;
void ctors(std::string s, const std::string& cs, std::string_view sv, const char* cp, array a, object o, const array& ca, const object& co, const value& cv) {
    value v0; value v1(cv); value v2(std::move(v1)); value v3(true); value v4(1), v5(1u), v6(1l), v7(1ul), v8(1ll), v9(1ull);
    value va(cp); value vb(cs); value vc(sv); value vd(nullptr); value ve(std::monostate{}); value vf(ca); value vg(std::move(a)); value vh(co); value vi(std::move(o));
    array a0; array a1(ca); array a2(std::move(a1)); array a3((size_t)3); object o0; object o1(co); object o2(std::move(o1));
    v0 = cv; v0 = std::move(v2); a0 = ca; a0 = std::move(a2); o0 = co; o0 = std::move(o2);
}
int ints(const value& v) {
    (void)(bool)v; (void)(int)v; (void)(unsigned)v; (void)(long)v; (void)(unsigned long)v; (void)(long long)v; (void)(unsigned long long)v; (void)(std::string)v; (void)(std::string_view)v;
    (void)static_cast<array>(v); (void)static_cast<object>(v); (void)(std::nullptr_t)v; (void)(std::monostate)v;
    (void)v.as_boolean(); (void)v.as_string(); (void)v.as_string_view(); (void)v.as_array(); (void)v.as_object();
    return v.as_integer();
}
bool kinds(const value& v) {
    return v.valid() || v.empty() || v.is_null() || v.is_number() || v.is_boolean() || v.is_string() || v.is_array() || v.is_object() || v.type() == value::value_type::null
        || v.is<bool>() || v.is<int>() || v.is<unsigned>() || v.is<long>() || v.is<unsigned long>() || v.is<long long>() || v.is<unsigned long long>() || v.is<signed char>() || v.is<unsigned char>() || v.is<short>() || v.is<unsigned short>()
        || v.is<std::string>() || v.is<array>() || v.is<object>() || v.is<std::nullptr_t>() || v.is<std::monostate>() || v.is<value>()
        || v.is<std::vector<int>>() || v.is<std::vector<std::string>>() || v.is<std::map<std::string, int>>() || v.all<int>() || v.all<std::string>() || v.is<std::optional<int>>();
}
void conv(const value& v) {
    (void)v.as<bool>(); (void)v.as<int>(); (void)v.as<std::string>(); (void)v.as<value>(); (void)v.as<array>(); (void)v.as<object>();
    (void)v.as<std::vector<int>>(); (void)v.as<std::map<std::string, int>>(); (void)v.as<std::optional<int>>();
    (void)v.as<unsigned>(); (void)v.as<long>(); (void)v.as<unsigned long>(); (void)v.as<long long>(); (void)v.as<unsigned long long>();
}
void lookup(const value& v, const array& a, const object& o, size_t i, const std::string& k) {
    (void)v.contains(k); (void)v.contains(i); (void)v.exists(k); (void)v.exists(i); (void)v.at(i); (void)v.at(k); (void)v.find_value(i); (void)v.find_value(k); (void)v[i];
    (void)v.find(i); (void)v.find(k); (void)v.find<int>(i); (void)v.find<int>(k); (void)v.find<std::string>(k);
    (void)a.contains(i); (void)a.exists(i); (void)a.at(i); (void)a.find_value(i); (void)a[i]; (void)a.empty(); (void)a.size(); (void)a.find<int>(i); (void)a.find(i);
    (void)o.contains(k); (void)o.exists(k); (void)o.at(k); (void)o.find_value(k); (void)o.empty(); (void)o.size(); (void)o.find<int>(k); (void)o.find(k);
}
void gets(const value& v, const array& a, const object& o, size_t i, const std::string& k, const value& d) {
    (void)v.get(k, d); (void)v.get(i, d); (void)v.get(k, 7); (void)v.get(i, 7); (void)v.get(k, i, 7); (void)v.get(i, k, 7); (void)v.get(k, k, d); (void)v.get(k, i, k, 7); (void)v.get(k, "s");
    (void)a.get(i, 7); (void)a.get(i, k, d); (void)o.get(k, 7); (void)o.get(k, i, d); (void)v.get(k, true); (void)v.get(k, std::string("x"));
}
void mutate(value& v, array& a, object& o, size_t i, const std::string& k, std::string rk, const array& ca, const object& co, array ra, object ro, const value& cv) {
    v[k] = cv; v[std::move(rk)] = cv; v[i] = cv; v.erase(i); v.erase(k); v.as_array(); v.as_object(); v.clear(); v.emplace(cv); v.emplace(k, cv);
    v |= co; v |= std::move(ro); v += ca; v += std::move(ra);
    a[i] = cv; a.erase(i); a.erase(a.begin()); a.clear(); a.emplace_back(cv); a.push_back(cv); a.push_back(value(1)); a.emplace_back(value(1)); a += ca; a += std::move(ra);
    o[k] = cv; o[std::move(rk)] = cv; o.erase(k); o.erase(o.begin()); o.clear(); o.emplace(k, cv); o.insert(k, cv); o |= co; o |= std::move(ro);
}
void algebra(value v, array a, object o, const value& cv, const array& ca, const object& co, array ra, object ro) {
    (void)(cv | co); (void)(cv | std::move(ro)); (void)(std::move(v) | co); (void)(std::move(v) | std::move(ro));
    (void)(cv + ca); (void)(cv + std::move(ra)); (void)(std::move(v) + ca); (void)(std::move(v) + std::move(ra));
    (void)(ca + ca); (void)(ca + std::move(ra)); (void)(std::move(a) + ca); (void)(std::move(a) + std::move(ra));
    (void)(co | co); (void)(co | std::move(ro)); (void)(std::move(o) | co); (void)(std::move(o) | std::move(ro));
}
bool cmp(const value& a, const value& b, const array& x, const array& y, const object& p, const object& q) { return a == b || a != b || x == y || x != y || p == q || p != q; }
}
