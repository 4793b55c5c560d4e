// Classes with conversions of their own: members, a specialisation of ext::jsonization, moving variants. The conversions are only declared: what they do is arbitrary.
#include "json.hpp"
#include <map>
#include <memory>
#include <optional>
#include <tuple>
#include <variant>
#include <vector>
namespace vd {
using namespace json;
struct P { int n = 7; std::string s; value to_json() const; bool check_json(const value&) const; bool from_json(const value&); };       // members
struct A { int n = 7; std::string s; array to_json() const; bool check_json(const value&) const; bool from_json(const value&); };
struct O { int n = 7; std::string s; object to_json() const; bool check_json(const value&) const; bool from_json(const value&); };
struct N { int n = 7; std::string s; };       // specialisation
struct Q { int n = 7; std::string s; };       // specialisation with moving variants as well
struct M { int n = 7; std::string s; M() = default; M(M&&) = default; M& operator=(M&&) = default; M(const M&) = delete; };       // nothing but moving variants
struct B { int n = 7; std::string s; };       // specialisation that gives arrays
struct C { int n = 7; std::string s; };       // specialisation that gives objects
}
namespace json::ext {
template <> class jsonization<vd::N> { public: value to_json(const vd::N&) const; bool check_json(const value&) const; bool from_json(const value&, vd::N&) const; };
template <> class jsonization<vd::Q> { public: value to_json(const vd::Q&) const; bool check_json(const value&) const; bool from_json(const value&, vd::Q&) const;
                                               value move_to_json(vd::Q&&) const; bool move_from_json(value&&, vd::Q&) const; };
template <> class jsonization<vd::M> { public: bool check_json(const value&) const; value move_to_json(vd::M&&) const; bool move_from_json(value&&, vd::M&) const; };
template <> class jsonization<vd::B> { public: array to_json(const vd::B&) const; bool check_json(const value&) const; bool from_json(const value&, vd::B&) const; array move_to_json(vd::B&&) const; bool move_from_json(value&&, vd::B&) const; };
template <> class jsonization<vd::C> { public: object to_json(const vd::C&) const; bool check_json(const value&) const; bool from_json(const value&, vd::C&) const; object move_to_json(vd::C&&) const; bool move_from_json(value&&, vd::C&) const; };
}
namespace vd {
struct W { P p; N n; std::vector<N> l; std::map<std::string, P> m; std::optional<P> o; MEO_JSONIZATION(p, MEO_OPT n, MEO_KEY("list") l, MEO_OPT m, MEO_OPT o) };
template <class T> void use(const T& x, const value& v, value r)
{
    value a(x); (void)v.is<T>(); (void)v.as<T>(); (void)std::move(r).as<T>();
}
template <class T> void ops(const value& v, const array& a, const object& o) { (void)v.operator T(); (void)a.operator T(); (void)o.operator T(); }
template <class T> void mops(value v, array a, object o) { (void)std::move(v).operator T(); (void)std::move(a).operator T(); (void)std::move(o).operator T(); }
template void use(const P&, const value&, value); template void use(const A&, const value&, value); template void use(const O&, const value&, value);
template void use(const N&, const value&, value); template void use(const Q&, const value&, value); template void use(const B&, const value&, value); template void use(const C&, const value&, value);
template void ops<P>(const value&, const array&, const object&); template void ops<A>(const value&, const array&, const object&); template void ops<O>(const value&, const array&, const object&);
template void ops<N>(const value&, const array&, const object&); template void ops<Q>(const value&, const array&, const object&);
template void mops<Q>(value, array, object); template void mops<M>(value, array, object);
inline void misc(const A& a, const O& o, const B& b, const C& c, Q q, M m, B b2, C c2, const value& v, value r)
{
    array x(a); object y(o); array z(b); object w(c); value u(std::move(q)); value t(std::move(m)); array s(std::move(b2)); object p(std::move(c2)); (void)v.is<M>(); (void)std::move(r).as<M>();
}
template <class T> void cont(const T& x, T y, const value& v, value r)
{
    value a(x); value b(std::move(y)); (void)v.is<T>(); (void)v.as<T>(); (void)std::move(r).as<T>();
}
template void cont(const std::vector<P>&, std::vector<P>, const value&, value); template void cont(const std::vector<N>&, std::vector<N>, const value&, value);
template void cont(const std::map<std::string, P>&, std::map<std::string, P>, const value&, value); template void cont(const std::map<std::string, N>&, std::map<std::string, N>, const value&, value);
template void cont(const std::optional<P>&, std::optional<P>, const value&, value); template void cont(const std::optional<N>&, std::optional<N>, const value&, value);
template void cont(const std::tuple<P, N>&, std::tuple<P, N>, const value&, value); template void cont(const std::pair<int, N>&, std::pair<int, N>, const value&, value);
template void cont(const std::array<P, 2>&, std::array<P, 2>, const value&, value); template void cont(const std::vector<std::optional<N>>&, std::vector<std::optional<N>>, const value&, value);
template void cont(const std::variant<int, P, N>&, std::variant<int, P, N>, const value&, value); template void cont(const std::shared_ptr<P>&, std::shared_ptr<P>, const value&, value);
template <class T> void meo(const T& x, T y, const value& v, value r, const object& o, std::string& e)
{
    value a(x); object b(x);
    (void)x.to_json(); (void)x.check_json(v); (void)x.check_json(v, e); (void)y.from_json(v); (void)y.from_json(v, e);
    (void)v.is<T>(); (void)v.as<T>(); (void)v.operator T(); (void)std::move(r).as<T>(); (void)o.operator T();
}
template void meo(const W&, W, const value&, value, const object&, std::string&);
template <class T> void look(const T& d, const value& v, const array& a, const object& o, size_t i, size_t j, const std::string& k, const std::string& l)
{
    (void)v.find<T>(i); (void)v.find<T>(k); (void)a.find<T>(i); (void)o.find<T>(k);
    (void)v.get(i, d); (void)v.get(k, d); (void)v.get(k, i, d); (void)v.get(i, k, d); (void)v.get(k, l, d); (void)a.get(i, d); (void)a.get(i, k, d); (void)o.get(k, d); (void)o.get(k, i, d); (void)o.get(k, l, d); (void)j;
}
#define LOOK(...) template void look<__VA_ARGS__>(const __VA_ARGS__&, const value&, const array&, const object&, size_t, size_t, const std::string&, const std::string&)
LOOK(P); LOOK(A); LOOK(O); LOOK(N); LOOK(Q); LOOK(B); LOOK(C); LOOK(W); LOOK(std::optional<P>); LOOK(std::vector<N>);
}
