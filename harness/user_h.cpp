// classes with conversions of their own (members, specialisations of ext::jsonization, moving variants), alone, in containers and in macro structs
#include "json.hpp"
#include "hx.hpp"
#include <array>
#include <map>
#include <memory>
#include <optional>
#include <tuple>
#include <variant>
#include <vector>
static const char* TAGS = "C24";
using json::value; using json::array; using json::object;
// what the conversions do: arbitrary, but a function of the object and the value
static uint64_t mixs(uint64_t h, const std::string& s) { for (unsigned char c : s) h = (h ^ c) * 0x100000001b3ull; h ^= h >> 29; return h * 0x9E3779B97F4A7C15ull; }
static uint64_t hash(int salt, int n, const std::string& s) { return mixs(mixs(0xcbf29ce484222325ull + (uint64_t)salt * 77, std::to_string(n)), s); }
static uint64_t hash(int salt, int n, const std::string& s, const value& v) { return mixs(hash(salt, n, s) + (uint64_t)v.type(), v.to_string()); }
static value tree(uint64_t h, unsigned depth)
{
    const uint64_t g = mixs(h, "t");
    switch (h % (depth ? 7 : 4)) {
    case 0: return value(); case 1: return value((g & 1) != 0); case 2: return value((int)g); case 3: return value(std::string(g % 40, (char)('a' + g % 26)) + std::string("\0\"", g % 3));
    case 4: case 5: { array a; for (unsigned i = 0; i < g % 4; i++) a.emplace_back(tree(g + i, depth - 1)); return value(a); }
    default: { object o; for (unsigned i = 0; i < g % 4; i++) o.emplace("k" + std::to_string(i), tree(g + i, depth - 1)); return value(o); }
    }
}
static array tarr(uint64_t h) { array a; for (unsigned i = 0; i < h % 5; i++) a.emplace_back(tree(h + i * 31, 1)); return a; }
static object tobj(uint64_t h) { object o; for (unsigned i = 0; i < h % 5; i++) o.emplace(std::string(1, (char)('a' + i)), tree(h + i * 31, 1)); return o; }
struct User {};      // the exception of from_json
struct St { int n = 7; std::string s; };
static bool operator==(const St& a, const St& b) { return a.n == b.n && a.s == b.s; }
struct Frm { bool thr, ok; St st; };
static Frm frm(int salt, const St& x, const value& v)
{
    const uint64_t h = hash(salt, x.n, x.s, v);
    return { h % 8 == 0, h % 8 > 2, St { (int)(h >> 20), std::to_string(h % 1000) + v.to_string().substr(0, 20) } };
}
static bool chk(int salt, const St& x, const value& v) { return (hash(salt + 1, x.n, x.s, v) >> 9) & 1; }
static bool into(int salt, St& x, const value& v)
{
    const Frm f = frm(salt, x, v);
    x = f.st; if (f.thr) throw User(); return f.ok;
}
enum { TO = 2, MTO = 3, MF = 4, STEP = 10 };
#define MEMBERS(T, id, R, MAKE) struct T : St { static constexpr int salt = id * STEP; R to_json() const { return MAKE(hash(salt + TO, n, s)); } bool check_json(const value& v) const { return chk(salt, *this, v); } bool from_json(const value& v) { return into(salt, *this, v); } };
static value tval(uint64_t h) { return tree(h, 2); }
MEMBERS(P, 1, value, tval) MEMBERS(A, 2, array, tarr) MEMBERS(O, 3, object, tobj)
struct N : St { static constexpr int salt = 40; }; struct Q : St { static constexpr int salt = 50; }; struct B : St { static constexpr int salt = 60; }; struct C : St { static constexpr int salt = 70; };
struct M : St { static constexpr int salt = 80; M() = default; M(M&&) = default; M& operator=(M&&) = default; M(const M&) = delete; };
namespace json::ext {
#define CHECK(T) bool check_json(const value& v) const { return chk(T::salt, St {}, v); }
#define COPY(T, R, MAKE) R to_json(const T& x) const { return MAKE(hash(T::salt + TO, x.n, x.s)); } bool from_json(const value& v, T& x) const { return into(T::salt, x, v); }
#define MOVE(T, R, MAKE) R move_to_json(T&& x) const { return MAKE(hash(T::salt + MTO, x.n, x.s)); } bool move_from_json(value&& v, T& x) const { value w(std::move(v)); return into(T::salt + MF, x, w); }
template <> class jsonization<N> { public: CHECK(N) COPY(N, value, tval) };
template <> class jsonization<Q> { public: CHECK(Q) COPY(Q, value, tval) MOVE(Q, value, tval) };
template <> class jsonization<B> { public: CHECK(B) COPY(B, array, tarr) MOVE(B, array, tarr) };
template <> class jsonization<C> { public: CHECK(C) COPY(C, object, tobj) MOVE(C, object, tobj) };
template <> class jsonization<M> { public: CHECK(M) MOVE(M, value, tval) };
}
struct W { P p; N n; std::vector<N> l; std::map<std::string, P> m; std::optional<P> o; MEO_JSONIZATION(p, MEO_OPT n, MEO_KEY("list") l, MEO_OPT m, MEO_OPT o) };
// ---------------------------------------------------------------- reference
static bool same(const value& x, const value& y) { return x.type() == y.type() && x.to_string() == y.to_string(); }
template <class T> struct R;      // mir(x), is(v), rd(v, thr): no value: refused; thr: an exception of the author passes through
template <class T> value give(const T& x, int which)
{
    const uint64_t h = hash(T::salt + which, x.n, x.s);
    if constexpr (std::is_same_v<T, A> || std::is_same_v<T, B>) return value(tarr(h)); else if constexpr (std::is_same_v<T, O> || std::is_same_v<T, C>) return value(tobj(h)); else return tval(h);
}
struct Out { int how; St st; };      // 0 converted, 1 json::exception, 2 the author's exception
static bool operator==(const Out& a, const Out& b) { return a.how == b.how && (a.how || a.st == b.st); }
static Out expect(int salt, const value& v) { const Frm f = frm(salt, St {}, v); return f.thr ? Out { 2, {} } : !f.ok ? Out { 1, {} } : Out { 0, f.st }; }
template <class F> static Out got(F&& f) { try { St s = f(); return { 0, s }; } catch (const json::exception&) { return { 1, {} }; } catch (const User&) { return { 2, {} }; } catch (...) { return { 3, {} }; } }
static std::string show(const Out& o) { static const char* n[] = { "converts", "throws json::exception", "passes the exception on", "throws something else" }; return n[o.how] + (o.how ? std::string() : " to {" + std::to_string(o.st.n) + ",\"" + o.st.s + "\"}"); }
template <class T> T mk(const St& s) { T t; t.n = s.n; t.s = s.s; return t; }
#define EQ(what, g, w) { const Out g_ = (g), w_ = (w); HX_CHECK(g_ == w_, TAGS, what " " << show(g_) << ", the class's own conversion " << show(w_) << " for " << txt); }
#define TREE(what, g, w) { const value g_ = (g), w_ = (w); HX_CHECK(same(g_, w_), TAGS, what " of {" << s.n << ",\"" << s.s << "\"} gives " << g_.to_string() << ", the class's own conversion " << w_.to_string()); }
template <class T> static void one(const char* name, const St& s, const value& v)
{
    const std::string txt = std::string(name) + " from " + v.to_string().substr(0, 300);
    constexpr bool mv = std::is_same_v<T, Q> || std::is_same_v<T, B> || std::is_same_v<T, C> || std::is_same_v<T, M>; constexpr int ms = T::salt + (mv ? MF : 0);
    const Out wc = expect(T::salt, v), wm = expect(ms, v);
    HX_CHECK(v.is<T>() == chk(T::salt, St {}, v), TAGS, "is<" << name << "> is " << (int)v.is<T>() << " of " << v.to_string().substr(0, 300));
    TREE("value(rvalue)", value(mk<T>(s)), give(mk<T>(s), mv ? MTO : TO))
    { value r(v); EQ("as<T>() of an rvalue", got([&]() -> St { return std::move(r).template as<T>(); }), wm) }
    { value r(v); EQ("operator T of an rvalue", got([&]() -> St { return std::move(r).operator T(); }), wm) }
    if constexpr (!std::is_same_v<T, M>) {
        const T x = mk<T>(s); TREE("value(x)", value(x), give(x, TO)) HX_CHECK(x == s, TAGS, "value(x) changed x of class " << name);
        if constexpr (std::is_same_v<T, A> || std::is_same_v<T, B>) { TREE("array(x)", value(array(x)), give(x, TO)) TREE("array(rvalue)", value(array(mk<T>(s))), give(x, mv ? MTO : TO)) }
        if constexpr (std::is_same_v<T, O> || std::is_same_v<T, C>) { TREE("object(x)", value(object(x)), give(x, TO)) TREE("object(rvalue)", value(object(mk<T>(s))), give(x, mv ? MTO : TO)) }
        const value before(v);
        EQ("as<T>()", got([&]() -> St { return v.as<T>(); }), wc) EQ("operator T", got([&]() -> St { return v.operator T(); }), wc) EQ("a cast", got([&]() -> St { return static_cast<T>(v); }), wc)
        if (v.is_array()) { const array& a = v.as_array(); EQ("array::operator T", got([&]() -> St { return a.operator T(); }), wc) array b(a); EQ("array::operator T of an rvalue", got([&]() -> St { return std::move(b).operator T(); }), wm) }
        if (v.is_object()) { const object& a = v.as_object(); EQ("object::operator T", got([&]() -> St { return a.operator T(); }), wc) object b(a); EQ("object::operator T of an rvalue", got([&]() -> St { return std::move(b).operator T(); }), wm) }
        HX_CHECK(same(v, before), TAGS, "reading a " << name << " changed " << before.to_string().substr(0, 300));
        // lookup
        const array al { value(1), v }; const object ob { { "a", value(1) }, { "k", v } }; const value av(al), ov(ob);
        const bool is = chk(T::salt, St {}, v); const Out wf = is ? wc : Out { 1, {} }, wg = is ? wc : Out { 0, s };
        auto fnd = [&](auto&& f) { return got([&]() -> St { auto r = f(); if (!r) throw json::exception("none"); return *r; }); };
        EQ("value::find(pos)", fnd([&] { return av.find<T>(1); }), wf) EQ("value::find(key)", fnd([&] { return ov.find<T>("k"); }), wf) EQ("array::find", fnd([&] { return al.find<T>(1); }), wf) EQ("object::find", fnd([&] { return ob.find<T>("k"); }), wf)
        EQ("value::get(pos, d)", got([&]() -> St { return av.get(1, x); }), wg) EQ("value::get(key, d)", got([&]() -> St { return ov.get("k", x); }), wg) EQ("array::get", got([&]() -> St { return al.get(1, x); }), wg) EQ("object::get", got([&]() -> St { return ob.get("k", x); }), wg)
        EQ("get of a missing key", got([&]() -> St { return ov.get("z", x); }), (Out { 0, s })) EQ("find of a missing key", fnd([&] { return ov.find<T>("z"); }), (Out { 1, {} }))
        const value path = object { { "q", value(array { value(), ov }) } }; EQ("get along a path", got([&]() -> St { return path.get("q", 1, "k", x); }), wg)
    }
}
struct Outs { int how; std::vector<St> st; };
static bool operator==(const Outs& a, const Outs& b) { return a.how == b.how && (a.how || a.st == b.st); }
template <class F> static Outs gots(F&& f) { try { return { 0, f() }; } catch (const json::exception&) { return { 1, {} }; } catch (const User&) { return { 2, {} }; } catch (...) { return { 3, {} }; } }
static std::string show(const Outs& o) { std::string r = show(Out { o.how, {} }); for (const auto& x : o.st) r += " {" + std::to_string(x.n) + "," + x.s + "}"; return r; }
#define EQS(what, g, w) { const Outs g_ = (g), w_ = (w); HX_CHECK(g_ == w_, TAGS, what " of " << name << ": " << show(g_) << ", its own conversion: " << show(w_) << " from " << src.to_string().substr(0, 300)); }
template <class T> static void many(const char* name, const std::vector<St>& xs, const std::vector<value>& vs)
{
    const St s = xs.empty() ? St {} : xs[0];
    std::vector<T> v; std::map<std::string, T> m; array wa; object wo;
    for (size_t i = 0; i < xs.size(); i++) { v.push_back(mk<T>(xs[i])); wa.emplace_back(give(v.back(), TO)); const std::string k = "k" + std::to_string(i); m.emplace(k, mk<T>(xs[i])); wo.emplace(k, give(v.back(), TO)); }
    TREE("vector", value(v), value(wa)) TREE("map", value(m), value(wo)) TREE("vector (array)", value(array(v)), value(wa)) TREE("map (object)", value(object(m)), value(wo))
    { auto v2 = v; auto m2 = m; TREE("vector&&", value(std::move(v2)), value(wa)) TREE("map&&", value(std::move(m2)), value(wo)) }
    if (!xs.empty()) { const std::optional<T> o(v[0]); TREE("optional", value(o), give(v[0], TO)) const std::shared_ptr<T> p = std::make_shared<T>(v[0]); TREE("shared_ptr", value(p), give(v[0], TO)) std::unique_ptr<T> u = std::make_unique<T>(v[0]); TREE("unique_ptr", value(std::move(u)), give(v[0], TO))
        const std::variant<int, T> w(v[0]); TREE("variant", value(w), give(v[0], TO)) const std::pair<int, T> pr(3, v[0]); TREE("pair", value(pr), value(array { value(3), give(v[0], TO) })) const std::array<T, 1> a1 { v[0] }; TREE("std::array", value(a1), value(array { give(v[0], TO) })) }
    { const std::optional<T> o; TREE("optional", value(o), value()) }
    array a; object o; bool all = true; Outs w { 0, {} };
    for (size_t i = 0; i < vs.size(); i++) { a.emplace_back(vs[i]); o.emplace(std::string(1, (char)('a' + i % 26)) + std::string(i / 26, 'x'), vs[i]); }
    for (const auto& e : a) { all = all && chk(T::salt, St {}, e); if (!w.how) { const Out x = expect(T::salt, e); w.how = x.how; w.st.push_back(x.st); } }
    bool allo = true; Outs wm { 0, {} };
    for (const auto& [k, e] : o) { allo = allo && chk(T::salt, St {}, e); if (!wm.how) { const Out x = expect(T::salt, e); wm.how = x.how; wm.st.push_back(x.st); } }
    auto list = [](auto&& c) { std::vector<St> r; for (auto& x : c) r.push_back(x); return r; };
    auto vals = [](auto&& c) { std::vector<St> r; for (auto& [k, x] : c) r.push_back(x); return r; };
    { const value src(a); HX_CHECK(src.is<std::vector<T>>() == all, TAGS, "is<vector<" << name << ">> of " << src.to_string().substr(0, 300)); HX_CHECK(src.all<T>() == all && src.as_array().all<T>() == all, TAGS, "all<" << name << "> of " << src.to_string().substr(0, 300));
      EQS("vector", gots([&] { return list(src.as<std::vector<T>>()); }), w) EQS("array::as<vector>", gots([&] { return list(a.as<std::vector<T>>()); }), w) value r(src); EQS("vector of an rvalue", gots([&] { return list(std::move(r).template as<std::vector<T>>()); }), w) }
    { const value src(o); using MT = std::map<std::string, T>; HX_CHECK(src.is<MT>() == allo, TAGS, "is<map<" << name << ">> of " << src.to_string().substr(0, 300)); HX_CHECK(src.all<T>() == allo && src.as_object().all<T>() == allo, TAGS, "all<" << name << "> of " << src.to_string().substr(0, 300));
      EQS("map", gots([&] { return vals(src.as<MT>()); }), wm) value r(src); EQS("map of an rvalue", gots([&] { return vals(std::move(r).template as<MT>()); }), wm) }
    for (const value& src : vs) {
        const std::string txt = name + std::string(" from ") + src.to_string().substr(0, 300); const Out x = expect(T::salt, src); const bool is = chk(T::salt, St {}, src), nul = src.is_null();
        HX_CHECK(src.is<std::optional<T>>() == (nul || is), TAGS, "is<optional<" << name << ">> of " << src.to_string().substr(0, 300));
        const Out xo = nul ? Out { 0, St { -1, "null" } } : x;
        auto opt = [](auto&& p) -> St { return p ? St(*p) : St { -1, "null" }; };
        EQ("optional", got([&] { return opt(src.as<std::optional<T>>()); }), xo) EQ("shared_ptr", got([&] { return opt(src.as<std::shared_ptr<T>>()); }), xo) EQ("unique_ptr", got([&] { return opt(src.as<std::unique_ptr<T>>()); }), xo)
        { value r(src); EQ("optional of an rvalue", got([&] { return opt(std::move(r).template as<std::optional<T>>()); }), xo) }
        const value two(array { value(5), src }); using PT = std::pair<int, T>; HX_CHECK(two.is<PT>() == is, TAGS, "is<pair<int," << name << ">> of " << two.to_string().substr(0, 300)); EQ("pair", got([&]() -> St { return two.as<PT>().second; }), x)
        const value sing(array { src }); using AT = std::array<T, 1>; HX_CHECK(sing.is<AT>() == is, TAGS, "is<array<" << name << ",1>> of " << sing.to_string().substr(0, 300)); EQ("std::array", got([&]() -> St { return sing.as<AT>()[0]; }), x)
        using VT = std::variant<bool, T>; HX_CHECK(src.is<VT>() == (src.is_boolean() || is), TAGS, "is<variant<bool," << name << ">> of " << src.to_string().substr(0, 300));
        EQ("variant", got([&] { VT w2 = src.as<VT>(); return w2.index() ? St(std::get<1>(w2)) : St { std::get<0>(w2), "bool" }; }), src.is_boolean() ? (Out { 0, St { src.as_boolean(), "bool" } }) : is ? x : (Out { 1, {} }))
    }
}
static void macro(const std::vector<St>& xs, const std::vector<value>& vs)
{
    const St s = xs[0]; auto X = [&](size_t i) -> const St& { return xs[i % xs.size()]; }; auto Vv = [&](size_t i) -> const value& { return vs[i % vs.size()]; };
    W w; w.p = mk<P>(X(0)); w.n = mk<N>(X(1)); w.l = { mk<N>(X(2)), mk<N>(X(3)) }; w.m = { { "x", mk<P>(X(4)) } }; if (xs.size() & 1) w.o = mk<P>(X(5));
    object want { { "p", give(w.p, TO) }, { "n", give(w.n, TO) }, { "list", value(array { give(w.l[0], TO), give(w.l[1], TO) }) }, { "m", value(object(std::map<std::string, value> { { "x", give(w.m["x"], TO) } })) }, { "o", w.o ? give(*w.o, TO) : value() } };
    TREE("macro struct", value(w), value(want))
    for (unsigned mask = 0; mask < 32; mask++) {
        object src; if (!(mask & 1)) src.emplace("p", Vv(0)); if (!(mask & 2)) src.emplace("n", Vv(1)); if (!(mask & 4)) src.emplace("list", value(array { Vv(2) })); if (!(mask & 8)) src.emplace("m", value(object(std::map<std::string, value> { { "x", Vv(3) } }))); if (!(mask & 16)) src.emplace("o", Vv(4));
        const std::string txt = src.to_string().substr(0, 400);
        // members in order: missing and required, not accepted, author's exception, refused
        W r; std::string err; std::string bad; int how = 0;
        auto mem = [&](bool there, bool req, const char* k, int salt, const value& v, bool nullable, auto&& set) {
            if (how) return; if (!there) { if (req) { how = 1; bad = k; } return; }
            if (nullable && v.is_null()) { set(nullptr); return; }
            if (!chk(salt, St {}, v)) { how = 1; bad = k; return; }
            const Out x = expect(salt, v); if (x.how) { how = x.how == 2 ? 2 : 3; return; } set(&x.st);
        };
        W e;
        mem(!(mask & 1), true, "p", P::salt, Vv(0), false, [&](const St* t) { e.p = mk<P>(*t); }); mem(!(mask & 2), false, "n", N::salt, Vv(1), false, [&](const St* t) { e.n = mk<N>(*t); });
        mem(!(mask & 4), true, "list", N::salt, Vv(2), false, [&](const St* t) { e.l = { mk<N>(*t) }; }); mem(!(mask & 8), false, "m", P::salt, Vv(3), false, [&](const St* t) { e.m = { { "x", mk<P>(*t) } }; });
        mem(!(mask & 16), false, "o", P::salt, Vv(4), true, [&](const St* t) { if (t) e.o = mk<P>(*t); else e.o.reset(); });
        int g; try { g = r.from_json(value(src), err) ? 0 : 1; } catch (const User&) { g = 2; } catch (const json::exception&) { g = 3; } catch (...) { g = 4; }
        HX_CHECK(g == how, TAGS, "from_json of a macro struct ends with " << g << " instead of " << how << " (0 true, 1 false, 2 author's exception, 3 json::exception) from " << txt);
        if (how == 1) HX_CHECK(err == bad, TAGS, "from_json names " << err << " instead of " << bad << " in " << txt);
        if (how == 0) { bool ok = r.p == e.p && r.n == e.n && r.l.size() == e.l.size() && r.m.size() == e.m.size() && r.o.has_value() == e.o.has_value(); for (size_t i = 0; ok && i < r.l.size(); i++) ok = r.l[i] == e.l[i]; for (auto& [k, x] : e.m) ok = ok && r.m.count(k) && r.m[k] == x; if (ok && e.o) ok = *r.o == *e.o; HX_CHECK(ok, TAGS, "a macro struct read from " << txt << " differs"); }
    }
}
struct H : hx::Harness
{
    const char* tags() override { return TAGS; }
    void run(const std::string& d) override
    {
        hx::Choices c(d); std::vector<St> xs; std::vector<value> vs;
        const unsigned nx = 1 + c.below(4), nv = 1 + c.below(c.below(8) ? 4 : 40);
        for (unsigned i = 0; i < nx; i++) { const unsigned k = c.byte(); xs.push_back(St { (int)c.byte() - 128, k % 5 == 0 ? std::string() : c.bytes(k % 20) }); }
        for (unsigned i = 0; i < nv; i++) vs.push_back(tree(mixs(c.byte() * 256 + c.byte(), c.bytes(3)), 3));
        for (const St& s : { xs[0], St {} }) for (size_t i = 0; i < vs.size() && i < 3; i++) {
            one<P>("P", s, vs[i]); one<A>("A", s, vs[i]); one<O>("O", s, vs[i]); one<N>("N", s, vs[i]); one<Q>("Q", s, vs[i]); one<B>("B", s, vs[i]); one<C>("C", s, vs[i]); one<M>("M", s, vs[i]);
        }
        many<P>("P", xs, vs); many<N>("N", xs, vs); many<A>("A", xs, vs); many<O>("O", xs, vs); macro(xs, vs);
    }
    void fixed(const std::function<void(const std::string&)>& f, unsigned part, unsigned parts) override
    {
        unsigned n = 0;
        for (unsigned a = 0; a < 256; a++) { std::string s; for (unsigned i = 0; i < 24; i++) s += (char)(a * (2 * i + 1) + i * 11); if (n++ % parts == part) f(s); }
    }
    std::string random(hx::Rng& r) override { std::string s; const size_t n = 8 + r.below(60); for (size_t i = 0; i < n; i++) s += (char)r.below(256); return s; }
};
int main(int argc, char** argv) { H h; return hx::main(argc, argv, h); }
