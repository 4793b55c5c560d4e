// C10 integers, C11 is<T>/as<T>/find<T> agree, C17 containers and wrappers, C18 enums, C19 jsonization macros.
// Case: bytes; the first one picks what is exercised, the rest choose values.
#pragma once
#include "model.hpp"
#include <array>
#include <deque>
#include <filesystem>
#include <limits>
#include <list>
#include <map>
#include <memory>
#include <optional>
#include <set>
#include <tuple>
#include <unordered_map>
#include <unordered_set>
#include <variant>
using ref::Val;
using json::value;

// ---------------------------------------------------------------- enums
#define E_COLOR(X) X(Red, 1) X(Green, 2) X(Blue, 4) X(blue, 5) X(BLUE, 6)
#define E_NEG(X) X(Low, -128) X(minus_one, -1) X(Zero, 0) X(_under, 1) X(High9, 128)
#define E_SPARSE(X) X(A, -200) X(B, -199) X(C_, 0) X(d, 199) X(E, 200)
#define E_BIG(X) X(First, 0) X(Second, 1)
#define E_ONE(X) X(only, 7)
#define DEF(n, v) n = v,
enum class Color { E_COLOR(DEF) };
enum class Neg { E_NEG(DEF) TooLow = -129, TooHigh = 129 };
enum class Sparse { E_SPARSE(DEF) MEOJSON_ENUM_RANGE(A, E) };
enum class Big : unsigned long long { E_BIG(DEF) Huge = 1ull << 32, Huge1 = (1ull << 32) + 1, Top = 1ull << 63 };
enum class One : long long { E_ONE(DEF) MEOJSON_ENUM_RANGE(7, 7), Min = std::numeric_limits<long long>::min() };
enum Plain : unsigned { p_none = 0, p_a = 1, p_b = 2 };
#define E_PLAIN(X) X(p_none, 0) X(p_a, 1) X(p_b, 2)
template <class E> struct Table;
#define NAMEVAL(n, v) { #n, v },
#define TABLE(T, L, lo_, hi_) template <> struct Table<T> { static constexpr long long lo = lo_, hi = hi_; static const std::vector<std::pair<std::string, long long>>& names() { static const std::vector<std::pair<std::string, long long>> t { L(NAMEVAL) }; return t; } };
TABLE(Color, E_COLOR, -128, 128) TABLE(Neg, E_NEG, -128, 128) TABLE(Sparse, E_SPARSE, -200, 200) TABLE(Big, E_BIG, -128, 128) TABLE(One, E_ONE, 7, 7) TABLE(Plain, E_PLAIN, -128, 128)

// ---------------------------------------------------------------- jsonization
struct Inner
{
    int x = 5; std::string s = "dflt";
    MEO_JSONIZATION(x, MEO_OPT s);
    bool operator==(const Inner& r) const { return x == r.x && s == r.s; }
};
struct Outer
{
    std::vector<int> vec { 1 }; Inner in; std::map<std::string, Inner> m; std::optional<bool> flag; std::string name = "n"; unsigned long long big = 3; int renamed = -1; std::tuple<int, std::string> both { 1, "q" }; json::value any; Color col = Color::Red;
    MEO_JSONIZATION(vec, in, MEO_OPT m, MEO_OPT flag, MEO_KEY("the name") name, big, MEO_OPT MEO_KEY("other") renamed, MEO_KEY("tuple") MEO_OPT both, MEO_OPT any, MEO_OPT col);
    bool operator==(const Outer& r) const { return vec == r.vec && in == r.in && m == r.m && flag == r.flag && name == r.name && big == r.big && renamed == r.renamed && both == r.both && any == r.any && col == r.col; }
};
struct Third { int a = 100; bool operator==(const Third& r) const { return a == r.a; } };
namespace json::ext
{
template <> class jsonization<Third>
{
public:
    json::value to_json(const Third& t) const { return t.a; }
    bool check_json(const json::value& j) const { return j.is<int>(); }
    bool from_json(const json::value& j, Third& out) const { if (!j.is<int>()) return false; out.a = j.as_integer(); return true; }
};
}
struct Last
{
    Third third; std::vector<Third> list; bool b = false; std::shared_ptr<int> sp;
    MEO_JSONIZATION(third, list, b, MEO_OPT sp);
    bool operator==(const Last& r) const { return third == r.third && list == r.list && b == r.b && !!sp == !!r.sp && (!sp || *sp == *r.sp); }
};

namespace
{
Val mk(Val::T t, std::string s = "") { Val v; v.t = t; v.s = std::move(s); return v; }

// the integer the text of a number is, when T can hold it
template <class T> std::optional<T> exact(const std::string& s)
{
    size_t i = 0; bool neg = false;
    if (std::is_signed_v<T> && !s.empty() && s[0] == '-') { neg = true; i = 1; }
    if (i == s.size()) return std::nullopt;
    __int128 v = 0; const __int128 lim = (__int128)1 << 80;
    for (; i < s.size(); i++) { if (s[i] < '0' || s[i] > '9') return std::nullopt; if (v < lim) v = v * 10 + (s[i] - '0'); }
    if (neg) v = -v;
    if (v < (__int128)std::numeric_limits<T>::min() || v > (__int128)std::numeric_limits<T>::max()) return std::nullopt;
    return (T)v;
}
inline std::string lower(std::string s) { for (char& c : s) if (c >= 'A' && c <= 'Z') c = (char)(c + 32); return s; }
template <class E> std::optional<E> by_name(const std::string& s)
{
    for (auto& [n, v] : Table<E>::names()) if (n == s) return (E)v;
    long long best = 0; bool have = false;
    for (auto& [n, v] : Table<E>::names()) if (lower(n) == lower(s) && (!have || v < best)) { have = true; best = v; }
    if (have) return (E)best;
    return std::nullopt;
}
template <class E> std::string name_of(E e)
{
    using U = std::underlying_type_t<E>;
    for (auto& [n, v] : Table<E>::names()) if ((U)v == (U)e && (v < 0) == ((U)e < 0)) return n;
    return "";
}

// ---------------------------------------------------------------- what a C++ value is in JSON
template <class T, class = void> struct Codec;     // gen: some T; enc: what it is; is: whether a tree is one; dec: the T it is
template <class T> T gen(hx::Choices& c) { return Codec<T>::gen(c); }
template <class T> Val enc(const T& x) { return Codec<T>::enc(x); }
template <class T> bool is(const Val& v) { return Codec<T>::is(v); }
template <class T> T dec(const Val& v) { return Codec<T>::dec(v); }
// how many elements a container gets: mostly few, sometimes many (then each has choices of its own), never many inside of many
struct Many
{
    static unsigned& inside() { static unsigned i = 0; return i; }
    unsigned n; bool big; unsigned long long seed; std::string own;
    explicit Many(hx::Choices& c) { unsigned b = c.byte(); big = b >= 252 && !inside(); n = big ? (b < 254 ? 6 + c.below(60) : b == 254 ? 100 + c.below(200) : 700 + c.below(200)) : b % 5; seed = big ? c.byte() + 1 : 1; if (big) inside()++; }
    Many(const Many&) = delete;
    ~Many() { if (big) inside()--; }
    template <class T> T each(hx::Choices& c)
    {
        if (!big) return ::gen<T>(c);
        own.clear(); for (int i = 0; i < 24; i++) { seed = seed * 6364136223846793005ULL + 1442695040888963407ULL; own.push_back((char)(seed >> 56)); }
        hx::Choices d(own); return ::gen<T>(d);
    }
};
template <> struct Codec<bool> { static bool gen(hx::Choices& c) { return c.below(2); } static Val enc(bool x) { return mk(Val::Bool, x ? "true" : "false"); } static bool is(const Val& v) { return v.t == Val::Bool; } static bool dec(const Val& v) { return v.s == "true"; } };
template <class T> struct Codec<T, std::enable_if_t<std::is_integral_v<T> && !std::is_same_v<T, bool>>>
{
    static T gen(hx::Choices& c)
    {
        using L = std::numeric_limits<T>;
        switch (c.below(8)) {
        case 0: return 0; case 1: return (T)1; case 2: return L::max(); case 3: return L::min(); case 4: return (T)(L::max() - (T)c.below(3)); case 5: return (T)c.byte();
        default: { unsigned long long r = 0; for (int i = 0; i < 8; i++) r = r << 8 | c.byte(); return (T)(r >> c.below(64)); }
        }
    }
    static Val enc(T x) { return mk(Val::Num, std::to_string(x)); }
    static bool is(const Val& v) { return v.t == Val::Num && exact<T>(v.s).has_value(); }
    static T dec(const Val& v) { return *exact<T>(v.s); }
};
template <> struct Codec<std::string> { static std::string gen(hx::Choices& c) { return model::text(c); } static Val enc(const std::string& s) { return mk(Val::Str, s); } static bool is(const Val& v) { return v.t == Val::Str; } static std::string dec(const Val& v) { return v.s; } };
template <> struct Codec<std::filesystem::path> { static std::filesystem::path gen(hx::Choices& c) { return model::text(c); } static Val enc(const std::filesystem::path& s) { return mk(Val::Str, s.native()); } static bool is(const Val& v) { return v.t == Val::Str; } static std::filesystem::path dec(const Val& v) { return v.s; } };
template <> struct Codec<std::monostate> { static std::monostate gen(hx::Choices&) { return {}; } static Val enc(std::monostate) { return {}; } static bool is(const Val& v) { return v.t == Val::Null; } static std::monostate dec(const Val&) { return {}; } };
template <> struct Codec<value> { static value gen(hx::Choices& c) { return model::build(model::value(c)); }
    static Val enc(const value& v)
    {
        switch (v.type()) {
        case value::value_type::null: return {}; case value::value_type::boolean: return mk(Val::Bool, v.as_boolean() ? "true" : "false"); case value::value_type::number: return mk(Val::Num, v.to_string()); case value::value_type::string: return mk(Val::Str, v.as_string());
        case value::value_type::array: { Val r = mk(Val::Arr); for (auto& e : v.as_array()) r.a.push_back(enc(e)); return r; }
        default: { Val r = mk(Val::Obj); for (auto& [k, e] : v.as_object()) r.o.emplace_back(k, enc(e)); return r; }
        }
    }
    static bool is(const Val&) { return true; } static value dec(const Val& v) { return model::build(v); } };
template <> struct Codec<json::array> { static json::array gen(hx::Choices& c) { return model::build_array(model::value(c, 0, 5)); } static Val enc(const json::array& a) { return Codec<value>::enc(value(a)); } static bool is(const Val& v) { return v.t == Val::Arr; } static json::array dec(const Val& v) { return model::build_array(v); } };
template <> struct Codec<json::object> { static json::object gen(hx::Choices& c) { return model::build_object(model::value(c, 0, 8)); } static Val enc(const json::object& a) { return Codec<value>::enc(value(a)); } static bool is(const Val& v) { return v.t == Val::Obj; } static json::object dec(const Val& v) { return model::build_object(v); } };
template <class E> struct Codec<E, std::enable_if_t<std::is_enum_v<E>>>
{
    static E gen(hx::Choices& c) { auto& t = Table<E>::names(); return (E)t[c.below((unsigned)t.size())].second; }
    static Val enc(E e) { return mk(Val::Str, name_of(e)); }
    static bool is(const Val& v) { return v.t == Val::Str ? by_name<E>(v.s).has_value() : Codec<std::underlying_type_t<E>>::is(v); }
    static E dec(const Val& v) { return v.t == Val::Str ? *by_name<E>(v.s) : (E)Codec<std::underlying_type_t<E>>::dec(v); }
};
template <class C> struct Seq
{
    using T = std::decay_t<typename C::value_type>;
    static C gen(hx::Choices& c) { C r; Many n(c); for (unsigned i = 0; i < n.n; i++) r.insert(r.end(), n.template each<T>(c)); return r; }
    static Val enc(const C& x) { Val r = mk(Val::Arr); for (const auto& e : x) r.a.push_back(::enc<T>(e)); return r; }
    static bool is(const Val& v) { if (v.t != Val::Arr) return false; for (auto& e : v.a) if (!::is<T>(e)) return false; return true; }
    static C dec(const Val& v) { C r; for (auto& e : v.a) r.insert(r.end(), ::dec<T>(e)); return r; }
};
template <class T> struct Codec<std::vector<T>> : Seq<std::vector<T>> {};
template <class T> struct Codec<std::list<T>> : Seq<std::list<T>> {};
template <class T> struct Codec<std::deque<T>> : Seq<std::deque<T>> {};
template <class C> struct Set : Seq<C>
{
    using T = typename C::value_type;
    static C gen(hx::Choices& c) { C r; Many n(c); for (unsigned i = 0; i < n.n; i++) r.insert(n.template each<T>(c)); return r; }
    static C dec(const Val& v) { C r; for (auto& e : v.a) r.insert(::dec<T>(e)); return r; }
};
template <class T> struct Codec<std::set<T>> : Set<std::set<T>> {};
template <class T> struct Codec<std::multiset<T>> : Set<std::multiset<T>> {};
template <class T> struct Codec<std::unordered_set<T>> : Set<std::unordered_set<T>> {};
template <class C> struct Map
{
    using T = typename C::mapped_type;
    static C gen(hx::Choices& c) { C r; Many n(c); for (unsigned i = 0; i < n.n; i++) { std::string k = n.big ? "k" + std::to_string(i) : model::text(c); r.emplace(k, n.template each<T>(c)); } return r; }
    static Val enc(const C& x) { Val r = mk(Val::Obj); for (auto& [k, e] : x) r.o.emplace_back(k, ::enc<T>(e)); model::sort_members(r); return r; }
    static bool is(const Val& v) { if (v.t != Val::Obj) return false; for (auto& [k, e] : v.o) if (!::is<T>(e)) return false; return true; }
    static C dec(const Val& v) { C r; for (auto& [k, e] : v.o) r.emplace(k, ::dec<T>(e)); return r; }
};
template <class T> struct Codec<std::map<std::string, T>> : Map<std::map<std::string, T>> {};
template <class T> struct Codec<std::unordered_map<std::string, T>> : Map<std::unordered_map<std::string, T>> {};
template <class T, size_t N> struct Codec<std::array<T, N>>
{
    using A = std::array<T, N>;
    static A gen(hx::Choices& c) { A r {}; for (auto& e : r) e = ::gen<T>(c); return r; }
    static Val enc(const A& x) { Val r = mk(Val::Arr); for (auto& e : x) r.a.push_back(::enc<T>(e)); return r; }
    static bool is(const Val& v) { if (v.t != Val::Arr || v.a.size() != N) return false; for (auto& e : v.a) if (!::is<T>(e)) return false; return true; }
    static A dec(const Val& v) { A r {}; for (size_t i = 0; i < N; i++) r[i] = ::dec<T>(v.a[i]); return r; }
};
template <class Tu, class... Ts> struct Tup
{
    static Tu gen(hx::Choices& c) { return Tu { ::gen<Ts>(c)... }; }
    static Val enc(const Tu& x) { Val r = mk(Val::Arr); one(r, x, std::index_sequence_for<Ts...>()); return r; }
    template <size_t... I> static void one(Val& r, const Tu& x, std::index_sequence<I...>) { using std::get; (r.a.push_back(::enc<Ts>(get<I>(x))), ...); }
    static bool is(const Val& v) { return v.t == Val::Arr && v.a.size() == sizeof...(Ts) && is_(v, std::index_sequence_for<Ts...>()); }
    template <size_t... I> static bool is_(const Val& v, std::index_sequence<I...>) { return (::is<Ts>(v.a[I]) && ...); }
    static Tu dec(const Val& v) { return dec_(v, std::index_sequence_for<Ts...>()); }
    template <size_t... I> static Tu dec_(const Val& v, std::index_sequence<I...>) { return Tu { ::dec<Ts>(v.a[I])... }; }
};
template <class... Ts> struct Codec<std::tuple<Ts...>> : Tup<std::tuple<Ts...>, Ts...> {};
template <class A, class B> struct Codec<std::pair<A, B>> : Tup<std::pair<A, B>, A, B> {};
template <class W, class T> struct Wrap
{
    static Val enc(const W& x) { return x ? ::enc<T>(*x) : Val(); }
    static bool is(const Val& v) { return v.t == Val::Null || ::is<T>(v); }
};
template <class T> struct Codec<std::optional<T>> : Wrap<std::optional<T>, T> { using O = std::optional<T>; static O gen(hx::Choices& c) { if (c.below(3)) return O(::gen<T>(c)); return O(); } static O dec(const Val& v) { if (v.t == Val::Null) return O(); return O(::dec<T>(v)); } };
template <class T> struct Codec<std::shared_ptr<T>> : Wrap<std::shared_ptr<T>, T> { using O = std::shared_ptr<T>; static O gen(hx::Choices& c) { return c.below(3) ? std::make_shared<T>(::gen<T>(c)) : O(); } static O dec(const Val& v) { return v.t == Val::Null ? O() : std::make_shared<T>(::dec<T>(v)); } };
template <class T> struct Codec<std::unique_ptr<T>> : Wrap<std::unique_ptr<T>, T> { using O = std::unique_ptr<T>; static O gen(hx::Choices& c) { return c.below(3) ? std::make_unique<T>(::gen<T>(c)) : O(); } static O dec(const Val& v) { return v.t == Val::Null ? O() : std::make_unique<T>(::dec<T>(v)); } };
template <class... Ts> struct Codec<std::variant<Ts...>>
{
    using V = std::variant<Ts...>;
    template <class T> static void pick(V& r, hx::Choices& c, unsigned& i, unsigned k) { if (i++ == k) r = V(std::in_place_type<T>, ::gen<T>(c)); }
    static V gen(hx::Choices& c) { V r; unsigned k = c.below(sizeof...(Ts)), i = 0; (pick<Ts>(r, c, i, k), ...); return r; }
    static Val enc(const V& x) { return std::visit([](const auto& e) { return ::enc<std::decay_t<decltype(e)>>(e); }, x); }
    static bool is(const Val& v) { return (::is<Ts>(v) || ...); }
    template <class T> static bool first(V& r, const Val& v) { if (!::is<T>(v)) return false; r = V(std::in_place_type<T>, ::dec<T>(v)); return true; }
    static V dec(const Val& v) { V r; (void)(first<Ts>(r, v) || ...); return r; }
};
const Val* member(const Val& v, const char* k) { if (v.t == Val::Obj) for (auto& [n, e] : v.o) if (n == k) return &e; return nullptr; }
// one member of a jsonization struct: false when it keeps the object from being one
template <class T> bool has(const Val& v, const char* k, bool opt, std::string* bad = nullptr) { const Val* m = member(v, k); bool ok = m ? is<T>(*m) : opt; if (!ok && bad && bad->empty()) *bad = k; return ok; }
template <class T> void load(T& x, const Val& v, const char* k) { if (const Val* m = member(v, k)) x = dec<T>(*m); }
template <class T> void store(Val& v, const char* k, const T& x) { v.o.emplace_back(k, enc<T>(x)); model::sort_members(v); }
template <> struct Codec<Inner>
{
    static Inner gen(hx::Choices& c) { Inner r; r.x = ::gen<int>(c); r.s = model::text(c); return r; }
    static Val enc(const Inner& i) { Val v = mk(Val::Obj); store(v, "x", i.x); store(v, "s", i.s); return v; }
    static bool is(const Val& v, std::string* bad = nullptr) { return has<int>(v, "x", false, bad) & has<std::string>(v, "s", true, bad); }
    static Inner dec(const Val& v) { Inner i; load(i.x, v, "x"); load(i.s, v, "s"); return i; }
};
template <> struct Codec<Third> { static Third gen(hx::Choices& c) { return { ::gen<int>(c) }; } static Val enc(const Third& t) { return ::enc(t.a); } static bool is(const Val& v) { return ::is<int>(v); } static Third dec(const Val& v) { return { ::dec<int>(v) }; } };
template <> struct Codec<Last>
{
    static Last gen(hx::Choices& c) { Last l; l.third = ::gen<Third>(c); l.list = ::gen<std::vector<Third>>(c); l.b = c.below(2); l.sp = ::gen<std::shared_ptr<int>>(c); return l; }
    static Val enc(const Last& l) { Val v = mk(Val::Obj); store(v, "third", l.third); store(v, "list", l.list); store(v, "b", l.b); store(v, "sp", l.sp); return v; }
    static bool is(const Val& v, std::string* bad = nullptr) { bool a = has<Third>(v, "third", false, bad), b = has<std::vector<Third>>(v, "list", false, bad), d = has<bool>(v, "b", false, bad), e = has<std::shared_ptr<int>>(v, "sp", true, bad); return a && b && d && e; }
    static Last dec(const Val& v) { Last l; load(l.third, v, "third"); load(l.list, v, "list"); load(l.b, v, "b"); load(l.sp, v, "sp"); return l; }
};
template <> struct Codec<Outer>
{
    static Outer gen(hx::Choices& c)
    {
        Outer o; o.vec = ::gen<std::vector<int>>(c); o.in = ::gen<Inner>(c); o.m = ::gen<std::map<std::string, Inner>>(c); o.flag = ::gen<std::optional<bool>>(c); o.name = model::text(c); o.big = ::gen<unsigned long long>(c);
        o.renamed = ::gen<int>(c); o.both = ::gen<std::tuple<int, std::string>>(c); o.any = ::gen<value>(c); o.col = ::gen<Color>(c); return o;
    }
    static Val enc(const Outer& o)
    {
        Val v = mk(Val::Obj); store(v, "vec", o.vec); store(v, "in", o.in); store(v, "m", o.m); store(v, "flag", o.flag); store(v, "the name", o.name); store(v, "big", o.big); store(v, "other", o.renamed); store(v, "tuple", o.both);
        store(v, "any", o.any); store(v, "col", o.col); return v;
    }
    static bool is(const Val& v, std::string* bad = nullptr)
    {
        bool r = true;
        r &= has<std::vector<int>>(v, "vec", false, bad); r &= has<Inner>(v, "in", false, bad); r &= has<std::map<std::string, Inner>>(v, "m", true, bad); r &= has<std::optional<bool>>(v, "flag", true, bad); r &= has<std::string>(v, "the name", false, bad);
        r &= has<unsigned long long>(v, "big", false, bad); r &= has<int>(v, "other", true, bad); r &= has<std::tuple<int, std::string>>(v, "tuple", true, bad); r &= has<value>(v, "any", true, bad); r &= has<Color>(v, "col", true, bad);
        return r;
    }
    static Outer dec(const Val& v)
    {
        Outer o; load(o.vec, v, "vec"); load(o.in, v, "in"); load(o.m, v, "m"); load(o.flag, v, "flag"); load(o.name, v, "the name"); load(o.big, v, "big"); load(o.renamed, v, "other"); load(o.both, v, "tuple"); load(o.any, v, "any"); load(o.col, v, "col");
        return o;
    }
};

// ---------------------------------------------------------------- near misses
// changes a tree at one random place
void disturb(hx::Choices& c, Val& v)
{
    Val* x = &v;
    while (c.below(3)) {
        if (x->t == Val::Arr && !x->a.empty()) x = &x->a[c.below((unsigned)x->a.size())];
        else if (x->t == Val::Obj && !x->o.empty()) x = &x->o[c.below((unsigned)x->o.size())].second;
        else break;
    }
    switch (c.below(7)) {
    case 0: *x = model::value(c, 2); break;
    case 1: if (x->t == Val::Arr) { x->a.push_back(x->a.empty() || !c.below(3) ? model::value(c, 3) : x->a.back()); break; } *x = Val(); break;
    case 2: if (x->t == Val::Arr && !x->a.empty()) { x->a.erase(x->a.begin() + c.below((unsigned)x->a.size())); break; } if (x->t == Val::Obj && !x->o.empty()) { x->o.erase(x->o.begin() + c.below((unsigned)x->o.size())); break; } [[fallthrough]];
    case 3: *x = mk(Val::Num, model::number(c)); break;
    case 4: if (x->t == Val::Obj) { x->o.emplace_back(model::text(c), model::value(c, 3)); model::sort_members(*x); break; } *x = mk(Val::Str, model::text(c)); break;
    case 5: if (x->t == Val::Num) { x->t = Val::Str; break; } if (x->t == Val::Arr) { x->t = Val::Obj; x->a.clear(); break; } if (x->t == Val::Obj) { x->t = Val::Arr; x->o.clear(); break; } *x = mk(Val::Bool, "true"); break;
    default: if (x->t == Val::Str && !x->s.empty()) { x->s[c.below((unsigned)x->s.size())] ^= c.below(2) ? 0x20 : 1; break; } *x = mk(Val::Str, ""); break;
    }
}
template <class F> int thrown(F f) { try { f(); return 0; } catch (const json::exception&) { return 1; } catch (...) { return 2; } }
std::string text(const value& x) { try { return x.to_string(); } catch (...) { return "<not serialisable>"; } }
template <class T> struct Copyable : std::bool_constant<std::is_copy_constructible_v<T>> {};
template <class T> struct Copyable<std::vector<std::unique_ptr<T>>> : std::false_type {};
template <class T> struct Copyable<std::map<std::string, std::unique_ptr<T>>> : std::false_type {};
template <class T, class = void> struct HasOp : std::false_type {};          // value has a conversion operator T
template <class T> struct HasOp<T, std::void_t<decltype(std::declval<const value&>().operator T()), decltype(std::declval<value>().operator T())>> : std::true_type {};
template <class T, class = void> struct StrMap : std::false_type {};
template <class T> struct StrMap<T, std::void_t<typename T::mapped_type>> : std::is_same<typename T::key_type, std::string> {};
template <class T> struct Owner : std::is_base_of<json::array, T> {};
template <class T> constexpr bool rooted = std::is_same_v<T, value> || std::is_same_v<T, json::array> || std::is_same_v<T, json::object>;

struct S : hx::Harness
{
    const char* tags() override { return "C10 C11 C17 C18 C19"; }

    // as<T>() of a tree that may or may not be a T: is<T> tells, as<T> gives it or throws json::exception, nothing changes
    template <class T> void reads(const Val& m, const char* tag, const char* tn)
    {
        const value v = model::build(m);
        bool want = is<T>(m);
        std::string w = std::string(" T = ") + tn + " in " + text(v), tg = std::string(tag) + " C11";
        HX_CHECK(v.is<T>() == want, tg, "is<T>() is wrong:" << w);
        Val got; int t = thrown([&] { T x = v.as<T>(); got = enc<T>(x); });
        HX_CHECK(t == (want ? 0 : 1), tg, "as<T>() " << (t == 0 ? "gives something" : t == 1 ? "throws json::exception" : "throws another exception") << ":" << w);
        if (want && !t) { Val e; { T y = dec<T>(m); e = enc<T>(y); } HX_CHECK(got == e || (got.t == Val::Obj && is_same_set(got, e)), tg, "as<T>() is wrong:" << w); }
        HX_CHECK(model::same(v, m), tg, "as<T>() const changes the value:" << w);
        value r = model::build(m); int t2 = thrown([&] { T x = std::move(r).template as<T>(); Val g2 = enc<T>(x); if (!t) HX_CHECK(g2 == got, tg, "as<T>() of an rvalue differs:" << w); });
        HX_CHECK(t2 == t, tg, "as<T>() of an rvalue behaves differently:" << w);
        { Val g3; int t3 = thrown([&] { T x(static_cast<T>(v)); g3 = enc<T>(x); }); if (!ambiguous<T>) HX_CHECK(t3 == t && (t3 || g3 == got), tg, "the conversion differs from as<T>():" << w); }
        // every other way in: the conversion operators of an lvalue and of an rvalue, as<T>() of the array or object itself
        auto way = [&](auto&& call, const char* how) { Val g; int u = thrown([&] { T x(call()); g = enc<T>(x); }); HX_CHECK(u == t && (u || g == got), tg, how << " differs from as<T>():" << w); };
        if constexpr (HasOp<T>::value && !rooted<T>) {
            way([&]() -> T { return v.operator T(); }, "operator T"); way([&]() -> T { value x = model::build(m); return std::move(x).operator T(); }, "operator T of an rvalue");
        }
        if constexpr ((json::_utils::is_collection<T> || json::_utils::is_fixed_array<T> || json::_utils::is_tuple_like<T>) && !rooted<T>) if (m.t == Val::Arr) {
            way([&]() -> T { return v.as_array().template as<T>(); }, "as<T>() of the array"); way([&]() -> T { return model::build_array(m).template as<T>(); }, "as<T>() of an array rvalue");
        }
        if constexpr (StrMap<T>::value && !rooted<T>) if (m.t == Val::Obj) {
            way([&]() -> T { return v.as_object().template as<T>(); }, "as<T>() of the object"); way([&]() -> T { return model::build_object(m).template as<T>(); }, "as<T>() of an object rvalue");
        }
        HX_CHECK(model::same(v, m), tg, "reading T changed the value:" << w);
        // as a member and as an element: find<T>
        value o; o["k"] = v; o["x"] = 0; value a; a.emplace(0); a.emplace(v);
        if constexpr (Copyable<T>::value && !std::is_same_v<T, std::nullptr_t>) {
            auto f = [&](auto&& call) { Val g; bool h = false; int u = thrown([&] { auto r = call(); h = r.has_value(); if (h) g = enc<T>(*r); }); HX_CHECK(u == 0 && h == (want && !t) && (!h || g == got), tg, "find<T>() does not agree with is<T>() and as<T>():" << w); };
            f([&] { return o.template find<T>("k"); }); f([&] { return a.template find<T>(1); }); f([&] { return std::as_const(o).as_object().template find<T>("k"); }); f([&] { return std::as_const(a).as_array().template find<T>(1); });
            HX_CHECK(!o.template find<T>("nope") && !a.template find<T>(2), tg, "find<T>() of a missing element gives something:" << w);
        }
    }
    // casts with T( ) may pick another constructor of T (std::optional, std::tuple of one element, std::variant, json::value)
    template <class T> static constexpr bool ambiguous = std::is_constructible_v<T, T&, int> || std::is_same_v<T, value> || json::_utils::is_optional<T> || json::_utils::is_tuple_like<T> || json::_utils::is_variant<T>;
    static bool is_same_set(const Val& a, const Val& b) { return a == b; }

    // T -> json -> T
    template <class T> void round(const T& x, const char* tag, const char* tn)
    {
        Val m = enc<T>(x);
        std::string w = std::string(" T = ") + tn + " ", tg = std::string(tag) + " C17";
        value v = make(x);
        HX_CHECK(model::same(v, m), tg, "a value made from T is " << text(v) << w);
        HX_CHECK(enc<T>(x) == m, tg, "making a value changed its source:" << w << text(v));
        if constexpr (std::is_copy_constructible_v<T> && Copyable<T>::value) {
            T y(x); value v2(y);                                 // from a mutable lvalue
            HX_CHECK(enc<T>(y) == m && model::same(v2, m), tg, "making a value from a variable changed it:" << w << text(v2));
            if constexpr (!std::is_same_v<T, std::vector<bool>>) {     // which has no such constructor
                T z(x); value v3(std::move(z));
                HX_CHECK(model::same(v3, m), tg, "a value made from an rvalue differs:" << w << text(v3));
            }
        }
        HX_CHECK(v.is<T>(), tg + " C11", "a value made from T is no T:" << w << text(v));
        int t = thrown([&] { T y = v.as<T>(); Val g = enc<T>(y); HX_CHECK(eq(g, x, m), tg, "T -> value -> T changes it:" << w << text(v)); });
        HX_CHECK(t == 0, tg + " C11", "T -> value -> T throws:" << w << text(v));
        value v4(v); t = thrown([&] { T y = std::move(v4).template as<T>(); HX_CHECK(eq(enc<T>(y), x, m), tg, "T -> value -> T by move changes it:" << w << text(v)); });
        HX_CHECK(t == 0, tg, "T -> value -> T by move throws:" << w);
        HX_CHECK(model::same(v, m), tg, "reading T changed the value:" << w);
        if (m.t == Val::Arr || m.t == Val::Obj) {
            auto p = json::parse(v.to_string());
            HX_CHECK(!!p && model::same(*p, m), tg, "the text of a T does not read back:" << w << text(v));
            if (p) { t = thrown([&] { T y = p->template as<T>(); HX_CHECK(eq(enc<T>(y), x, m), tg, "T -> text -> T changes it:" << w << text(v)); }); HX_CHECK(t == 0, tg, "T -> text -> T throws:" << w << text(v)); }
        }
    }
    template <class T> static value make(const T& x)
    {
        if constexpr (Copyable<T>::value) return value(x);
        else { hx::Choices none(std::string()); return value(clone(x)); }
    }
    template <class T> static std::unique_ptr<T> clone(const std::unique_ptr<T>& p) { return p ? std::make_unique<T>(*p) : nullptr; }
    template <class T> static std::vector<std::unique_ptr<T>> clone(const std::vector<std::unique_ptr<T>>& v) { std::vector<std::unique_ptr<T>> r; for (auto& p : v) r.push_back(clone(p)); return r; }
    template <class T> static std::map<std::string, std::unique_ptr<T>> clone(const std::map<std::string, std::unique_ptr<T>>& v) { std::map<std::string, std::unique_ptr<T>> r; for (auto& [k, p] : v) r.emplace(k, clone(p)); return r; }
    template <class T> static bool eq(const Val& g, const T&, const Val& m) { if (g == m) return true; if (g.t != Val::Arr || m.t != Val::Arr || !unordered(static_cast<const T*>(nullptr))) return false; Val a = g, b = m; auto lt = [](const Val& p, const Val& q) { return p.s < q.s; }; std::sort(a.a.begin(), a.a.end(), lt); std::sort(b.a.begin(), b.a.end(), lt); return a == b; }
    template <class T> static constexpr bool unordered(const T*) { return false; }
    template <class T> static constexpr bool unordered(const std::unordered_set<T>*) { return true; }

    template <class T> void type(hx::Choices& c, const char* tag, const char* tn)
    {
        hx::phase((std::string(tag) + " C11").c_str());
        T x = gen<T>(c);
        round<T>(x, tag, tn);
        Val m = c.below(4) ? enc<T>(x) : model::value(c);
        unsigned n = c.below(3); for (unsigned i = 0; i < n; i++) disturb(c, m);
        if constexpr (!std::is_same_v<T, std::unordered_set<std::string>>) reads<T>(m, tag, tn);
    }
    // ---- C10
    template <class T> void integer(const value& v, const Val& m, const char* tn)
    {
        std::optional<T> want; if (m.t == Val::Num) want = exact<T>(m.s);
        std::string w = std::string(" T = ") + tn + " in " + text(v);
        HX_CHECK(v.is<T>() == !!want, "C10 C11", "is<T>() is wrong:" << w);
        auto one = [&](auto f, const char* how) { T r = 0; int t = thrown([&] { r = f(); }); HX_CHECK(t == (want ? 0 : 1) && (!want || r == *want), "C10", how << (t == 0 ? " gives a number" : t == 1 ? " throws json::exception" : " throws something else") << ":" << w << " " << (t ? "" : std::to_string(r))); };
        if constexpr (sizeof(T) >= sizeof(int)) {
            one([&] { return v.as<T>(); }, "as<T>()"); one([&] { return (T)v; }, "the conversion"); one([&] { value r(v); return std::move(r).template as<T>(); }, "as<T>() of an rvalue");
            if constexpr (std::is_same_v<T, int>) one([&] { return v.as_integer(); }, "as_integer()");
            if constexpr (std::is_same_v<T, unsigned>) one([&] { return v.as_unsigned(); }, "as_unsigned()");
            if constexpr (std::is_same_v<T, long>) one([&] { return v.as_long(); }, "as_long()");
            if constexpr (std::is_same_v<T, unsigned long>) one([&] { return v.as_unsigned_long(); }, "as_unsigned_long()");
            if constexpr (std::is_same_v<T, long long>) one([&] { return v.as_long_long(); }, "as_long_long()");
            if constexpr (std::is_same_v<T, unsigned long long>) one([&] { return v.as_unsigned_long_long(); }, "as_unsigned_long_long()");
        }
    }
    void integers(const value& v, const Val& m)
    {
        integer<int>(v, m, "int"); integer<unsigned>(v, m, "unsigned"); integer<long>(v, m, "long"); integer<unsigned long>(v, m, "unsigned long"); integer<long long>(v, m, "long long"); integer<unsigned long long>(v, m, "unsigned long long");
        integer<signed char>(v, m, "signed char"); integer<unsigned char>(v, m, "unsigned char"); integer<short>(v, m, "short"); integer<unsigned short>(v, m, "unsigned short");
        HX_CHECK(model::same(v, m), "C10", "reading a number changes it");
    }
    template <class T> void made(hx::Choices& c, const char* tn)
    {
        T x = gen<T>(c); value v(x); Val m = enc<T>(x);
        HX_CHECK(model::same(v, m), "C10", "a value made from " << tn << " " << std::to_string(x) << " is " << text(v));
        integers(v, m);
    }
    std::string digits(hx::Choices& c)
    {
        static const char* const lim[] = { "127", "255", "32767", "65535", "2147483647", "4294967295", "9223372036854775807", "18446744073709551615", "128", "256", "32768", "65536", "2147483648", "4294967296", "9223372036854775808", "18446744073709551616", "99999999999999999999", "340282366920938463463374607431768211456", "0" };
        std::string s = lim[c.below(sizeof lim / sizeof *lim)];
        switch (c.below(6)) {
        case 0: s.back() = (char)('0' + c.below(10)); break;
        case 1: s += (char)('0' + c.below(10)); break;
        case 2: if (s.size() > 1) s[1 + c.below((unsigned)s.size() - 1)] = (char)('0' + c.below(10)); break;
        case 3: s = std::to_string(1 + c.byte()); { unsigned n = c.below(25); for (unsigned i = 0; i < n; i++) s += (char)('0' + c.below(10)); } break;
        default: break;
        }
        if (c.below(2)) s = "-" + s;
        if (!c.below(5)) { static const char* const tail[] = { ".0", ".5", "e0", "E1", "e-1", ".0e+2", "e5", ".00" }; s += tail[c.below(8)]; }
        return s;
    }
    // ---- C18
    template <class E> void enums(hx::Choices& c, const char* tn)
    {
        hx::phase("C18");
        using U = std::underlying_type_t<E>; using L = std::numeric_limits<U>;
        U u;
        switch (c.below(8)) { case 0: u = (U)((long long)c.byte() - 128); break; case 1: u = (U)(c.byte() * 256LL + c.byte() - 32768); break; case 2: u = L::max(); break; case 3: u = L::min(); break;
            case 4: u = (U)(((unsigned long long)c.byte() << 32) + c.byte()); break; case 5: u = (U)(Table<E>::hi + (int)c.below(5) - 2); break; case 6: u = (U)(Table<E>::lo + (int)c.below(5) - 2); break;
            default: u = (U)Codec<E>::gen(c); }
        E e = (E)u; std::string want = name_of(e);
        if (in_range<E>(u)) HX_CHECK(json::_reflection::enum_to_string(e) == want, "C18", "enum_to_string(" << tn << " " << std::to_string(u) << ") is \"" << json::_reflection::enum_to_string(e) << "\", not \"" << want << "\"");
        else HX_CHECK(json::_reflection::enum_to_string(e).empty(), "C18", "enum_to_string(" << tn << " " << std::to_string(u) << ") outside of the range is \"" << json::_reflection::enum_to_string(e) << "\"");
        int t = thrown([&] { value v(e); HX_CHECK(v.is_string() && v.as_string() == want && v.is<E>() && v.as<E>() == e && (E)v == e, "C18", tn << " " << std::to_string(u) << " -> value -> " << tn << " gives " << text(v)); });
        HX_CHECK(t == (want.empty() ? 1 : 0), "C18", "a value from " << tn << " " << std::to_string(u));
        // numbers
        value nv(u); HX_CHECK(nv.is<E>(), "C18 C11", "is<" << tn << ">() of its number"); t = thrown([&] { HX_CHECK(nv.as<E>() == e, "C18", "the number " << text(nv) << " as " << tn << " is wrong"); }); HX_CHECK(t == 0, "C18", "the number " << text(nv) << " as " << tn << " throws");
        // names, other case, near misses
        auto& tab = Table<E>::names(); std::string s = tab[c.below((unsigned)tab.size())].first;
        unsigned n = c.below(4); for (unsigned i = 0; i < n; i++) { char& k = s[c.below((unsigned)s.size())]; if ((k | 32) >= 'a' && (k | 32) <= 'z') k ^= 32; }
        switch (c.below(10)) { case 0: s += (char)c.byte(); break; case 1: s.pop_back(); break; case 2: s[c.below((unsigned)s.size())] ^= (char)(1 << c.below(8)); break; case 3: s = model::text(c); break; case 4: s += '\0'; break; default: break; }
        auto w = by_name<E>(s), g = json::_reflection::string_to_enum<E>(s);
        HX_CHECK(w == g, "C18", "string_to_enum<" << tn << ">(\"" << hx::printable(s) << "\") is wrong");
        value sv(s); HX_CHECK(sv.is<E>() == !!w, "C18 C11", "is<" << tn << ">() of \"" << hx::printable(s) << "\" is wrong");
        t = thrown([&] { E r = sv.as<E>(); HX_CHECK(w && r == *w, "C18", "as<" << tn << ">() of \"" << hx::printable(s) << "\" is wrong"); }); HX_CHECK(t == (w ? 0 : 1), "C18 C11", "as<" << tn << ">() of \"" << hx::printable(s) << "\": " << t);
        Val other = model::value(c); if (other.t != Val::Str && other.t != Val::Num) { value ov = model::build(other); HX_CHECK(!ov.is<E>() && thrown([&] { (void)ov.as<E>(); }) == 1 && model::same(ov, other), "C18 C11", text(ov) << " as " << tn); }
        if (other.t == Val::Num) reads<E>(other, "C18", tn);
    }
    template <class E> static bool in_range(std::underlying_type_t<E> u) { return std::is_signed_v<decltype(u)> ? (long long)u >= Table<E>::lo && (long long)u <= Table<E>::hi : Table<E>::hi >= 0 && (unsigned long long)u <= (unsigned long long)Table<E>::hi; }
    // ---- C19
    template <class T> void structs(hx::Choices& c, const char* tn)
    {
        hx::phase("C19");
        T x = gen<T>(c); Val m = enc<T>(x);
        value v = x.to_json(); HX_CHECK(model::same(v, m), "C19", "to_json() of " << tn << " is " << text(v));
        HX_CHECK(enc<T>(x) == m, "C19", "to_json() changed the " << tn);
        round<T>(x, "C19", tn);
        unsigned n = c.below(3); for (unsigned i = 0; i < n; i++) disturb(c, m);
        std::string bad; bool want = Codec<T>::is(m, &bad);
        const value j = model::build(m); std::string w = std::string(" ") + tn + " from " + text(j);
        T fresh; std::string key; HX_CHECK(fresh.check_json(j) == want, "C19", "check_json() is wrong:" << w);
        HX_CHECK(fresh.check_json(j, key) == want && key == bad, "C19", "check_json() reports \"" << hx::printable(key) << "\", not \"" << hx::printable(bad) << "\":" << w);
        HX_CHECK(enc<T>(fresh) == enc<T>(T()), "C19", "check_json() changes the struct:" << w);
        T a = gen<T>(c), b = a; Val before = enc<T>(a); key.clear();
        bool ok = a.from_json(j, key); HX_CHECK(ok == want && key == bad && b.from_json(j) == want, "C19", "from_json() gives " << ok << " and reports \"" << hx::printable(key) << "\", not \"" << hx::printable(bad) << "\":" << w);
        if (ok && want) {      // members that are there are read, the optional ones that are not keep what they had
            Val after = before; (void)after; T e = T(b); Val full = enc<T>(a);
            for (auto& [k, ev] : full.o) { const Val* in = member(m, k.c_str()); const Val* had = member(before, k.c_str()); if (!in) HX_CHECK(had && ev == *had, "C19", "the missing optional member " << k << " was changed:" << w); }
            T d = Codec<T>::dec(m), f; HX_CHECK(f.from_json(j), "C19", "from_json() fails:" << w); HX_CHECK(f == d, "C19", "from_json() reads something else:" << w);
            for (auto& [k, ev] : full.o) if (member(m, k.c_str())) HX_CHECK(ev == *member(enc<T>(d), k.c_str()), "C19", "the member " << k << " is read wrong:" << w);
        }
        HX_CHECK(model::same(j, m), "C19", "from_json() changes the value:" << w);
        reads<T>(m, "C19", tn);
    }
    void run(const std::string& data) override
    {
        hx::Choices c(data);
#define T(tag, ...) type<__VA_ARGS__>(c, tag, #__VA_ARGS__); break
        switch (c.below(64) % HX_CASES) {
#if HX_PART == 1        // integers
        case 6: { hx::phase("C10"); Val m = model::value(c); const value v = model::build(m); integers(v, m); break; }
        case 7: hx::phase("C10"); made<int>(c, "int"); made<unsigned char>(c, "unsigned char"); made<short>(c, "short"); break;
        case 8: hx::phase("C10"); made<unsigned>(c, "unsigned"); made<long>(c, "long"); made<signed char>(c, "signed char"); break;
        case 9: hx::phase("C10"); made<unsigned long>(c, "unsigned long"); made<long long>(c, "long long"); made<unsigned short>(c, "unsigned short"); break;
        case 10: hx::phase("C10"); made<unsigned long long>(c, "unsigned long long"); break;
        case 11: T("C10", int); case 12: T("C10", unsigned long long);
        default: { hx::phase("C10"); Val m = mk(Val::Num, digits(c)); const value v = model::number_value(m.s); if (v.is_number() && model::same(v, m)) integers(v, m); break; }
#elif HX_PART == 2      // collections and maps
        case 0: T("C17", std::string); case 1: T("C17", value); case 2: T("C17", json::array); case 3: T("C17", json::object); case 4: T("C17", std::filesystem::path);
        case 5: T("C17", std::vector<int>); case 6: T("C17", std::vector<bool>); case 7: T("C17", std::vector<std::string>); case 8: T("C17", std::vector<value>); case 9: T("C17", std::list<std::vector<long>>);
        case 10: T("C17", std::set<std::string>); case 11: T("C17", std::multiset<int>); case 12: T("C17", std::unordered_set<std::string>); case 13: T("C17", std::map<std::string, int>);
        case 14: T("C17", std::map<std::string, std::vector<std::string>>); case 15: T("C17", std::unordered_map<std::string, bool>); case 16: T("C17", std::map<std::string, value>);
        default: T("C17", std::unordered_map<std::string, std::list<std::map<std::string, std::deque<int>>>>);
#elif HX_PART == 3      // fixed-size arrays, tuples
        case 0: T("C17", bool); case 1: T("C17", std::monostate); case 2: T("C17", std::array<int, 3>); case 3: T("C17", std::array<std::string, 1>); case 4: T("C17", std::vector<std::array<bool, 2>>);
        case 5: T("C17", std::tuple<int>); case 6: T("C17", std::tuple<int, std::string, bool>); case 7: T("C17", std::pair<std::string, unsigned>); case 8: T("C17", std::vector<std::pair<int, std::string>>);
        case 9: T("C17", std::tuple<std::optional<int>, std::vector<std::tuple<bool>>>); case 10: T("C17", std::variant<int, std::string, bool>); case 11: T("C17", std::variant<std::monostate, std::vector<int>, std::map<std::string, bool>>);
        default: T("C17", std::vector<std::variant<std::string, int>>);
#elif HX_PART == 4      // wrappers
        case 0: T("C17", std::deque<std::optional<int>>); case 1: T("C17", std::optional<int>); case 2: T("C17", std::optional<std::string>); case 3: T("C17", std::optional<std::vector<int>>); case 4: T("C17", std::shared_ptr<std::string>);
        case 5: T("C17", std::unique_ptr<int>); case 6: T("C17", std::vector<std::shared_ptr<int>>); case 7: T("C17", std::vector<std::unique_ptr<std::string>>); case 8: T("C17", std::map<std::string, std::unique_ptr<int>>);
        default: T("C17", std::optional<std::tuple<int>>);
#elif HX_PART == 5      // enumerations
        case 0: enums<Color>(c, "Color"); enums<Neg>(c, "Neg"); break; case 1: enums<Sparse>(c, "Sparse"); break; case 2: enums<Big>(c, "Big"); enums<Plain>(c, "Plain"); break; case 3: enums<One>(c, "One"); enums<Color>(c, "Color"); break;
        case 4: T("C18", std::vector<Color>); default: T("C18", std::map<std::string, std::optional<Neg>>);
#else                   // jsonization
        case 0: structs<Inner>(c, "Inner"); break; case 1: case 2: structs<Outer>(c, "Outer"); break; case 3: structs<Last>(c, "Last"); break;
        default: T("C19", std::vector<std::optional<Inner>>);
#endif
        }
    }
    std::string random(hx::Rng& r) override
    {
        std::string d; size_t n = 4 + r.below(r.chance(1, 3) ? 160 : 40);
        for (size_t i = 0; i < n; i++) d.push_back((char)r.below(256));
        return d;
    }
};
}
int main(int argc, char** argv) { S h; return hx::main(argc, argv, h); }
