// C12 lookup, C13 copying/moving/assignment, C14 equality, C15 arrays, C16 objects, C21 access of the wrong kind:
// random histories of operations on json::value, against the same history on reference values.
// Case: bytes that choose three start values and a sequence of operations.
#define _GLIBCXX_DEBUG 1
#include "model.hpp"
using ref::Val;
using json::value; using json::array; using json::object;
namespace
{
struct Step { bool idx; size_t i; std::string k; };
using Path = std::vector<Step>;
constexpr unsigned N = 3;

bool empty(const Val& m) { return m.t == Val::Null || (m.t == Val::Str && m.s.empty()) || (m.t == Val::Arr && m.a.empty()) || (m.t == Val::Obj && m.o.empty()); }
bool arr_mut(const Val& m) { return m.t == Val::Arr || empty(m); }
bool obj_mut(const Val& m) { return m.t == Val::Obj || empty(m); }
void to_arr(Val& m) { if (m.t != Val::Arr) { m = Val(); m.t = Val::Arr; } }
void to_obj(Val& m) { if (m.t != Val::Obj) { m = Val(); m.t = Val::Obj; } }
Val* find(Val& m, const std::string& k) { for (auto& [n, e] : m.o) if (n == k) return &e; return nullptr; }
const Val* find(const Val& m, const std::string& k) { return find(const_cast<Val&>(m), k); }
void put(Val& m, const std::string& k, Val e)
{
    if (Val* p = find(m, k)) { *p = std::move(e); return; }
    m.o.emplace_back(k, std::move(e)); model::sort_members(m);
}
void merge(Val& m, const Val& r) { Val c = r; for (auto& [k, e] : c.o) put(m, k, e); }
void append(Val& m, const Val& r) { Val c = r; for (auto& e : c.a) m.a.push_back(e); }
unsigned size(const Val& m) { unsigned n = 1; for (auto& e : m.a) n += size(e); for (auto& [k, e] : m.o) n += size(e); return n; }

struct S : hx::Harness
{
    const char* tags() override { return "C12 C13 C14 C15 C16 C21"; }
    value v[N]; Val m[N];
    std::string trace;

    Path path(hx::Choices& c, const Val& root, unsigned max = 4)
    {
        Path p; const Val* x = &root;
        while (p.size() < max && c.below(4)) {
            if (x->t == Val::Arr && !x->a.empty()) { size_t i = c.below((unsigned)x->a.size()); p.push_back({ true, i, "" }); x = &x->a[i]; }
            else if (x->t == Val::Obj && !x->o.empty()) { size_t i = c.below((unsigned)x->o.size()); p.push_back({ false, 0, x->o[i].first }); x = &x->o[i].second; }
            else break;
        }
        return p;
    }
    static Val& at(Val& r, const Path& p) { Val* x = &r; for (auto& s : p) x = s.idx ? &x->a[s.i] : find(*x, s.k); return *x; }
    static value& at(value& r, const Path& p) { value* x = &r; for (auto& s : p) x = s.idx ? &x->as_array()[s.i] : &x->as_object()[s.k]; return *x; }
    static bool prefix(const Path& a, const Path& b)        // a is on the way to b
    {
        if (a.size() > b.size()) return false;
        for (size_t i = 0; i < a.size(); i++) if (a[i].idx != b[i].idx || a[i].i != b[i].i || a[i].k != b[i].k) return false;
        return true;
    }
    static std::string show(const Path& p) { std::string r; for (auto& s : p) r += s.idx ? "[" + std::to_string(s.i) + "]" : "[\"" + hx::printable(s.k) + "\"]"; return r; }
    void check(const char* tag, unsigned touched)
    {
        for (unsigned i = 0; i < N; i++) {
            if (model::same(v[i], m[i])) continue;
            if (i == touched) HX_CHECK(false, tag, "after " << trace << " the value is " << text(v[i]));
            else HX_CHECK(false, std::string(tag) + " C13", "another value (" << i << ") changed, it is " << text(v[i]) << " after " << trace);
        }
    }
    static std::string text(const value& x) { try { return x.to_string(); } catch (...) { return "<not serialisable>"; } }
    template <class F> static int thrown(F f) { try { f(); return 0; } catch (const json::exception&) { return 1; } catch (const std::out_of_range&) { return 2; } catch (...) { return 3; } }

    std::string key(hx::Choices& c, const Val& x) { return x.t == Val::Obj && !x.o.empty() && c.below(2) ? x.o[c.below((unsigned)x.o.size())].first : model::text(c); }
    size_t index(hx::Choices& c, const Val& x)
    {
        size_t n = x.t == Val::Arr ? x.a.size() : 2;
        switch (c.below(6)) { case 0: return n; case 1: return n + c.below(3); case 2: return (size_t)-1; case 3: return (size_t)1 << 32; default: return n ? c.below((unsigned)n) : 0; }
    }

    // ---- C12
    template <class T> void find_as(const value& x, const Val& mx, const std::string& k, size_t i, const Val* mk, const Val* mi)
    {
        auto good = [&](const std::optional<T>& r, const value* e) { return !e || !e->is<T>() ? !r : r && *r == e->as<T>(); };
        auto one = [&](const Val* me, auto f, const value* e) {
            if (!me) { std::optional<T> r; int t = thrown([&] { r = f(); }); HX_CHECK(t == 0 && !r, "C12 C11", "find<T> of a missing element gives something"); return; }
            std::optional<T> r; int t = thrown([&] { r = f(); });
            HX_CHECK(t == 0 && good(r, e), "C12 C11", "find<T> does not agree with is<T> and as<T> on " << text(*e));
        };
        (void)mx;
        one(mk, [&] { return x.find<T>(k); }, mk ? x.find_value(k) : nullptr);
        one(mi, [&] { return x.find<T>(i); }, mi ? x.find_value(i) : nullptr);
    }
    void lookup(const value& x, const Val& mx, hx::Choices& c)
    {
        hx::phase("C12");
        std::string k = key(c, mx); size_t i = index(c, mx);
        const Val* mk = mx.t == Val::Obj ? find(mx, k) : nullptr; const Val* mi = mx.t == Val::Arr && i < mx.a.size() ? &mx.a[i] : nullptr;
        std::string w = " key \"" + hx::printable(k) + "\" index " + std::to_string(i) + " in " + text(x);
        HX_CHECK(x.contains(k) == !!mk && x.exists(k) == !!mk, "C12", "contains/exists are wrong:" << w);
        HX_CHECK(x.contains(i) == !!mi && x.exists(i) == !!mi, "C12", "contains/exists are wrong:" << w);
        const value* pk = x.find_value(k); const value* pi = x.find_value(i);
        HX_CHECK(!!pk == !!mk && (!pk || model::same(*pk, *mk)), "C12", "find_value is wrong:" << w);
        HX_CHECK(!!pi == !!mi && (!pi || model::same(*pi, *mi)), "C12", "find_value is wrong:" << w);
        const value* q = nullptr;
        int t = thrown([&] { q = &x.at(k); }); HX_CHECK(t == (mk ? 0 : mx.t == Val::Obj ? 2 : 1) && (!mk || q == pk), "C12 C21", "at(key) is wrong:" << w);
        q = nullptr; t = thrown([&] { q = &x.at(i); }); HX_CHECK(t == (mi ? 0 : mx.t == Val::Arr ? 2 : 1) && (!mi || q == pi), "C12 C21", "at(pos) is wrong:" << w);
        auto fk = x.find(k); HX_CHECK(fk.has_value() == !!mk && (!mk || model::same(*fk, *mk)), "C12", "find is wrong:" << w);
        auto fi = x.find(i); HX_CHECK(fi.has_value() == !!mi && (!mi || model::same(*fi, *mi)), "C12", "find is wrong:" << w);
        if (mx.t == Val::Obj) {
            const object& o = x.as_object();
            HX_CHECK(o.contains(k) == !!mk && o.exists(k) == !!mk && o.find_value(k) == pk && o.find(k).has_value() == !!mk, "C12", "object lookup is wrong:" << w);
            t = thrown([&] { q = &o.at(k); }); HX_CHECK(t == (mk ? 0 : 2) && (!mk || q == pk), "C12", "object::at is wrong:" << w);
            HX_CHECK(o.get(k, value("none")) == (mk ? *pk : value("none")), "C12", "object::get is wrong:" << w);
            if (mk) { value y(x); HX_CHECK(y[k] == *pk && y == x, "C12 C16", "operator[] does not give the member:" << w); }
        }
        if (mx.t == Val::Arr) {
            const array& a = x.as_array();
            HX_CHECK(a.contains(i) == !!mi && a.exists(i) == !!mi && a.find_value(i) == pi && a.find(i).has_value() == !!mi, "C12", "array lookup is wrong:" << w);
            t = thrown([&] { q = &a.at(i); }); HX_CHECK(t == (mi ? 0 : 2) && (!mi || q == pi), "C12", "array::at is wrong:" << w);
            HX_CHECK(a.get(i, value("none")) == (mi ? *pi : value("none")), "C12", "array::get is wrong:" << w);
            if (mi) HX_CHECK(&a[i] == pi && &x[i] == pi, "C12", "operator[] is wrong:" << w);
        }
        find_as<std::string>(x, mx, k, i, mk, mi); find_as<bool>(x, mx, k, i, mk, mi); find_as<int>(x, mx, k, i, mk, mi); find_as<unsigned long long>(x, mx, k, i, mk, mi); find_as<long>(x, mx, k, i, mk, mi);
        find_as<array>(x, mx, k, i, mk, mi); find_as<object>(x, mx, k, i, mk, mi);
        // get along a path of one to three steps, mixed keys and positions; the default when it is missing or of another kind
        unsigned kinds = c.below(14); const Val* cur = &mx; std::string ks[3]; size_t is[3] = { 0, 0, 0 };
        unsigned len = kinds < 2 ? 1 : kinds < 6 ? 2 : 3, bits = kinds < 2 ? kinds : kinds < 6 ? kinds - 2 : kinds - 6;
        for (unsigned n = 0; n < len; n++) {
            static const Val none{};
            ks[n] = key(c, cur ? *cur : none); is[n] = index(c, cur ? *cur : none);
            if (bits >> n & 1) cur = cur && cur->t == Val::Arr && is[n] < cur->a.size() ? &cur->a[is[n]] : nullptr;
            else cur = cur && cur->t == Val::Obj ? find(*cur, ks[n]) : nullptr;
        }
        auto want = [&](auto def) { using T = decltype(def); if constexpr (std::is_same_v<T, value>) return cur ? model::build(*cur) : def;
            else if constexpr (std::is_same_v<T, std::string>) return cur && cur->t == Val::Str ? cur->s : def;
            else if constexpr (std::is_same_v<T, bool>) return cur && cur->t == Val::Bool ? cur->s == "true" : def;
            else { value e = cur ? model::build(*cur) : value(); return cur && e.is<T>() ? e.as<T>() : def; } };
        auto go = [&](auto def) {
            decltype(def) r = def;
            switch (kinds) {
            case 0: r = x.get(ks[0], def); break; case 1: r = x.get(is[0], def); break;
            case 2: r = x.get(ks[0], ks[1], def); break; case 3: r = x.get(is[0], ks[1], def); break; case 4: r = x.get(ks[0], is[1], def); break; case 5: r = x.get(is[0], is[1], def); break;
            case 6: r = x.get(ks[0], ks[1], ks[2], def); break; case 7: r = x.get(is[0], ks[1], ks[2], def); break; case 8: r = x.get(ks[0], is[1], ks[2], def); break; case 9: r = x.get(is[0], is[1], ks[2], def); break;
            case 10: r = x.get(ks[0], ks[1], is[2], def); break; case 11: r = x.get(is[0], ks[1], is[2], def); break; case 12: r = x.get(ks[0], is[1], is[2], def); break; default: r = x.get(is[0], is[1], is[2], def);
            }
            HX_CHECK(r == want(def), "C12", "get along a path gives a wrong result:" << w << " steps " << len << " kinds " << bits);
        };
        int tt = thrown([&] { switch (c.below(5)) { case 0: go(value("none")); break; case 1: go(std::string("none")); break; case 2: go(true); break; case 3: go(-7); break; default: go((unsigned long)7); } });
        HX_CHECK(tt == 0, "C12", "get throws although it has a default:" << w);
    }
    // ---- C14
    void equality(hx::Choices& c)
    {
        hx::phase("C14");
        unsigned i = c.below(N), j = c.below(N); Path p = path(c, m[i]), q = path(c, m[j]);
        Val a = at(m[i], p), b = c.below(3) ? at(m[j], q) : a;
        const value& x = at(v[i], p);
        if (c.below(3) == 0) tweak(c, b);
        value y = model::build(b);
        bool e = a == b;
        HX_CHECK((x == y) == e && (y == x) == e && (x != y) == !e && (y != x) == !e, "C14", "comparison of " << text(x) << " and " << text(y) << " is wrong");
        HX_CHECK(x == x && !(x != x), "C14", "a value differs from itself: " << text(x));
        HX_CHECK(!e || x.to_string() == y.to_string(), "C14 C08", "equal values are written differently");
        if (a.t == Val::Arr && b.t == Val::Arr) HX_CHECK((x.as_array() == std::as_const(y).as_array()) == e && (x.as_array() != std::as_const(y).as_array()) == !e, "C14", "comparison of arrays is wrong");
        if (a.t == Val::Obj && b.t == Val::Obj) HX_CHECK((x.as_object() == std::as_const(y).as_object()) == e && (x.as_object() != std::as_const(y).as_object()) == !e, "C14", "comparison of objects is wrong");
    }
    void tweak(hx::Choices& c, Val& b)
    {
        Path p = path(c, b, 6); Val& x = at(b, p);
        switch (c.below(6)) {
        case 0: x = model::value(c, 3); break;
        case 1: if (x.t == Val::Arr && !x.a.empty()) x.a.pop_back(); else x.s += "0"; if (x.t == Val::Bool) x.s = x.s == "true0" ? "false" : "true"; else if (x.t < Val::Num || x.t > Val::Str) x.s.clear(); break;
        case 2: if (x.t == Val::Arr) x.a.push_back(Val()); break;
        case 3: if (x.t == Val::Obj && !x.o.empty()) { x.o[c.below((unsigned)x.o.size())].first += "x"; model::sort_members(x); } break;
        case 4: if (x.t == Val::Obj && !x.o.empty()) x.o.erase(x.o.begin() + c.below((unsigned)x.o.size())); break;
        default: if (x.t == Val::Num) x.t = Val::Str; else if (x.t == Val::Arr && x.a.empty()) x.t = Val::Obj; else if (x.t == Val::Arr && x.a.size() > 1) std::swap(x.a[0], x.a[1]);
        }
    }
    // ---- C21: every access that does not fit throws json::exception and leaves everything as it was
    void wrong_kind(const value& x, const Val& mx)
    {
        hx::phase("C21");
        auto is = [&](Val::T t) { return mx.t == t; };
        auto a = [&](bool fits, const char* what, auto f) { int t = thrown(f); HX_CHECK(t == (fits ? 0 : 1), "C21", what << (fits ? " throws on " : t ? " throws something else on " : " does not throw on ") << text(x)); };
        bool B = is(Val::Bool), T = is(Val::Str), A = is(Val::Arr), O = is(Val::Obj), Z = is(Val::Null), Q = is(Val::Num);
        a(B, "as_boolean", [&] { (void)x.as_boolean(); }); a(B, "bool", [&] { (void)(bool)x; }); a(B, "as<bool>", [&] { (void)x.as<bool>(); });
        a(T, "as_string", [&] { (void)x.as_string(); }); a(T, "as_string_view", [&] { (void)x.as_string_view(); }); a(T, "std::string", [&] { (void)(std::string)x; }); a(T, "as<std::string>", [&] { (void)x.as<std::string>(); });
        a(A, "as_array", [&] { (void)x.as_array(); }); a(A, "json::array", [&] { (void)(array)x; }); a(A, "as<json::array>", [&] { (void)x.as<array>(); });
        a(O, "as_object", [&] { (void)x.as_object(); }); a(O, "json::object", [&] { (void)(object)x; }); a(O, "as<json::object>", [&] { (void)x.as<object>(); });
        a(Z, "nullptr", [&] { (void)(std::nullptr_t)x; }); a(Z, "monostate", [&] { (void)(std::monostate)x; });
        if (!Q) { a(false, "as_integer", [&] { (void)x.as_integer(); }); a(false, "as_unsigned", [&] { (void)x.as_unsigned(); }); a(false, "as_long", [&] { (void)x.as_long(); }); a(false, "as_unsigned_long", [&] { (void)x.as_unsigned_long(); });
            a(false, "as_long_long", [&] { (void)x.as_long_long(); }); a(false, "as_unsigned_long_long", [&] { (void)x.as_unsigned_long_long(); }); a(false, "as_float", [&] { (void)x.as_float(); }); a(false, "as_double", [&] { (void)x.as_double(); }); a(false, "as_long_double", [&] { (void)x.as_long_double(); }); }
        else { a(true, "as_double", [&] { (void)x.as_long_double(); }); }
        a(A, "const operator[](pos)", [&] { if (!A || !mx.a.empty()) (void)x[0]; });
        a(A, "const + array", [&] { (void)(x + array { 1 }); }); a(O, "const | object", [&] { (void)(x | object { { "a", 1 } }); });
        auto plain = [&](const Val& e, Val::T t) { for (auto& y : e.a) if (y.t != t) return false; for (auto& y : e.o) if (y.second.t != t) return false; return true; };
        a(A && plain(mx, Val::Str), "as<vector<string>>", [&] { (void)x.as<std::vector<std::string>>(); }); a(O && plain(mx, Val::Str), "as<map<string,string>>", [&] { (void)x.as<std::map<std::string, std::string>>(); });
        a(Z || T, "as<optional<string>>", [&] { (void)x.as<std::optional<std::string>>(); }); a(A && mx.a.size() == 2 && plain(mx, Val::Bool), "as<pair<bool,bool>>", [&] { (void)x.as<std::pair<bool, bool>>(); });
        a(A && mx.a.size() == 2 && plain(mx, Val::Bool), "as<array<bool,2>>", [&] { (void)x.as<std::array<bool, 2>>(); });
        HX_CHECK(model::same(x, mx), "C21", "an access through const changed the value");
        // through a non-const value: only empty values change into the container that is asked for
        auto n = [&](bool fits, int becomes, const char* what, auto f, bool check_value = true) {
            value y(x); Val my = mx; int t = thrown([&] { f(y); });
            if (fits && becomes == 5) to_arr(my); if (fits && becomes == 6) to_obj(my);
            HX_CHECK(t == (fits ? 0 : 1), "C21", what << (fits ? " throws on " : t ? " throws something else on " : " does not throw on ") << text(x));
            if (check_value || !fits) HX_CHECK(model::same(y, my), "C21", what << " leaves " << text(y) << " behind, it was " << text(x));
        };
        bool am = arr_mut(mx), om = obj_mut(mx);
        n(am, 5, "as_array()", [](value& y) { (void)y.as_array(); }); n(om, 6, "as_object()", [](value& y) { (void)y.as_object(); });
        n(om, 6, "operator[](key)", [](value& y) { (void)y["a key"]; }, false); n(om, 6, "operator[](lvalue key)", [](value& y) { std::string k = "a key"; (void)y[k]; }, false);
        n(am, 5, "emplace(x)", [](value& y) { y.emplace(1); }, false); n(om, 6, "emplace(k, x)", [](value& y) { y.emplace("a key", 1); }, false);
        n(am, 5, "erase(pos)", [](value& y) { y.erase((size_t)1 << 40); }); n(om, 6, "erase(key)", [](value& y) { y.erase("a key that is not there"); });
        n(am, 5, "+= array", [](value& y) { y += array(); }); n(om, 6, "|= object", [](value& y) { y |= object(); });
        n(am, 5, "rvalue + array", [](value& y) { (void)(std::move(y) + array { 1 }); }, false); n(om, 6, "rvalue | object", [](value& y) { (void)(std::move(y) | object { { "a", 1 } }); }, false);
        n(A && plain(mx, Val::Str), 0, "rvalue as<vector<string>>", [](value& y) { (void)std::move(y).as<std::vector<std::string>>(); }, false); n(O && plain(mx, Val::Str), 0, "rvalue as<map<string,string>>", [](value& y) { (void)std::move(y).as<std::map<std::string, std::string>>(); }, false);
        n(B, 0, "rvalue as<bool>", [](value& y) { (void)std::move(y).as<bool>(); }); n(T, 0, "rvalue as<string>", [](value& y) { (void)std::move(y).as<std::string>(); });
        n(A, 0, "rvalue json::array", [](value& y) { (void)std::move(y).as<array>(); }, false); n(O, 0, "rvalue json::object", [](value& y) { (void)std::move(y).as<object>(); }, false);
        if (!Q) n(false, 0, "rvalue as<int>", [](value& y) { (void)std::move(y).as<int>(); });
        if (A) { // an index behind the end
            array y = x.as_array(); size_t k = y.size();
            HX_CHECK(thrown([&] { (void)y.at(k); }) == 2 && thrown([&] { (void)y.at((size_t)-1); }) == 2 && model::same(y, mx), "C21 C12", "array::at behind the end");
        }
    }
    // ---- one operation
    void op(hx::Choices& c)
    {
        unsigned s = c.below(N), kind = c.below(26); Path p = path(c, m[s]);
        Val& mt = at(m[s], p); value& t = at(v[s], p);
        trace = "operation " + std::to_string(kind) + " at " + show(p) + " of " + text(v[s]);
        auto fresh = [&] { return model::value(c, 2); };
        // a value to take from: fresh, of another slot, of the target itself, or around the target (as const reference)
        auto source = [&](unsigned& so, Path& sp) { so = c.below(N); sp = path(c, m[so]); if (c.below(3) == 0) { so = s; sp = p; Path more = path(c, mt); sp.insert(sp.end(), more.begin(), more.end()); } else if (c.below(3) == 0) { so = s; sp = p; while (!sp.empty() && c.below(2)) sp.pop_back(); } };
        switch (kind) {
        case 0: case 1: {
            hx::phase("C16"); std::string k = key(c, mt); Val e = fresh(); bool lv = c.below(2); value x = model::build(e);
            bool ok = obj_mut(mt);
            int r = thrown([&] { if (lv) t[k] = x; else t[std::string(k)] = x; });
            HX_CHECK(r == (ok ? 0 : 1), "C16 C21", trace << ": operator[] " << (ok ? "throws" : "does not throw"));
            if (ok) { to_obj(mt); put(mt, k, e); }
            check("C16", s); break; }
        case 2: {
            hx::phase("C16"); std::string k = key(c, mt); bool ok = obj_mut(mt);
            int r = thrown([&] { value& e = t[k]; HX_CHECK(mt.t == Val::Obj && find(mt, k) ? model::same(e, *find(mt, k)) : e.is_null(), "C16 C12", trace << ": operator[] gives a wrong element"); });
            HX_CHECK(r == (ok ? 0 : 1), "C16 C21", trace << ": operator[]");
            if (ok) { to_obj(mt); if (!find(mt, k)) put(mt, k, Val()); }
            check("C16", s); break; }
        case 3: {
            hx::phase("C15"); if (mt.t != Val::Arr || mt.a.empty()) break;
            size_t i = c.below((unsigned)mt.a.size()); Val e = fresh(); value x = model::build(e);
            if (c.below(2)) t[i] = x; else t.as_array()[i] = std::move(x);
            mt.a[i] = e; check("C15", s); break; }
        case 4: case 5: case 6: {
            hx::phase("C15"); unsigned so; Path sp; source(so, sp); Val e = at(m[so], sp); unsigned how = c.below(5); bool ok = arr_mut(mt);
            if (how >= 3) { e = fresh(); }
            if (size(m[s]) + size(e) > 700) break;
            if (mt.t != Val::Arr && how < 3 && so == s && prefix(sp, p)) break;      // the element is the target, or around it, and the target changes its kind first
            value f = model::build(e);
            int r = thrown([&] {
                const value& x = how < 3 ? (const value&)at(v[so], sp) : f;
                switch (how) { case 0: t.emplace(x); break; case 1: if (mt.t == Val::Arr) { t.as_array().push_back(x); break; } t.as_array().emplace_back(e.t == Val::Null ? value() : model::build(e)); break;
                    case 2: if (mt.t == Val::Arr) { value& y = t.as_array().emplace_back(x); HX_CHECK(&y == &t.as_array()[mt.a.size()], "C15", "emplace_back returns another element"); break; } t.as_array().emplace_back(model::build(e)); break;
                    case 3: t.emplace(std::move(f)); break; default: t.as_array().push_back(std::move(f)); } });
            HX_CHECK(r == (ok ? 0 : 1), "C15 C21", trace << ": emplace_back " << (ok ? "throws" : "does not throw"));
            if (ok) { to_arr(mt); mt.a.push_back(e); }
            check("C15", s); break; }
        case 7: case 8: {
            hx::phase("C16"); unsigned so; Path sp; source(so, sp); Val e = at(m[so], sp); std::string k = key(c, mt); unsigned how = c.below(4); bool ok = obj_mut(mt);
            if (how >= 2) e = fresh();
            if (size(m[s]) + size(e) > 700) break;
            if (mt.t != Val::Obj && how < 2 && so == s && prefix(sp, p)) break;
            value f = model::build(e);
            int r = thrown([&] {
                const value& x = how < 2 ? (const value&)at(v[so], sp) : f;
                switch (how) { case 0: t.emplace(k, x); break; case 1: if (mt.t == Val::Obj) t.as_object().insert(k, x); else t.as_object().insert(k, model::build(e)); break; case 2: t.emplace(k, std::move(f)); break; default: t.as_object().emplace(k, std::move(f)); } });
            HX_CHECK(r == (ok ? 0 : 1), "C16 C21", trace << ": emplace " << (ok ? "throws" : "does not throw"));
            if (ok) { to_obj(mt); put(mt, k, e); }
            check("C16", s); break; }
        case 9: {
            size_t i = index(c, mt); bool ok = arr_mut(mt); hx::phase("C15"); unsigned how = c.below(3);
            if (how && mt.t == Val::Arr) {
                array& a = t.as_array(); size_t j = i <= mt.a.size() ? i : mt.a.size(); bool was = j < mt.a.size();
                bool r = how == 1 ? a.erase(i) : a.erase(a.begin() + (ptrdiff_t)j);
                if (how == 1) j = i < mt.a.size() ? i : mt.a.size(), was = i < mt.a.size();
                HX_CHECK(r == was, "C15", trace << ": erase reports " << r); if (was) mt.a.erase(mt.a.begin() + (ptrdiff_t)j);
            }
            else {
                bool res = false; int r = thrown([&] { res = t.erase(i); }); HX_CHECK(r == (ok ? 0 : 1), "C15 C21", trace << ": erase");
                if (ok) { to_arr(mt); bool was = i < mt.a.size(); HX_CHECK(res == was, "C15", trace << ": erase reports " << res); if (was) mt.a.erase(mt.a.begin() + (ptrdiff_t)i); }
            }
            check("C15", s); break; }
        case 10: {
            std::string k = key(c, mt); bool ok = obj_mut(mt); hx::phase("C16"); unsigned how = c.below(3);
            if (how && mt.t == Val::Obj) {
                object& o = t.as_object(); bool was = find(mt, k); auto it = o.begin(); while (it != o.end() && it->first != k) ++it;
                bool r = how == 1 ? o.erase(k) : o.erase(it); HX_CHECK(r == was, "C16", trace << ": erase reports " << r);
            }
            else { bool res = false; int r = thrown([&] { res = t.erase(k); }); HX_CHECK(r == (ok ? 0 : 1), "C16 C21", trace << ": erase"); if (ok) { to_obj(mt); HX_CHECK(res == !!find(mt, k), "C16", trace << ": erase reports " << res); } }
            if (mt.t == Val::Obj) for (size_t i = 0; i < mt.o.size(); i++) if (mt.o[i].first == k) { mt.o.erase(mt.o.begin() + (ptrdiff_t)i); break; }
            check("C16", s); break; }
        case 11: {
            hx::phase("C15 C16"); unsigned how = c.below(3); 
            if (how == 1 && mt.t == Val::Arr) { t.as_array().clear(); mt.a.clear(); } else if (how == 2 && mt.t == Val::Obj) { t.as_object().clear(); mt.o.clear(); }
            else { t.clear(); mt = Val(); }
            check("C15 C16", s); break; }
        case 12: case 13: {              // copy assignment, also from an own part or from around
            hx::phase("C13"); unsigned so; Path sp; source(so, sp); Val e = at(m[so], sp);
            if (size(m[s]) + size(e) > 700) break;
            value& r = at(v[so], sp); const value& x = r;
            if (c.below(3) == 0 && mt.t == e.t && (e.t == Val::Arr || e.t == Val::Obj)) { if (e.t == Val::Arr) t.as_array() = x.as_array(); else t.as_object() = x.as_object(); }
            else if (c.below(3) == 0 && (e.t == Val::Arr || e.t == Val::Obj)) { if (e.t == Val::Arr) t = x.as_array(); else t = x.as_object(); }
            else { value& y = (t = x); HX_CHECK(&y == &t, "C13", "assignment returns something else"); }
            at(m[s], p) = e; check("C13", s); break; }
        case 14: case 15: {              // move assignment; the source gets a new value afterwards, unless it was an own part
            hx::phase("C13"); unsigned so; Path sp; source(so, sp); if (so == s && prefix(sp, p) && sp.size() < p.size()) break;
            Val e = at(m[so], sp); value& x = at(v[so], sp); bool inside = so == s && prefix(p, sp); if (size(m[s]) + size(e) > 700) break;
            if (inside && sp.size() == p.size()) break;                      // self-move: unspecified
            bool cont = c.below(3) == 0 && mt.t == e.t && (e.t == Val::Arr || e.t == Val::Obj) ;
            if (cont) { if (e.t == Val::Arr) t.as_array() = std::move(x.as_array()); else t.as_object() = std::move(x.as_object()); }
            else if (c.below(2)) t = std::move(x); else { value y(std::move(x)); t = std::move(y); }
            mt = e;
            if (!inside) { Val ne = model::value(c, 3); at(v[so], sp) = model::build(ne); at(m[so], sp) = ne; trace += " (the source was given a new value)"; }
            for (unsigned i = 0; i < N; i++) if (i != s && i != so && !model::same(v[i], m[i])) HX_CHECK(false, "C13", trace << ": move changed an unrelated value");
            check("C13", s); break; }
        case 16: {                       // swap
            hx::phase("C13"); unsigned so; Path sp; source(so, sp); if (so == s && (prefix(p, sp) || prefix(sp, p))) break;
            std::swap(t, at(v[so], sp)); std::swap(mt, at(m[so], sp)); check("C13", s); if (so != s) check("C13", so); break; }
        case 17: {                       // a copy is independent of what it was made from
            hx::phase("C13"); Val keep = mt; value x(t); value y; y = t; array a; object o;
            if (mt.t == Val::Arr) { a = std::as_const(t).as_array(); array b(a); a = b; } if (mt.t == Val::Obj) { o = std::as_const(t).as_object(); object q(o); o = q; }
            Val n = fresh(); Path q = path(c, mt); at(t, q) = model::build(n); at(mt, q) = n;
            HX_CHECK(model::same(x, keep) && model::same(y, keep) && (keep.t != Val::Arr || model::same(a, keep)) && (keep.t != Val::Obj || model::same(o, keep)), "C13", "changing the original changes a copy: " << trace);
            Val mx = keep; Path q2 = path(c, mx); Val n2 = model::value(c, 3); at(x, q2) = model::build(n2); at(mx, q2) = n2;
            HX_CHECK(model::same(x, mx) && model::same(y, keep), "C13", "changing a copy goes wrong: " << trace);
            check("C13", s); break; }
        case 18: case 19: {              // += and +
            hx::phase("C15"); unsigned so; Path sp; source(so, sp); Val e = at(m[so], sp); unsigned how = c.below(6);
            if (mt.t != Val::Arr && so == s && prefix(sp, p)) break;
            if (e.t != Val::Arr || how > 3) { e = Val(); e.t = Val::Arr; unsigned n = c.below(4); for (unsigned i = 0; i < n; i++) e.a.push_back(model::value(c, 3)); how = 4 + how % 2; }
            if (size(m[s]) + size(e) > 700) break;
            array f = model::build_array(e); bool ok = arr_mut(mt), okc = mt.t == Val::Arr; int r = 0; Val want = mt; if (ok) { to_arr(want); append(want, e); }
            switch (how) {
            case 0: case 1: r = thrown([&] { const array& x = std::as_const(at(v[so], sp)).as_array(); value& y = (t += x); HX_CHECK(&y == &t, "C15", "+= returns something else"); }); break;
            case 2: if (!okc) return; { const array& x = std::as_const(at(v[so], sp)).as_array(); t.as_array() += x; } break;
            case 3: { value y; r = thrown([&] { y = std::as_const(t) + std::as_const(at(v[so], sp)).as_array(); }); HX_CHECK(r == (okc ? 0 : 1), "C15 C21", trace << ": +"); if (okc) HX_CHECK(model::same(y, want), "C15", trace << ": + gives " << text(y)); check("C15", s); return; }
            case 4: { value y; unsigned o = c.below(4); Val ww = want;
                if (o == 0) { r = thrown([&] { y = value(t) + f; }); } else if (o == 1) { r = thrown([&] { y = value(t) + std::move(f); }); }
                else if (!okc) { r = thrown([&] { y = std::as_const(t) + std::move(f); }); HX_CHECK(r == 1, "C15 C21", trace << ": +"); check("C15", s); return; }
                else if (o == 2) { y = value(std::as_const(t).as_array() + f); HX_CHECK(model::same(value(array(std::as_const(t).as_array()) + f), want) && model::same(value(std::as_const(t).as_array() + array(f)), want) && model::same(value(array(std::as_const(t).as_array()) + array(f)), want), "C15", trace << ": array + array"); HX_CHECK(model::same(f, e), "C15 C13", "the right operand of + changed"); }
                else { y = std::as_const(t) + std::move(f); }
                HX_CHECK(r == (ok ? 0 : 1), "C15 C21", trace << ": +"); if (ok) HX_CHECK(model::same(y, ww), "C15", trace << ": + gives " << text(y)); check("C15", s); return; }
            default: r = thrown([&] { if (okc && c.below(2)) t.as_array() += std::move(f); else t += std::move(f); });
            }
            HX_CHECK(r == (ok ? 0 : 1), "C15 C21", trace << ": +="); if (ok) at(m[s], p) = want; check("C15", s); break; }
        case 20: case 21: {              // |= and |
            hx::phase("C16"); unsigned so; Path sp; source(so, sp); Val e = at(m[so], sp); unsigned how = c.below(6);
            if (mt.t != Val::Obj && so == s && prefix(sp, p)) break;
            if (e.t != Val::Obj || how > 3) { e = Val(); e.t = Val::Obj; unsigned n = c.below(4); for (unsigned i = 0; i < n; i++) { std::string k = key(c, mt); put(e, k, model::value(c, 3)); } how = 4 + how % 2; }
            if (size(m[s]) + size(e) > 700) break;
            object f = model::build_object(e); bool ok = obj_mut(mt), okc = mt.t == Val::Obj; int r = 0; Val want = mt; if (ok) { to_obj(want); merge(want, e); }
            switch (how) {
            case 0: case 1: r = thrown([&] { const object& x = std::as_const(at(v[so], sp)).as_object(); value& y = (t |= x); HX_CHECK(&y == &t, "C16", "|= returns something else"); }); break;
            case 2: if (!okc) return; { const object& x = std::as_const(at(v[so], sp)).as_object(); t.as_object() |= x; } break;
            case 3: { value y; r = thrown([&] { y = std::as_const(t) | std::as_const(at(v[so], sp)).as_object(); }); HX_CHECK(r == (okc ? 0 : 1), "C16 C21", trace << ": |"); if (okc) HX_CHECK(model::same(y, want), "C16", trace << ": | gives " << text(y)); check("C16", s); return; }
            case 4: { value y; unsigned o = c.below(4);
                if (o == 0) { r = thrown([&] { y = value(t) | f; }); } else if (o == 1) { r = thrown([&] { y = value(t) | std::move(f); }); }
                else if (!okc) { r = thrown([&] { y = std::as_const(t) | std::move(f); }); HX_CHECK(r == 1, "C16 C21", trace << ": |"); check("C16", s); return; }
                else if (o == 2) { y = value(std::as_const(t).as_object() | f); HX_CHECK(model::same(value(object(std::as_const(t).as_object()) | f), want) && model::same(value(std::as_const(t).as_object() | object(f)), want) && model::same(value(object(std::as_const(t).as_object()) | object(f)), want), "C16", trace << ": object | object"); HX_CHECK(model::same(f, e), "C16 C13", "the right operand of | changed"); }
                else { y = std::as_const(t) | std::move(f); }
                HX_CHECK(r == (ok ? 0 : 1), "C16 C21", trace << ": |"); if (ok) HX_CHECK(model::same(y, want), "C16", trace << ": | gives " << text(y)); check("C16", s); return; }
            default: r = thrown([&] { if (okc && c.below(2)) t.as_object() |= std::move(f); else t |= std::move(f); });
            }
            HX_CHECK(r == (ok ? 0 : 1), "C16 C21", trace << ": |="); if (ok) at(m[s], p) = want; check("C16", s); break; }
        case 22: {                       // iteration
            hx::phase("C15 C16");
            if (mt.t == Val::Arr) {
                array& a = t.as_array(); size_t n = mt.a.size(), i = n; 
                for (auto it = a.rbegin(); it != a.rend(); ++it) HX_CHECK(i && model::same(*it, mt.a[--i]), "C15", "reverse iteration");
                HX_CHECK(i == 0 && (size_t)(a.end() - a.begin()) == n && (size_t)(std::as_const(a).end() - std::as_const(a).begin()) == n && a.cend() - a.cbegin() == a.crend() - a.crbegin() && std::as_const(a).rend() - std::as_const(a).rbegin() == (ptrdiff_t)n, "C15", "iterators do not span the array");
                if (n) { size_t j = c.below((unsigned)n); Val e = fresh(); *(a.begin() + (ptrdiff_t)j) = model::build(e); mt.a[j] = e; }
                unsigned k = 0; for (value& e : a) if (k++ == 1) { e = value("one"); Val x; x.t = Val::Str; x.s = "one"; mt.a[1] = x; }
            }
            else if (mt.t == Val::Obj) {
                object& o = t.as_object(); size_t i = 0;
                for (auto& [k, e] : o) { HX_CHECK(i < mt.o.size() && k == mt.o[i].first, "C16", "iteration order"); if (i == 1) { e = value("one"); Val x; x.t = Val::Str; x.s = "one"; mt.o[1].second = x; } i++; }
                HX_CHECK(i == mt.o.size() && std::distance(o.cbegin(), o.cend()) == (ptrdiff_t)i && std::distance(std::as_const(o).begin(), std::as_const(o).end()) == (ptrdiff_t)i, "C16", "iterators do not span the object");
            }
            check("C15 C16", s); break; }
        case 23: {                       // construction
            hx::phase("C15 C16"); size_t n = c.below(4); Val e; e.t = Val::Arr; e.a.resize(n);
            HX_CHECK(model::same(array(n), e), "C15", "array(size)");
            Val x = fresh(), y = fresh(); std::string k1 = model::text(c), k2 = model::text(c); value vx = model::build(x), vy = model::build(y);
            Val ea; ea.t = Val::Arr; ea.a = { x, y, x }; array a { vx, vy, vx }; HX_CHECK(model::same(a, ea), "C15", "array from an initializer list");
            Val eo; eo.t = Val::Obj; eo.o.emplace_back(k1, x); if (k1 != k2) eo.o.emplace_back(k2, y); model::sort_members(eo);
            object o { { k1, vx }, { k2, vy } }; HX_CHECK(model::same(o, eo), "C16", "object from an initializer list: " << o);
            t = c.below(2) ? value(std::move(a)) : value(a); mt = ea; check("C15", s);
            at(v[s], p) = value(o); at(m[s], p) = eo; check("C16", s); break; }
        case 24: lookup(t, mt, c); equality(c); check("C12 C14", s); break;
        default: wrong_kind(t, mt); check("C21", s);
        }
    }
    // one thing that is large: kind and two sizes
    static Val arr(size_t n, unsigned from = 0) { Val x; x.t = Val::Arr; for (size_t i = 0; i < n; i++) x.a.push_back(model::filler(from + (unsigned)i)); return x; }
    static Val obj(size_t n, unsigned from = 0) { Val x; x.t = Val::Obj; for (size_t i = 0; i < n; i++) x.o.emplace_back("k" + std::to_string(from + i), model::filler((unsigned)i * 3 + from)); model::sort_members(x); return x; }
    void big(unsigned k, size_t n, size_t b)
    {
        using model::build; using model::build_array; using model::build_object; using model::same;
        Val ma = k % 2 ? obj(n) : arr(n); value x = build(ma); Val none; none.t = Val::Str; none.s = "none"; trace = "large";
        Val changed; changed.t = Val::Str; changed.s = "changed";
        switch (k) {
        case 0: {        // arrays: every position looked up, compared, copied, erased
            hx::phase("C12"); const array& a = std::as_const(x).as_array(); HX_CHECK(a.size() == n, "C15", "size is wrong");
            for (size_t i = 0; i < n; i++) {
                const value* p = a.find_value(i); HX_CHECK(p && same(*p, ma.a[i]) && p == &a[i] && p == &a.at(i) && p == x.find_value(i) && p == &x.at(i) && x.contains(i) && a.contains(i) && a.exists(i) && x.exists(i), "C12", "position " << i << " of " << n << " is looked up wrong");
                auto q = a.find(i); auto q2 = x.find(i); HX_CHECK(q && q2 && same(*q, ma.a[i]) && same(*q2, ma.a[i]) && same(a.get(i, value("none")), ma.a[i]) && same(x.get(i, value("none")), ma.a[i]), "C12", "find/get at position " << i << " of " << n);
            }
            for (size_t i : { n, n + 1, 2 * n + 1 }) HX_CHECK(!a.find_value(i) && !a.contains(i) && !a.find(i) && !x.contains(i) && !x.find(i) && same(x.get(i, value("none")), none), "C12", "position " << i << " of " << n << " is there");
            hx::phase("C13"); value y(x), z; z = x; HX_CHECK(same(y, ma) && same(z, ma), "C13", "copy of an array of " << n); 
            hx::phase("C14"); HX_CHECK(x == y && !(x != y), "C14", "copies differ");
            for (size_t i = 0; i < n && n <= 700; i++) { Val o = ma.a[i]; y.as_array()[i] = build(changed); HX_CHECK(x != y && !(y == x) && !(x == y), "C14", "arrays of " << n << " that differ at " << i << " are equal"); HX_CHECK(same(a[i], o), "C13", "changing a copy"); y.as_array()[i] = build(o); }
            HX_CHECK(same(x, ma) && same(y, ma), "C13", "changed copies"); y.as_array().erase(n - 1); HX_CHECK(x != y && y != x, "C14", "arrays of " << n << " and one fewer are equal");
            hx::phase("C15");
            if (n <= 70) for (size_t i = 0; i <= n; i++) { array w(a); Val mw = ma; bool r = w.erase(i); HX_CHECK(r == (i < n), "C15", "erase reports " << r); if (i < n) mw.a.erase(mw.a.begin() + (ptrdiff_t)i); HX_CHECK(same(w, mw), "C15", "erase of " << i << " from " << n); }
            array w; for (auto& e : ma.a) { w.emplace_back(build(e)); } HX_CHECK(same(w, ma), "C15", "emplace_back"); array w2; for (auto& e : ma.a) w2.push_back(build(e)); HX_CHECK(same(w2, ma), "C15", "push_back");
            Val nul; nul.t = Val::Arr; nul.a.resize(n); HX_CHECK(same(array(n), nul), "C15", "array(size)");
            size_t i = n; for (auto it = a.rbegin(); it != a.rend(); ++it) HX_CHECK(i && same(*it, ma.a[--i]), "C15", "reverse iteration"); w.clear(); HX_CHECK(w.empty() && w.size() == 0, "C15", "clear"); break; }
        case 1: {        // objects
            hx::phase("C12"); const object& o = std::as_const(x).as_object(); HX_CHECK(o.size() == n, "C16", "size is wrong");
            for (auto& [key, e] : ma.o) {
                const value* p = o.find_value(key); HX_CHECK(p && same(*p, e) && p == &o.at(key) && p == x.find_value(key) && p == &x.at(key) && x.contains(key) && o.contains(key), "C12", "key " << key << " of " << n << " is looked up wrong");
                auto q = o.find(key); HX_CHECK(q && same(*q, e) && same(o.get(key, value("none")), e) && same(x.get(key, value("none")), e), "C12", "find/get of key " << key << " of " << n);
                HX_CHECK(!o.contains(key + "x") && !o.find_value("_" + key) && !x.contains("K" + key.substr(1)), "C12", "a key that is not there");
            }
            hx::phase("C13"); value y(x), z; z = x; HX_CHECK(same(y, ma) && same(z, ma), "C13", "copy of an object of " << n);
            hx::phase("C14"); HX_CHECK(x == y && !(x != y), "C14", "copies differ");
            for (size_t i = 0; i < n && n <= 300; i++) { const std::string& key = ma.o[i].first; y.as_object()[key] = build(changed); HX_CHECK(x != y && !(y == x), "C14", "objects of " << n << " that differ at " << key << " are equal"); y.as_object()[key] = build(ma.o[i].second); }
            HX_CHECK(same(x, ma) && same(y, ma), "C13", "changed copies");
            hx::phase("C16");
            if (n <= 70) for (auto& [key, e] : ma.o) { object w(o); Val mw = ma; HX_CHECK(w.erase(key) && !w.erase(key), "C16", "erase"); for (size_t i = 0; i < mw.o.size(); i++) if (mw.o[i].first == key) { mw.o.erase(mw.o.begin() + (ptrdiff_t)i); break; } HX_CHECK(same(w, mw), "C16", "erase of " << key << " from " << n); HX_CHECK(value(w) != x, "C14", "objects of " << n << " and one fewer are equal");
                object u(o); u.emplace(key, build(changed)); mw = ma; put(mw, key, changed); HX_CHECK(same(u, mw), "C16", "emplace of a key that is there"); object u2(o); u2[key] = build(changed); HX_CHECK(same(u2, mw), "C16", "operator[] of a key that is there"); }
            { object w(o); Val mw = ma; w.emplace("new", build(changed)); put(mw, "new", changed); HX_CHECK(same(w, mw), "C16", "emplace into " << n); w["newer"] = build(changed); put(mw, "newer", changed); HX_CHECK(same(w, mw), "C16", "operator[]"); w.clear(); HX_CHECK(w.empty(), "C16", "clear"); }
            break; }
        case 2: {        // append
            hx::phase("C15"); Val mb = arr(b, 1000), w = ma; append(w, mb); const array a = build_array(ma), r = build_array(mb);
            array t(a); t += r; HX_CHECK(same(t, w), "C15", "+= of " << n << " and " << b); HX_CHECK(same(a + r, w), "C15", "+ of " << n << " and " << b); t = a; t += array(r); HX_CHECK(same(t, w), "C15", "+= (rvalue) of " << n << " and " << b);
            HX_CHECK(same(array(a) + r, w) && same(a + array(r), w) && same(array(a) + array(r), w), "C15", "+ (rvalues) of " << n << " and " << b);
            value v1 = build(ma); v1 += r; HX_CHECK(same(v1, w), "C15", "value += of " << n << " and " << b); v1 = build(ma); v1 += array(r); HX_CHECK(same(v1, w) && same(value(a) + r, w), "C15", "value + of " << n << " and " << b);
            if (n == b) { array u(a); u += u; Val ww = ma; append(ww, ma); HX_CHECK(same(u, ww), "C15", "a += a of " << n); } HX_CHECK(same(a, ma) && same(r, mb), "C15 C13", "operands changed"); break; }
        case 3: {        // merge: b members, some of them common
            hx::phase("C16");
            for (size_t from : { (size_t)0, n / 2, n + 1 }) {
                Val mb = obj(b, (unsigned)from), w = ma; for (auto& e : mb.o) e.second.s = "7" + e.second.s; merge(w, mb); const object a = build_object(ma), r = build_object(mb);
                object t(a); t |= r; HX_CHECK(same(t, w), "C16", "|= of " << n << " and " << b); HX_CHECK(same(a | r, w), "C16", "| of " << n << " and " << b); t = a; t |= object(r); HX_CHECK(same(t, w), "C16", "|= (rvalue) of " << n << " and " << b);
                HX_CHECK(same(object(a) | r, w) && same(a | object(r), w) && same(object(a) | object(r), w), "C16", "| (rvalues) of " << n << " and " << b);
                value v1 = build(ma); v1 |= r; HX_CHECK(same(v1, w), "C16", "value |= of " << n << " and " << b); v1 = build(ma); v1 |= object(r); HX_CHECK(same(v1, w) && same(value(a) | r, w), "C16", "value | of " << n << " and " << b);
                HX_CHECK(same(a, ma) && same(r, mb), "C16 C13", "operands changed");
            }
            break; }
        case 4: {        // strings: every byte counts
            std::string t(n, 'a'); for (size_t i = 0; i < n; i++) t[i] = (char)('!' + i % 90); Val m; m.t = Val::Str; m.s = t; const value v1(t); value v2(v1);
            hx::phase("C13"); HX_CHECK(same(v1, m) && same(v2, m) && v1.as_string_view() == t && (std::string)v1 == t, "C13 C21", "a string of " << n);
            hx::phase("C14"); HX_CHECK(v1 == v2 && !(v1 != v2), "C14", "a string of " << n << " differs from its copy");
            for (size_t i = 0; i < n && n <= 300; i++) { std::string u = t; u[i] ^= 1; HX_CHECK(v1 != value(u) && !(value(u) == v1), "C14", "strings of " << n << " that differ at " << i << " are equal"); }
            HX_CHECK(v1 != value(t + "x") && v1 != value(t + std::string(1, '\0')), "C14", "a longer string is equal"); Val num; num.t = Val::Num; for (size_t i = 0; i <= n; i++) num.s.push_back((char)('1' + i % 9)); value n1 = build(num); num.s.back() ^= 2; HX_CHECK(n1 != build(num) && n1 != value(n1.to_string()), "C14", "different numbers are equal");
            hx::phase("C12 C16"); object o; o.emplace(t, 1); o.emplace(t + "y", 2); o[t + "z"] = 3; { std::string u = t; u.back() ^= 1; o.emplace(u, 4); HX_CHECK(o.size() == 4 && o.at(u) == value(4) && o.find_value(u) == &o.at(u), "C12 C16", "a key of " << n); }
            HX_CHECK(o.at(t) == value(1) && o.at(t + "y") == value(2) && o.contains(t + "z") && !o.contains(t.substr(0, n - 1)) && !o.contains(t + "w") && !o.find_value(t + std::string(1, '\0')), "C12", "keys of " << n << " bytes with a common prefix"); HX_CHECK(o.erase(t + "y") && o.size() == 3 && o.contains(t) && o.erase(t) && o.size() == 2, "C16", "erase of a key of " << n); break; }
        default: {       // depth
            Val w = model::filler(1); value y = build(w); for (size_t i = 0; i < n; i++) { Val u; u.t = i % 2 ? Val::Arr : Val::Obj; if (i % 2) u.a.push_back(std::move(w)); else u.o.emplace_back("k", std::move(w)); w = std::move(u); if (i % 2) y = value(array { y }); else y = value(object { { "k", y } }); }
            hx::phase("C13 C15 C16"); HX_CHECK(same(y, w), "C13 C15 C16", "nesting of " << n); value z(y); value q; q = z; HX_CHECK(same(z, w) && same(q, w), "C13", "copy at depth " << n); hx::phase("C14"); HX_CHECK(z == y && !(z != y), "C14", "depth " << n);
            value* p = &z; for (size_t i = n; i-- > 0;) p = i % 2 ? &p->as_array()[0] : &p->as_object()["k"]; *p = build(changed); HX_CHECK(same(y, w), "C13", "changing a copy at depth " << n << " changes the original"); HX_CHECK(z != y && y != z, "C14", "values that differ at depth " << n << " are equal"); break; }
        }
    }
    void run(const std::string& d) override
    {
        if (d.size() == 7 && d.compare(0, 2, "\xff\xfe") == 0) { big((unsigned char)d[2] % 6, 1 + (unsigned char)d[3] * 256u + (unsigned char)d[4], 1 + (unsigned char)d[5] * 256u + (unsigned char)d[6]); return; }
        hx::Choices c(d);
        for (unsigned i = 0; i < N; i++) { m[i] = model::value(c, i ? 1 : 0); v[i] = model::build(m[i]); }
        trace = "construction"; check("C13 C15 C16", 0);
        for (unsigned n = 0; n < 40 && c.more() && !hx::failed; n++) op(c);
        if (hx::failed) { for (auto& x : v) x = value(); return; }
        lookup(v[0], m[0], c); if (d.size() % 4 == 0) wrong_kind(v[0], m[0]);
        equality(c);
        for (unsigned i = 0; i < N; i++) v[i] = value();
    }
    void fixed(const std::function<void(const std::string&)>& f, unsigned part, unsigned parts) override
    {
        unsigned turn = 0; auto large = [&](unsigned k, size_t n, size_t b) { if (turn++ % parts != part) return; n--; b--; std::string s("\xff\xfe"); s += (char)k; s += (char)(n / 256); s += (char)(n % 256); s += (char)(b / 256); s += (char)(b % 256); f(s); };
        for (size_t n = 1; n <= 70; n++) for (unsigned k : { 0, 1, 5 }) large(k, n, 1);
        for (size_t n = 1; n <= 300; n++) large(4, n, 1);
        for (size_t n : { 100, 127, 128, 129, 200, 255, 256, 257 }) for (unsigned k : { 0, 1, 5 }) large(k, n, 1);
        large(0, 700, 1); large(0, 5000, 1); large(1, 1100, 1); large(4, 1023, 1); large(4, 1025, 1); large(4, 4096, 1); large(4, 65536, 1);
        for (size_t n = 1; n <= 260; n += n < 40 ? 1 : n % 32 < 30 ? 13 : 3) { large(2, n, n); large(2, n, 1); large(2, 2, n); large(2, n, 41); large(3, n, n); large(3, n, 3); large(3, 3, n); }
        large(2, 2100, 1); large(2, 5, 2100); large(2, 1500, 1500); large(3, 600, 2); large(3, 2, 600); for (size_t n = 60; n <= 90; n++) large(2, n - 40, 40);
        // every operation on every kind, with every kind of source
        hx::Rng r(part + 77);
        for (unsigned k = 0; k < 26; k++) for (unsigned a = 0; a < 10; a++) for (unsigned b = 0; b < 10; b++) {
            if ((k * 100 + a * 10 + b) % parts != part) continue;
            {
                std::string s; s.push_back((char)a); for (int i = 0; i < 12; i++) s.push_back((char)r.below(24)); s[0] = (char)a;
                for (int o = 0; o < 8; o++) { s.push_back((char)r.below(3)); s.push_back((char)k); for (int i = 0; i < 10; i++) s.push_back((char)r.below(16)); }
                f(s);
            }
        }
    }
    std::string random(hx::Rng& r) override { std::string s; if (r.chance(1, 12)) { s.push_back((char)(5 + r.below(5))); s.push_back((char)(244 + r.below(12))); } unsigned n = 30 + (unsigned)r.below(r.chance(1, 5) ? 500 : 120); while (n--) s.push_back((char)(r.chance(1, 5) ? r.below(256) : r.below(30))); return s; }
};
}
int main(int argc, char** argv) { S s; return hx::main(argc, argv, s); }
