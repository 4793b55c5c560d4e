// iteration over arrays and objects in every direction, and construction from braced lists
#include "json.hpp"
#include "hx.hpp"
#include <algorithm>
#include <iterator>
static const char* TAGS = "C23";
using json::value; using json::array; using json::object;
static value mk(unsigned char c)
{
    switch (c % 8) {
    case 0: return value();
    case 1: return value((c & 8) != 0);
    case 2: return value(std::string(c / 16, 'x') + "\"");
    case 3: return c & 16 ? value(array()) : value(array { value((int)c), value("n") });
    case 4: return c & 16 ? value(object()) : value(object { { "m", value((int)c) } });
    default: return value((int)c - 128);
    }
}
static std::string txt(const std::vector<value>& v) { std::string s; for (const auto& x : v) s += x.to_string() + ";"; return s; }
static bool same(const std::vector<value>& x, const std::vector<value>& y)
{
    if (x.size() != y.size()) return false;
    for (size_t i = 0; i < x.size(); i++) if (!(x[i].type() == y[i].type() && x[i].to_string() == y[i].to_string())) return false;
    return true;
}
template <class F> static std::vector<value> walk(F&& f) { std::vector<value> r; f([&](const value& v) { r.push_back(v); if (r.size() > 100000) throw std::runtime_error("endless"); }); return r; }
static void arrays(const std::vector<value>& m)
{
    array a; for (const auto& v : m) a.emplace_back(v);
    const array& c = a;
    std::vector<value> rm(m.rbegin(), m.rend());
    const std::string what = "[" + txt(m).substr(0, 300) + "]";
#define ORDER(name, want, stmt) { const auto g = walk([&](auto&& out) { stmt; }); HX_CHECK(same(g, want), TAGS, name " over array " << what << " visits " << txt(g).substr(0, 300)); }
    ORDER("range-for", m, for (auto& v : a) out(v)) ORDER("const range-for", m, for (const auto& v : c) out(v))
    ORDER("begin/end", m, for (auto i = a.begin(); i != a.end(); ++i) out(*i)) ORDER("cbegin/cend", m, for (auto i = c.cbegin(); i != c.cend(); i++) out(*i))
    ORDER("const begin/end", m, for (auto i = c.begin(); i != c.end(); ++i) out(*i))
    ORDER("rbegin/rend", rm, for (auto i = a.rbegin(); i != a.rend(); ++i) out(*i)) ORDER("const rbegin/rend", rm, for (auto i = c.rbegin(); i != c.rend(); ++i) out(*i))
    ORDER("crbegin/crend", rm, for (auto i = c.crbegin(); i != c.crend(); ++i) out(*i)) ORDER("index", m, for (size_t i = 0; i < c.size(); i++) out(c[i]))
    ORDER("backwards from end", rm, for (auto i = a.end(); i != a.begin();) out(*--i))
    HX_CHECK((size_t)std::distance(c.begin(), c.end()) == m.size() && c.cend() - c.cbegin() == (std::ptrdiff_t)m.size() && (size_t)std::distance(c.rbegin(), c.rend()) == m.size(), TAGS, "distance over array " << what);
    for (size_t k = 0; k < m.size(); k += m.size() < 300 ? 1 : m.size() / 4) {
        array b(a); std::vector<value> w(m);
        *(b.begin() + (std::ptrdiff_t)k) = value("new"); w[k] = value("new");
        { const auto g = walk([&](auto&& out) { for (const auto& v : b) out(v); }); HX_CHECK(same(g, w), TAGS, "element " << k << " of " << what << " changed through an iterator gives " << txt(g)); }
        *(b.rbegin() + (std::ptrdiff_t)k) = value(7); w[m.size() - 1 - k] = value(7);
        { const auto g = walk([&](auto&& out) { for (const auto& v : b) out(v); }); HX_CHECK(same(g, w), TAGS, "element " << k << " from the end of " << what << " changed through a reverse iterator gives " << txt(g)); }
    }
    { const auto g = walk([&](auto&& out) { for (const auto& v : a) out(v); }); HX_CHECK(same(g, m), TAGS, "changing a copy of " << what << " through iterators changes the original to " << txt(g)); }
    { array b(a); for (auto& v : b) v = value(1); const auto g = walk([&](auto&& out) { for (const auto& v : b) out(v); }); HX_CHECK(same(g, std::vector<value>(m.size(), value(1))), TAGS, "filling " << what << " gives " << txt(g)); }
    auto listed = [&](const array& b, size_t n) { const auto g = walk([&](auto&& out) { for (const auto& v : b) out(v); }); HX_CHECK(same(g, std::vector<value>(m.begin(), m.begin() + (std::ptrdiff_t)n)), TAGS, "a list of " << n << " of " << what << " gives " << txt(g)); };
    listed(array {}, 0);
    if (m.size() >= 1) listed(array { m[0] }, 1);
    if (m.size() >= 2) listed(array { m[0], m[1] }, 2);
    if (m.size() >= 3) listed(array { m[0], m[1], m[2] }, 3);
    if (m.size() >= 5) listed(array { m[0], m[1], m[2], m[3], m[4] }, 5);
}
struct Less { bool operator()(const std::string& x, const std::string& y) const { return std::lexicographical_compare(x.begin(), x.end(), y.begin(), y.end(), [](char p, char q) { return (unsigned char)p < (unsigned char)q; }); } };
using Model = std::map<std::string, value, Less>;
static std::string txt(const std::vector<std::pair<std::string, value>>& v) { std::string s; for (const auto& [k, x] : v) s += ("\"" + k + "\"") + ":" + x.to_string() + ";"; return s; }
static void members(const object& o, const Model& m, const std::string& what)
{
    auto check = [&](const char* name, const std::vector<std::pair<std::string, value>>& g) {
        bool ok = g.size() == m.size(); size_t i = 0;
        if (ok) for (const auto& [k, v] : m) { ok = ok && g[i].first == k && g[i].second.type() == v.type() && g[i].second.to_string() == v.to_string(); i++; }
        HX_CHECK(ok, TAGS, name << " over " << what << " visits " << txt(g).substr(0, 300));
    };
    std::vector<std::pair<std::string, value>> g;
    for (const auto& [k, v] : o) g.emplace_back(k, v);
    check("range-for", g); g.clear();
    for (auto i = o.cbegin(); i != o.cend(); ++i) g.emplace_back(i->first, i->second);
    check("cbegin/cend", g); g.clear();
    object p(o); for (auto i = p.begin(); i != p.end(); i++) g.emplace_back(i->first, i->second);
    check("begin/end", g); g.clear();
    for (auto i = p.end(); i != p.begin();) { --i; g.emplace(g.begin(), i->first, i->second); }
    check("backwards from end", g); g.clear();
    HX_CHECK((size_t)std::distance(o.begin(), o.end()) == m.size() && o.size() == m.size() && o.empty() == m.empty(), TAGS, "number of members of " << what);
    Model w(m); size_t n = 0;
    for (auto& [k, v] : p) { if (n++ % 2) { v = value("new"); w[k] = value("new"); } }
    object q; q = p;
    for (const auto& [k, v] : q) g.emplace_back(k, v);
    { bool ok = g.size() == w.size(); size_t i = 0; if (ok) for (const auto& [k, v] : w) { ok = ok && g[i].first == k && g[i].second.to_string() == v.to_string(); i++; } HX_CHECK(ok, TAGS, "every other member of " << what << " changed gives " << txt(g)); }
}
static void objects(const std::vector<std::pair<std::string, value>>& l)
{
    auto model = [&](size_t n) { Model m; for (size_t i = 0; i < n; i++) m.emplace(l[i].first, l[i].second); return m; };
    const std::string what = "{" + txt(l) + "}";
    object o; for (const auto& [k, v] : l) if (!o.contains(k)) o.emplace(k, v);
    members(o, model(l.size()), what);
#define P(i) { l[i].first, l[i].second }
    members(object {}, model(0), what + " (list of 0)");
    if (l.size() >= 1) { members(object { P(0) }, model(1), what + " (list of 1)"); members(value(std::initializer_list<object::value_type> { P(0) }).as_object(), model(1), what + " (value of 1)"); }
    if (l.size() >= 2) { members(object { P(0), P(1) }, model(2), what + " (list of 2)"); members(value { P(0), P(1) }.as_object(), model(2), what + " (value of 2)"); }
    if (l.size() >= 3) { members(object { P(0), P(1), P(2) }, model(3), what + " (list of 3)"); members(value { P(0), P(1), P(2) }.as_object(), model(3), what + " (value of 3)"); }
    if (l.size() >= 4) members(object { P(0), P(1), P(2), P(3) }, model(4), what + " (list of 4)");
}
struct H : hx::Harness
{
    const char* tags() override { return TAGS; }
    void run(const std::string& d) override
    {
        if (d.empty()) return;
        if (d[0] & 1) { std::vector<value> m; if (d[0] & 2) { size_t n = 0; for (size_t i = 1; i < d.size() && i < 4; i++) n = n * 256 + (unsigned char)d[i]; for (size_t i = 0; i < n && i < 200000; i++) m.push_back(value((int)i)); } else for (size_t i = 1; i < d.size(); i++) m.push_back(mk((unsigned char)d[i])); arrays(m); return; }
        std::vector<std::pair<std::string, value>> l;
        for (size_t i = 1; i + 3 < d.size(); i += 4) l.emplace_back(d.substr(i + 1, (unsigned char)d[i] % 3), mk((unsigned char)d[i + 3]));
        objects(l);
    }
    void fixed(const std::function<void(const std::string&)>& f, unsigned part, unsigned parts) override
    {
        unsigned n = 0; auto go = [&](const std::string& s) { if (n++ % parts == part) f(s); };
        for (unsigned k = 0; k < 256; k++) { std::string s(1, 1); for (unsigned i = 0; i < k; i++) s += (char)(i * 7 + k); go(s); }
        for (const char* b : { "\3\0\1\0", "\3\0\3\xe9", "\3\0\x10\1", "\3\1\0\2" }) go(std::string(b, 4));
        for (unsigned x = 0; x < 256; x++) for (unsigned y : { 0u, 1u, 65u, 127u, 128u, 200u, 255u }) {
            const char b[] = { 0, 1, (char)x, 0, 5, 1, (char)y, 0, 6, 2, (char)x, (char)y, 7, 1, (char)x, 0, 13 }; go(std::string(b, sizeof b));
        }
    }
    std::string random(hx::Rng& r) override
    {
        std::string s(1, (char)r.below(2)); const size_t n = r.below(r.chance(1, 10) ? 120 : 24);
        for (size_t i = 0; i < n; i++) s += (char)(r.chance(1, 3) ? r.below(4) : r.below(256));
        return s;
    }
};
int main(int argc, char** argv) { H h; return hx::main(argc, argv, h); }
