// Reference values (ref::Val): random ones from a choice string, the json::value that stands for one, structural comparison.
#pragma once
#include "hx.hpp"
#include "ref.hpp"
#include "json.hpp"

namespace model
{
using ref::Val;
inline std::string text(hx::Choices& c)
{
    static const char* const pool[] = { "", "a", "b", "key", "\"", "\\", "\n", "\x01", "\x1f", "\x7f", "\xC3\xA9", "\xF0\x9F\x98\x80", "a\"b\\c", "\t\r\b\f", "/", "\xff\x80", "null", "1", "abcdefghijklmnopqrstuvwxyz0123456789" };
    unsigned k = c.below(24);
    if (k < sizeof pool / sizeof *pool) return pool[k];
    if (k == 19) return std::string(1, '\0');
    static const char* const words[] = { "true", "false", "0", "-1", "1.5", "{}", "[]", "255", "4294967296", "aB", "Ab", " ", "invalid", "abcdefghijklmno", "abcdefghijklmnop" };
    if (k == 22) return words[c.below(sizeof words / sizeof *words)];
    std::string s; unsigned n = c.below(k == 20 ? 40 : 6); if (k == 20 && n > 36) n = 64 + 100 * (n - 37);
    for (unsigned i = 0; i < n; i++) s.push_back((char)(k == 21 ? c.byte() % 36 : c.byte()));
    return s;
}
inline std::string number(hx::Choices& c)
{
    static const char* const pool[] = { "0", "-0", "1", "-1", "42", "2147483647", "-2147483648", "2147483648", "9223372036854775807", "-9223372036854775808", "9223372036854775808", "18446744073709551615", "18446744073709551616",
        "1.5", "1e5", "-1E-3", "0.0", "123456789012345678901234567890", "255", "256", "-128", "-129", "127", "128", "65535", "65536", "32767", "32768", "-32768", "-32769", "4294967295", "4294967296" };
    unsigned k = c.below(40);
    if (k < sizeof pool / sizeof *pool) return pool[k];
    return std::to_string((long long)(int)(c.byte() | c.byte() << 8 | c.byte() << 16 | (unsigned)c.byte() << 24));
}
inline void sort_members(Val& v)
{
    std::stable_sort(v.o.begin(), v.o.end(), [](auto& a, auto& b) { return a.first < b.first; });
    v.o.erase(std::unique(v.o.begin(), v.o.end(), [](auto& a, auto& b) { return a.first == b.first; }), v.o.end());
}
// mostly a few elements, sometimes many
inline unsigned count(hx::Choices& c) { unsigned b = c.byte(); return b < 244 ? b % 5 : b < 252 ? 6 + 3 * (b - 244) : 34 << (b - 252) / 2; }
inline Val filler(unsigned i) { Val e; if (i % 7 == 3) { e.t = Val::Str; e.s = "s" + std::to_string(i); } else { e.t = Val::Num; e.s = std::to_string(i); } return e; }
inline Val value(hx::Choices& c, unsigned depth = 0, int want = -1)
{
    Val v; unsigned k = want >= 0 ? (unsigned)want : c.below(depth > 3 ? 5 : 10);
    switch (k) {
    case 0: v.t = Val::Null; break;
    case 1: v.t = Val::Bool; v.s = c.below(2) ? "true" : "false"; break;
    case 2: v.t = Val::Num; v.s = number(c); break;
    case 3: case 4: v.t = Val::Str; v.s = text(c); break;
    case 5: case 6: case 7: { v.t = Val::Arr; unsigned n = count(c); if (n >= 5) { for (unsigned i = 0; i < n; i++) v.a.push_back(filler(i)); break; } for (unsigned i = 0; i < n; i++) v.a.push_back(value(c, depth + 1)); break; }
    default: { v.t = Val::Obj; unsigned n = count(c); if (n >= 5) { for (unsigned i = 0; i < n; i++) v.o.emplace_back("k" + std::to_string(i), filler(i)); sort_members(v); break; } for (unsigned i = 0; i < n; i++) { std::string key = text(c); v.o.emplace_back(key, value(c, depth + 1)); } sort_members(v); break; }
    }
    return v;
}
inline json::value number_value(const std::string& lit)
{
    if (lit.size() < 6 && lit.find_first_not_of("0123456789") == std::string::npos && (lit[0] != '0' || lit.size() == 1)) return json::value(std::atoi(lit.c_str()));
    if (lit == "255") return json::value((unsigned char)255);
    if (lit == "18446744073709551615") return json::value((unsigned long long)-1);
    auto d = json::parse("[" + lit + "]");
    if (!d || !d->is_array() || d->as_array().size() != 1) return json::invalid_value();
    const json::array& a = std::as_const(*d).as_array();
    return a.at(0);
}
inline json::value build(const Val& v);
inline json::array build_array(const Val& v) { json::array a; for (auto& e : v.a) a.emplace_back(build(e)); return a; }
inline json::object build_object(const Val& v) { json::object o; for (auto& [k, e] : v.o) o.emplace(k, build(e)); return o; }
inline json::value build(const Val& v)
{
    switch (v.t) {
    case Val::Null: return json::value();
    case Val::Bool: return json::value(v.s == "true");
    case Val::Num: return number_value(v.s);
    case Val::Str: return json::value(v.s);
    case Val::Arr: return json::value(build_array(v));
    default: return json::value(build_object(v));
    }
}
// v is what m says, seen through the const interface
inline bool same(const json::value& v, const Val& m)
{
    switch (m.t) {
    case Val::Null: return v.is_null() && v.type() == json::value::value_type::null;
    case Val::Bool: return v.is_boolean() && v.as_boolean() == (m.s == "true");
    case Val::Num: return v.is_number() && v.to_string() == m.s;
    case Val::Str: return v.is_string() && v.as_string() == m.s;
    case Val::Arr: {
        if (!v.is_array()) return false;
        const json::array& a = v.as_array(); size_t i = 0;
        if (a.size() != m.a.size() || a.empty() != m.a.empty()) return false;
        for (const json::value& e : a) if (!same(e, m.a[i++])) return false;
        return true;
    }
    default: {
        if (!v.is_object()) return false;
        const json::object& o = v.as_object(); size_t i = 0;
        if (o.size() != m.o.size() || o.empty() != m.o.empty()) return false;
        for (const auto& [k, e] : o) { if (k != m.o[i].first || !same(e, m.o[i].second)) return false; i++; }
        return true;
    }
    }
}
inline bool same(const json::array& a, const Val& m) { return m.t == Val::Arr && a.size() == m.a.size() && same(json::value(a), m); }
inline bool same(const json::object& o, const Val& m) { return m.t == Val::Obj && o.size() == m.o.size() && same(json::value(o), m); }
} // namespace model
