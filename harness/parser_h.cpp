// Concrete oracle for the parser: the real parser against ref.hpp, for every text, mode, input type and acceleration trait.
#include "gen.hpp"
#include "ref.hpp"
#include "json.hpp"
#include <memory>
#ifndef HX_PUBLIC_ONLY
using namespace json::_packed_bytes;
#endif

static bool same(const json::value& v, const ref::Val& r, std::string& why, bool& in_string)
{
    using T = ref::Val;
    switch (r.t) {
    case T::Null: if (v.is_null() && v.type() == json::value::value_type::null) return true; break;
    case T::Bool: if (v.is_boolean() && v.as_boolean() == (r.s == "true")) return true; break;
    case T::Num: if (v.is_number() && v.to_string() == r.s) return true; break;
    case T::Str:
        if (v.is_string()) { if (v.as_string() == r.s) return true; in_string = true; why = "string decoded as \"" + v.as_string() + "\", expected \"" + r.s + "\""; return false; }
        break;
    case T::Arr:
        if (v.is_array()) {
            const auto& a = v.as_array();
            if (a.size() != r.a.size()) break;
            for (size_t i = 0; i < a.size(); i++) if (!same(a[i], r.a[i], why, in_string)) return false;
            return true;
        }
        break;
    case T::Obj:
        if (v.is_object()) {
            const auto& o = v.as_object();
            if (o.size() != r.o.size()) break;
            size_t i = 0;
            for (const auto& [k, e] : o) {
                if (k != r.o[i].first) { in_string = true; why = "member name \"" + k + "\", expected \"" + r.o[i].first + "\""; return false; }
                if (!same(e, r.o[i].second, why, in_string)) return false;
                i++;
            }
            return true;
        }
        break;
    }
    why = "parsed as " + v.to_string() + ", expected " + ref::show(r);
    return false;
}
using Opt = std::optional<json::value>;
template <typename F> Opt exact(const std::string& s, F f)
{
    // exactly as large as the text, so that reading past its end is seen
    std::unique_ptr<char[]> p(new char[s.size() ? s.size() : 1]);
    std::memcpy(p.get(), s.data(), s.size());
    return f(std::string_view(p.get(), s.size()));
}
struct Var { const char* name; Opt (*f)(const std::string&); };
#ifndef HX_PUBLIC_ONLY
template <bool jc, typename T> Opt as_string(const std::string& s) { return json::parser<jc, std::string, T>::parse(s); }
template <bool jc, typename T> Opt as_view(const std::string& s) { return exact(s, [](std::string_view v) { return json::parser<jc, std::string_view, T>::parse(v); }); }
#define V(jc, T) { #T " string", as_string<jc, T> }, { #T " string_view", as_view<jc, T> }
static const Var strict[] = { V(false, packed_bytes_trait_none), V(false, packed_bytes_trait_uint32), V(false, packed_bytes_trait_uint64), V(false, packed_bytes_trait_max) };
static const Var jsonc[] = { V(true, packed_bytes_trait_none), V(true, packed_bytes_trait_uint32), V(true, packed_bytes_trait_uint64), V(true, packed_bytes_trait_max) };
#else
// used when the internal names have changed: the public entry points only
static Opt s1(const std::string& s) { return json::parse(s); }
static Opt s2(const std::string& s) { return exact(s, [](std::string_view v) { return json::parse(v); }); }
static Opt c1(const std::string& s) { return json::parsec(s); }
static Opt c2(const std::string& s) { return exact(s, [](std::string_view v) { return json::parsec(v); }); }
static const Var strict[] = { { "string", s1 }, { "string_view", s2 } };
static const Var jsonc[] = { { "string", c1 }, { "string_view", c2 } };
#endif
static constexpr int NV = sizeof strict / sizeof *strict;

struct P : hx::Harness
{
    const char* tags() override { return "C05"; }
    // the text is [" ... "] with one string literal: the decoding of string literals is what is judged
    static bool only_literal(const std::string& s)
    {
        if (s.size() < 4 || s.compare(0, 2, "[\"") != 0 || s.compare(s.size() - 2, 2, "\"]") != 0) return false;
        for (size_t i = 2; i + 2 < s.size(); i++) { if (s[i] == '\\') i++; else if (s[i] == '"') return false; }
        return true;
    }
    void one(const std::string& s, bool jc, const Var* vs, const std::string& tags)
    {
        ref::Val rv; const bool ok = ref::read(s, jc, rv);
        Opt first; const std::string mode = jc ? "JSONC" : "strict JSON";
        for (int i = 0; i < NV; i++) {
            Opt r;
            try { r = vs[i].f(s); }
            catch (const std::exception& e) { hx::fail("C05 " + tags, std::string("parsing throws: ") + e.what()); return; }
            if (r.has_value() != ok) {
                std::string t = tags; if (only_literal(s)) t += " C03";
                if (i && r.has_value() != first.has_value()) t += " C06";
                hx::fail(t, mode + " text is " + (ok ? "rejected" : "accepted") + " (" + vs[i].name + ")");
            }
            else if (ok) {
                std::string why; bool str = false;
                if (!same(*r, rv, why, str)) {
                    std::string t = jc ? "C04" : str ? "C02 C03" : "C02";
                    if (jc && only_literal(s)) t += " C03";
                    if (i && first && !(*r == *first && r->to_string() == first->to_string())) t += " C06";
                    hx::fail(t, mode + ": " + why + " (" + vs[i].name + ")");
                }
            }
            if (i == 0) first = std::move(r);
        }
    }
    void run(const std::string& s) override
    {
        one(s, false, strict, "C01");
        one(s, true, jsonc, "C04");
        Opt a = json::parse(s);
        if (a) { Opt b = json::parsec(s); HX_CHECK(b && *b == *a, "C04", "a strict text reads differently as JSONC"); }
    }
    void fixed(const std::function<void(const std::string&)>& f, unsigned part, unsigned parts) override
    {
        gen::big(f, part, parts);
        gen::all("[]{},:\"0-/*\n a", 4, "", "", f, part, parts);
        gen::all("[]{},:\"1/* \n", 3, "[", "]", f, part, parts);
        gen::all("01-+.eE ", 5, "[", "]", f, part, parts);
        gen::all("/*\n ],1", 5, "[1", "]", f, part, parts);
        gen::all("/*\n x", 5, "[1]", "", f, part, parts);
        gen::all("/*\n ", 4, "", "[]", f, part, parts);
        gen::all("\"\\ua0D8", 4, "[\"", "\"]", f, part, parts);
        gen::all(",}\"a:1 /", 4, "{\"a\":1", "}", f, part, parts);
        if (part == 0) {
            for (int b = 0; b < 256; b++) {
                std::string c(1, (char)b);
                for (const char* p : { "[", "[1", "[\"a", "[\"\\", "{\"a", "{\"a\"", "{\"a\":", "[1,", "[]", "", "[tru", "[\"\\u00", "[\"\\u", "[/", "[-", "[1.", "[1e", "[0" })
                    for (const char* q : { "]", "\"]", "", "\":1}", "}", "1]", "e]", "0\"]", "00\"]", "/]", "*/]" }) f(p + c + q);
            }
            // every byte at every place around the sizes of the packed types
            for (unsigned n : { 3u, 4u, 5u, 7u, 8u, 9u, 15u, 16u, 17u, 31u, 32u, 33u, 40u })
                for (unsigned at = 0; at < n; at++)
                    for (int b : { 0, 1, 9, 10, 31, 32, 33, 34, 35, 47, 91, 92, 93, 127, 128, 159, 160, 162, 220, 255 }) {
                        std::string x(n, 'a'); x[at] = (char)b;
                        f("[\"" + x + "\"]"); f("{\"" + x + "\":0}"); f("[\"\\n" + x + "\"]"); f("[\"" + x);
                        std::string e(n, 'a'); e.replace(at, 1, "\\u00e9"); f("[\"" + e + "\"]");
                    }
        }
        // escapes: every single unit in a few spellings, and pairs around the surrogate borders
        for (unsigned u = part; u < 0x10000; u += parts) {
            char b[32]; std::snprintf(b, sizeof b, u & 1 ? "[\"\\u%04x\"]" : "[\"\\u%04X\"]", u); f(b);
        }
        static const unsigned e[] = { 0x0000, 0x0041, 0x007F, 0x0080, 0x07FF, 0x0800, 0xD7FF, 0xD800, 0xD801, 0xD83D, 0xDBFE, 0xDBFF, 0xDC00, 0xDC01, 0xDE00, 0xDFFE, 0xDFFF, 0xE000, 0xFFFF };
        unsigned k = 0;
        for (unsigned x : e) for (unsigned y : e) for (const char* mid : { "", "a", "\\n", "\"", " ", "\\" }) {
            if (k++ % parts != part) continue;
            char b[64]; std::snprintf(b, sizeof b, "[\"\\u%04x%s\\u%04X\"]", x, mid, y); f(b);
            for (unsigned z : { 0xD800u, 0xDC00u, 0x41u }) { char c[64]; std::snprintf(c, sizeof c, "[\"\\u%04x%s\\u%04X\\u%04x\"]", x, mid, y, z); f(c); }
        }
    }
    std::string random(hx::Rng& r) override
    {
        if (r.chance(1, 6)) return "[\"" + gen::body(r, false) + "\"]";
        if (r.chance(1, 40)) {            // long and deep, within the limits of the stack
            std::string s; unsigned n = (unsigned)r.below(60);
            for (unsigned i = 0; i < n; i++) s += r.chance(1, 2) ? "[" : "{\"a\":";
            std::string t = s + (r.chance(1, 2) ? "1" : "\"" + gen::body(r, true) + "\"");
            for (size_t i = s.size(); i-- > 0;) { if (s[i] == '[') t += "]"; if (s[i] == '{') t += "}"; }
            return r.chance(1, 3) ? gen::mutate(t, r) : t;
        }
        std::string s = gen::doc(r, r.chance(1, 2), r.chance(2, 3));
        return r.chance(1, 3) ? gen::mutate(s, r) : s;
    }
};
int main(int argc, char** argv) { P p; return hx::main(argc, argv, p); }
