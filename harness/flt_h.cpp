// floating point numbers: stored in a value, read back directly and through text; number texts read as floating point numbers
#ifdef HX_PLAIN
#undef MEOJSON_KEEP_FLOATING_PRECISION
#endif
#include "json.hpp"
#include "hx.hpp"
#include "ref.hpp"
#include <cerrno>
#include <cfloat>
#include <cmath>
static const char* TAGS = "C22";
template <class T> struct Tr;
template <> struct Tr<float> { static float st(const char* s, char** e) { return strtof(s, e); } static constexpr const char* n = "float"; static constexpr size_t sz = 4; static float as(const json::value& v) { return v.as_float(); } };
template <> struct Tr<double> { static double st(const char* s, char** e) { return strtod(s, e); } static constexpr const char* n = "double"; static constexpr size_t sz = 8; static double as(const json::value& v) { return v.as_double(); } };
template <> struct Tr<long double> { static long double st(const char* s, char** e) { return strtold(s, e); } static constexpr const char* n = "long double"; static constexpr size_t sz = 10; static long double as(const json::value& v) { return v.as_long_double(); } };
template <class T> static bool same(T a, T b) { return std::memcmp(&a, &b, Tr<T>::sz) == 0; }
template <class T> static std::string hex(T x) { char b[64]; std::snprintf(b, sizeof b, "%La", (long double)x); return b; }
// the number a text denotes in type T, or nothing when it is out of range
template <class T> static bool reads(const std::string& t, T& x)
{
    char* e; errno = 0; x = Tr<T>::st(t.c_str(), &e);
    return !t.empty() && e == t.c_str() + t.size() && !(errno == ERANGE && (x == 0 || std::isinf(x)));
}
static bool number(const std::string& t) { ref::Val v; return ref::read("[" + t + "]", false, v) && v.t == ref::Val::Arr && v.a.size() == 1 && v.a[0].t == ref::Val::Num; }
template <class T> static void look(const json::value& v, bool ok, T x, const std::string& what)
{
    const T d = (T)0.3L;
    HX_CHECK(v.is<T>() == ok, TAGS, "is<" << Tr<T>::n << "> is " << v.is<T>() << " for " << what);
    int k = 0;
    for (auto f : std::initializer_list<T (*)(const json::value&)>{ [](const json::value& w) { return Tr<T>::as(w); }, [](const json::value& w) { return w.as<T>(); }, [](const json::value& w) { return (T)w; },
             [](const json::value& w) { json::value u(w); return std::move(u).as<T>(); } }) {
        try { const T y = f(v); HX_CHECK(ok && same(x, y), TAGS, Tr<T>::n << " read (" << k << ") as " << hex(y) << " from " << what << " instead of " << (ok ? hex(x) : "an error")); }
        catch (const json::exception&) { HX_CHECK(!ok, TAGS, Tr<T>::n << " cannot be read (" << k << ") from " << what); }
        k++;
    }
    json::array a; a.emplace_back(v); json::object o; o.emplace("k", v);
    const auto fa = a.find<T>(0), fo = o.find<T>("k"), fn = a.find<T>(1), fv = json::value(o).find<T>("k");
    HX_CHECK(fa.has_value() == ok && fo.has_value() == ok && fv.has_value() == ok && !fn, TAGS, "find<" << Tr<T>::n << "> of " << what);
    if (ok && fa && fo) HX_CHECK(same(*fa, x) && same(*fo, x), TAGS, "find<" << Tr<T>::n << "> gives another number for " << what);
    HX_CHECK(same(a.get((size_t)0, d), ok ? x : d) && same(o.get("k", d), ok ? x : d) && same(json::value(o).get("k", d), ok ? x : d) && same(o.get("l", d), d), TAGS, "get of " << what << " as " << Tr<T>::n);
    HX_CHECK(a.all<T>() == ok && o.all<T>() == ok, TAGS, "all<" << Tr<T>::n << "> for " << what);
}
template <class T> static void number_case(const std::string& bits)
{
    T x = 0; std::memcpy(&x, bits.data(), std::min(bits.size(), Tr<T>::sz));
    if constexpr (Tr<T>::sz == 10) { uint64_t m; std::memcpy(&m, &x, 8); uint16_t e; std::memcpy(&e, (char*)&x + 8, 2); if ((e & 0x7fff) && !(m >> 63)) { m |= 1ull << 63; std::memcpy(&x, &m, 8); } if (!(e & 0x7fff) && (m >> 63)) { m &= ~(1ull << 63); std::memcpy(&x, &m, 8); } }
    if (!std::isfinite(x)) return;
    T want = x;
#ifdef HX_PLAIN
    { char b[6000]; std::snprintf(b, sizeof b, "%Lf", (long double)x); reads(std::string(b), want); }
#endif
    const std::string what = std::string(Tr<T>::n) + " " + hex(x);
    json::value v(x);
    const std::string t = v.to_string();
    HX_CHECK(v.is_number() && number(t), TAGS, what << " is written as " << t);
#ifdef HX_PLAIN
    T got; if (reads(t, got) && same(got, x)) want = x;
#endif
    look<T>(v, true, want, what + " written as " + t);
    for (int k = 0; k < 3; k++) {
        json::object o; o.emplace("k", x); json::array a; a.emplace_back(x); o.emplace("a", a);
        const auto r = k == 0 ? json::parse(o.to_string()) : k == 1 ? json::parsec(o.format()) : json::parse(o.format(2));
        HX_CHECK(r && r->at("k").is_number() && r->at("a").at(0).is_number(), TAGS, what << " does not come back from " << o.to_string());
        if (r) { look<T>(r->at("k"), true, want, what + " through text"); look<T>(r->at("a").at(0), true, want, what + " through text"); }
    }
    json::value w; w = x; HX_CHECK(same(w.as<T>(), want), TAGS, "assigned " << what);
    json::value p { { "k", x } }; HX_CHECK(same(p.at("k").as<T>(), want), TAGS, what << " in a braced list");
}
template <class T> static void text_case(const std::string& t)
{
    const auto r = json::parse("[" + t + ",\"" + t + "\",true,null]");
    if (!r) { HX_CHECK(false, TAGS, "the number " << t << " is refused"); return; }
    T x; const bool ok = reads<T>(t, x);
    look<T>(r->at(0), ok, x, "the text " + t);
    for (size_t i = 1; i < 4; i++) look<T>(r->at(i), false, x, "no number (kind " + std::to_string(i) + ")");
}
struct H : hx::Harness
{
    const char* tags() override { return TAGS; }
    void run(const std::string& d) override
    {
        if (d.empty()) return;
        const unsigned k = (unsigned char)d[0] % 4; const std::string b = d.substr(1);
        if (k == 0) number_case<float>(b);
        if (k == 1) number_case<double>(b);
        if (k == 2) number_case<long double>(b);
        if (k == 3 && number(b)) { text_case<float>(b); text_case<double>(b); text_case<long double>(b); }
    }
    template <class T> static std::string num(unsigned k, T x) { return std::string(1, (char)k) + std::string((const char*)&x, Tr<T>::sz); }
    void fixed(const std::function<void(const std::string&)>& f, unsigned part, unsigned parts) override
    {
        unsigned n = 0; auto go = [&](const std::string& s) { if (n++ % parts == part) f(s); };
        for (long double x : { 0.0L, 0.1L, 0.5L, 1.0L, 1.0L / 3, 2.0L / 3, 1e22L, 1e23L, 9007199254740993.0L, 16777217.0L, 123456789.0L, 3.14159265358979323846264338327950288L, 1e-5L, 1e-4L, 1e15L, 1e16L, 1e17L, 999999.5L, 5e-7L, 1e6L, 1e7L, 1e20L, 1e21L, 18446744073709551615.0L, 4294967295.0L })
            for (int sg = 0; sg < 2; sg++) {
                const long double y = sg ? -x : x;
                go(num(0, (float)y)); go(num(1, (double)y)); go(num(2, y));
                go(num(0, std::nextafterf((float)y, 1e30f))); go(num(1, std::nextafter((double)y, 1e300))); go(num(2, std::nextafterl(y, 1e300L)));
            }
        for (int e = -149; e < 128; e++) { go(num(0, std::ldexp(1.0f, e))); go(num(0, std::ldexp(1.9999998807907104f, e))); }
        for (int e = -1074; e < 1024; e += 3) { go(num(1, std::ldexp(1.0, e))); go(num(1, std::ldexp(1.9999999999999998, e))); }
        for (int e = -16445; e < 16384; e += 61) { go(num(2, std::ldexp(1.0L, e))); go(num(2, std::ldexp(1.99999999999999999989L, e))); }
        go(num(0, FLT_MAX)); go(num(0, FLT_MIN)); go(num(0, FLT_TRUE_MIN)); go(num(0, FLT_EPSILON)); go(num(1, DBL_MAX)); go(num(1, DBL_MIN)); go(num(1, DBL_TRUE_MIN)); go(num(2, LDBL_MAX)); go(num(2, LDBL_MIN)); go(num(2, LDBL_TRUE_MIN));
        for (const char* t : { "0", "-0", "0.0", "-0.0", "1", "-1", "1.5", "1e0", "1E5", "1e+5", "1e-5", "3.4028235e38", "3.4028236e38", "3.5e38", "1e39", "-1e39", "1e-38", "1e-40", "1e-45", "7e-46", "1e-46", "1.7976931348623157e308", "1.7976931348623159e308", "1e309", "-1e309",
                 "2.2250738585072011e-308", "5e-324", "2e-324", "1e-400", "-1e-400", "1e4932", "1.2e4932", "1e5000", "-1e5000", "1e-4950", "1e-4951", "1e-5000", "0e999999", "0.1", "0.30000000000000004", "123456789012345678901234567890", "0.000000000000000000000000000000000000000000000000001", "16777217", "9007199254740993", "1.00000005960464477539062500000001" })
            go(std::string(1, 3) + t);
    }
    std::string random(hx::Rng& r) override
    {
        const unsigned k = (unsigned)r.below(4);
        std::string s(1, (char)k);
        if (k < 3) {
            uint64_t a = r.next(), b = r.next();
            if (r.chance(1, 4)) { const long double x = (long double)(int64_t)(a >> r.below(64)) / (long double)std::pow(10.0L, (int)r.below(12)); return k == 0 ? num(0, (float)x) : k == 1 ? num(1, (double)x) : num(2, x); }
            s.append((const char*)&a, 8); s.append((const char*)&b, 2);
            if (k == 1 && r.chance(1, 8)) { s[8] &= (char)0x80; s[7] &= 0x0f; }       // subnormal
            if (k == 0 && r.chance(1, 8)) { s[4] &= (char)0x80; s[3] &= 0x7f; }
            return s;
        }
        if (r.chance(1, 2)) s += '-';
        auto digits = [&](unsigned n, bool lead) { for (unsigned i = 0; i < n; i++) s += (char)('0' + (lead && !i ? 1 + r.below(9) : r.below(10))); };
        if (r.chance(1, 4)) s += '0'; else digits(1 + (unsigned)r.below(r.chance(1, 5) ? 60 : 18), true);
        if (r.chance(2, 3)) { s += '.'; digits(1 + (unsigned)r.below(r.chance(1, 5) ? 60 : 20), false); }
        if (r.chance(1, 2)) { s += r.chance(1, 2) ? 'e' : 'E'; const unsigned g = (unsigned)r.below(3); if (g) s += g == 1 ? '+' : '-'; s += std::to_string(r.below(r.chance(1, 3) ? 5100 : 340)); }
        return s;
    }
};
int main(int argc, char** argv) { H h; return hx::main(argc, argv, h); }
