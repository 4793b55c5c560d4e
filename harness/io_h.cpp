// C20: every way of handing a text over, against the reference reader; files and streams live in a scratch directory of the run.
#include "gen.hpp"
#include "ref.hpp"
#include "json.hpp"
#include <array>
#include <filesystem>
#include <memory>
#include <sys/stat.h>

using Opt = std::optional<json::value>;
static bool same(const json::value& v, const ref::Val& r)
{
    using T = ref::Val;
    switch (r.t) {
    case T::Null: return v.is_null();
    case T::Bool: return v.is_boolean() && v.as_boolean() == (r.s == "true");
    case T::Num: return v.is_number() && v.to_string() == r.s;
    case T::Str: return v.is_string() && v.as_string() == r.s;
    case T::Arr: {
        if (!v.is_array() || v.as_array().size() != r.a.size()) return false;
        for (size_t i = 0; i < r.a.size(); i++) if (!same(v.as_array()[i], r.a[i])) return false;
        return true;
    }
    case T::Obj: {
        if (!v.is_object() || v.as_object().size() != r.o.size()) return false;
        size_t i = 0;
        for (const auto& [k, e] : v.as_object()) { if (k != r.o[i].first || !same(e, r.o[i].second)) return false; i++; }
        return true;
    }
    }
    return false;
}
struct Pipe : std::streambuf      // readable but not seekable
{
    std::string d;
    explicit Pipe(std::string x) : d(std::move(x)) { setg(d.data(), d.data(), d.data() + d.size()); }
};
static const char BOM[] = "\xEF\xBB\xBF";
struct H : hx::Harness
{
    std::string dir; bool first = true;
    const char* tags() override { return "C20"; }
    ~H() {}
    // the text the way w hands it over must read as the reference reads it
    void expect(const char* way, const std::string& text, bool jc, const Opt& r)
    {
        ref::Val rv; const bool ok = ref::read(text, jc, rv);
        if (ok != r.has_value()) HX_CHECK(false, "C20", way << (jc ? " (JSONC)" : "") << ": the text is " << (ok ? "rejected" : "accepted") << ": " << hx::printable(text));
        else if (ok) HX_CHECK(same(*r, rv), "C20", way << (jc ? " (JSONC)" : "") << ": parsed as " << r->to_string() << ", expected " << ref::show(rv));
    }
    template <class F> void way(const char* name, const std::string& text, bool jc, F f)
    {
        try { expect(name, text, jc, f()); }
        catch (const std::exception& e) { HX_CHECK(false, "C20", name << " throws: " << e.what()); }
    }
    template <size_t N> void arr(const std::string& t)
    {
        if (t.size() != N) return;
        std::array<char, N> a; for (size_t i = 0; i < N; i++) a[i] = t[i];
        way("parse(std::array<char, N>)", t, false, [&] { return json::parse(a); });
        way("parsec(std::array<char, N>)", t, true, [&] { return json::parsec(a); });
    }
    static std::string skip(const std::string& t) { return t.compare(0, 3, BOM) == 0 ? t.substr(3) : t; }
    void run(const std::string& c) override
    {
        if (c.empty()) return;
        const unsigned o = (unsigned char)c[0]; const std::string t = c.substr(1);
        if (dir.empty()) { dir = hx::out + "/io_" + std::to_string(getpid()); ::mkdir(dir.c_str(), 0700); }
        // memory
        way("parse(std::string)", t, false, [&] { return json::parse(t); });
        way("parsec(std::string)", t, true, [&] { return json::parsec(t); });
        std::unique_ptr<char[]> p(new char[t.size() + 1]); std::memcpy(p.get(), t.data(), t.size()); p[t.size()] = 0;
        {
            std::unique_ptr<char[]> q(new char[t.size() ? t.size() : 1]); std::memcpy(q.get(), t.data(), t.size());
            std::string_view v(q.get(), t.size());
            way("parse(std::string_view)", t, false, [&] { return json::parse(v); });
            way("parsec(std::string_view)", t, true, [&] { return json::parsec(v); });
        }
        const std::string z(p.get());          // up to the first NUL
        way("parse(const char*)", z, false, [&] { return json::parse((const char*)p.get()); });
        way("parsec(const char*)", z, true, [&] { return json::parsec((const char*)p.get()); });
        { std::vector<char> v(t.begin(), t.end()); way("parse(std::vector<char>)", t, false, [&] { return json::parse(v); }); way("parsec(std::vector<char>)", t, true, [&] { return json::parsec(v); }); }
        { std::vector<unsigned char> v(t.begin(), t.end()); way("parse(std::vector<unsigned char>)", t, false, [&] { return json::parse(v); }); }
        arr<2>(t); arr<9>(t); arr<17>(t);
        // literals
        lit(t);
        // streams
        const bool bom = o & 1, jc = o & 2;
        const std::string eff = bom ? skip(t) : t;
        {
            std::istringstream is(t);
            if (o & 4) { char b[8]; is.read(b, (std::streamsize)(o >> 5)); is.clear(); }    // not at its beginning
            if (o & 8) is.setstate(std::ios::eofbit);                                       // at its end: seekg clears that
            way(bom ? "parse(istringstream, check_bom)" : "parse(istringstream)", eff, jc, [&] { return json::parse(is, bom, jc); });
        }
        if (t.size() < 300 && (o & 16)) {
            std::stringstream ss; ss << t;
            way("parse(stringstream)", eff, jc, [&] { return json::parse(ss, bom, jc); });
            if (!bom && !jc) { std::istringstream ds(t); std::istream& d = ds; way("parse(istream) with default arguments", t, false, [&] { return json::parse(d); }); }
            for (int k = 0; k < 3; k++) {
                Pipe pb(t); std::istream bad(k == 0 ? (std::streambuf*)&pb : nullptr); std::istringstream fl(t); std::istream* is = &bad;
                if (k == 2) { fl.setstate(std::ios::failbit); is = &fl; }
                try { HX_CHECK(!json::parse(*is, bom, jc), "C20", "a stream that cannot be read gives a value"); }
                catch (const std::exception& e) { HX_CHECK(false, "C20", "a stream that cannot be read throws: " << e.what()); }
            }
        }
        // files
        if (o & 32 || t.size() > 4000) {
            const std::string f = dir + "/f.json";
            { std::ofstream of(f, std::ios::binary | std::ios::trunc); of << t; }
            way("open(std::string)", eff, jc, [&] { return json::open(f, bom, jc); });
            if (o & 64) way("open(path)", eff, jc, [&] { return json::open(std::filesystem::path(f), bom, jc); });
            else way("open(const char*)", eff, jc, [&] { return json::open(f.c_str(), bom, jc); });
            if (!bom && !jc) way("open with default arguments", t, false, [&] { return json::open(f); });
            std::ifstream is(f, std::ios::binary); is.seekg((std::streamoff)(o >> 4)); is.clear();
            way("parse(ifstream)", eff, jc, [&] { return json::parse(is, bom, jc); });
            ::unlink(f.c_str());
            for (const std::string& bad : { f, dir, dir + "/no/such/file" })
                try { HX_CHECK(!json::open(bad, bom, jc), "C20", "open of " << (bad == dir ? "a directory" : "a missing file") << " gives a value"); }
                catch (const std::exception& e) { HX_CHECK(false, "C20", "open of " << (bad == dir ? "a directory" : "a missing file") << " throws: " << e.what()); }
        }
    }
    void lit(const std::string& t)
    {
        using namespace json::literals;
        ref::Val rv; const bool ok = ref::read(t, false, rv);
        try {
            for (int k = 0; k < 2; k++) {
                json::value v = k ? operator""_json(t.data(), t.size()) : operator""_jvalue(t.data(), t.size());
                HX_CHECK(ok ? same(v, rv) : v.is_null(), "C20", (k ? "_json" : "_jvalue") << " gives " << v.to_string() << " for " << hx::printable(t));
            }
            json::array a = operator""_jarray(t.data(), t.size());
            HX_CHECK(ok && rv.t == ref::Val::Arr ? same(json::value(a), rv) : a.empty(), "C20", "_jarray gives " << a.to_string() << " for " << hx::printable(t));
            json::object b = operator""_jobject(t.data(), t.size());
            HX_CHECK(ok && rv.t == ref::Val::Obj ? same(json::value(b), rv) : b.empty(), "C20", "_jobject gives " << b.to_string() << " for " << hx::printable(t));
        }
        catch (const std::exception& e) { HX_CHECK(false, "C20", "a literal throws: " << e.what()); }
    }
    static std::string big(size_t n, unsigned k)
    {
        std::string s = "["; unsigned i = 0;
        while (s.size() + 8 < n) s += std::to_string(i++ % 10) + (k & 1 ? ",\n" : ",");
        while (s.size() + 2 < n) s += " ";
        return s + "1]";
    }
    void fixed(const std::function<void(const std::string&)>& f, unsigned part, unsigned parts) override
    {
        static const std::string b(BOM, 3);
        std::vector<std::string> ts = { "", "[]", "{}", "[1]", "{\"a\":1}", " [1] ", "null", "1", "\"a\"", "[1", "{", "[1]x", "[1,]", "{\"a\":1,}", "/**/[1]", "[1]//x", "[1]/*", "// c\n{\"a\":[2]}",
            b, b + "[]", b + "[1]", b + b + "[]", b + " [1]", "[]" + b, " " + b + "[]", b + "x", b.substr(0, 1) + "[]", b.substr(0, 2) + "[]", b.substr(1) + "[]", b.substr(0, 2), b + "{\"a\":1}", "\xFF\xFE[]", "\xEF\xBB\xBE[]", "\xEE\xBB\xBF[]", "\xEF\xBA\xBF[]",
            "[\"" + b + "\"]", b + "[\"" + b + "\"]", std::string("[1]\0", 4), std::string("[1]\0x", 5), std::string("\0[1]", 4), std::string("[\0]", 3), std::string("[\"a\0b\"]", 7), b + std::string("[1]\0[", 5),
            "[1]\n", "[1]\r\n", "\r\n[1]", "[\"a\\nb\"]", "[\"a\rb\"]", "[\"\x1a\"]", "[1]\x1a", "{\"a\":\"\xff\"}" };
        for (size_t n : { 4093u, 4094u, 4095u, 4096u, 4097u, 4098u, 4099u, 8191u, 8192u, 8193u, 12289u, 65535u, 65536u, 65537u }) { ts.push_back(big(n, (unsigned)n)); ts.push_back(b + big(n, 1)); ts.push_back(big(n, 0) + "x"); ts.push_back(big(n - 1, 0) + " "); }
        unsigned k = 0;
        for (const auto& t : ts) for (unsigned o = 0; o < 128; o += t.size() > 300 ? t.size() > 9000 ? 31 : 13 : 1) if (k++ % parts == part) f(std::string(1, (char)o) + t);
    }
    std::string random(hx::Rng& r) override
    {
        std::string s = gen::doc(r, r.chance(1, 2), r.chance(2, 3));
        if (r.chance(1, 4)) s = gen::mutate(s, r);
        if (r.chance(1, 4)) s = BOM + s;
        if (r.chance(1, 30)) s = BOM + s;
        if (r.chance(1, 60)) { size_t p = s.find_first_of(" ,:"); if (p != std::string::npos) s.insert(p, r.below(9000), r.chance(1, 2) ? ' ' : '\n'); }
        if (r.chance(1, 20)) s.insert(r.below(s.size() + 1), 1, '\0');
        return std::string(1, (char)r.below(256)) + s;
    }
};
int main(int argc, char** argv) { H h; return hx::main(argc, argv, h); }
