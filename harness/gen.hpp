// Random JSON / JSONC texts and byte mutations of them.
#pragma once
#include "hx.hpp"

namespace gen
{
using hx::Rng;
inline std::string hex4(unsigned u, Rng& r)
{
    char b[8]; std::snprintf(b, sizeof b, r.chance(1, 2) ? "%04x" : "%04X", u & 0xFFFF); return b;
}
inline unsigned unit(Rng& r)
{
    static const unsigned edge[] = { 0, 1, 0x1F, 0x20, 0x22, 0x5C, 0x7F, 0x80, 0x7FF, 0x800, 0xFFF, 0x1000, 0xD7FF, 0xD800, 0xDBFF, 0xDC00, 0xDFFF, 0xE000, 0xFFFF, 0xABCD, 0x20AC, 0xD83D, 0xDE00 };
    return r.chance(2, 3) ? edge[r.below(sizeof edge / sizeof *edge)] : (unsigned)r.below(0x10000);
}
// body of a string literal
inline std::string body(Rng& r, bool mostly_valid)
{
    std::string s;
    unsigned n = r.chance(1, 3) ? (unsigned)r.below(40) : (unsigned)r.below(6);
    if (r.chance(1, 12)) n = 14 + (unsigned)r.below(24);
    for (unsigned i = 0; i < n; i++) {
        switch (r.below(12)) {
        default: s.push_back((char)('a' + r.below(26))); break;
        case 0: s += "\\"; s.push_back("\"\\/bfnrt"[r.below(8)]); break;
        case 1: s += "\\u" + hex4(mostly_valid ? (unsigned)r.below(0xD800) : unit(r), r); break;
        case 2: s += "\\u" + hex4(0xD800 + (unsigned)r.below(0x400), r) + "\\u" + hex4(0xDC00 + (unsigned)r.below(0x400), r); break;
        case 3: { static const char* u[] = { "\xC3\xA9", "\xE4\xB8\xAD", "\xF0\x9F\x98\x80", "\x7F", "\xEF\xBF\xBF", "\xC2\x80" }; s += u[r.below(6)]; break; }
        case 4: s.append(r.below(34), "xyz /*,]}{["[r.below(11)]); break;
        case 5: if (!mostly_valid) s.push_back((char)r.below(256)); else s += "/"; break;
        case 6: if (!mostly_valid) { static const char* w[] = { "\\", "\\x", "\\u12", "\\u12g4", "\\uD83D", "\\uDE00", "\\uD83Dx", "\\uD83D\\n", "\\uD83D\\u0041", "\t", "\x1f", "\\0", "\\'", "\\U0041", "\\uD83D\\uD83D\\uDE00" }; s += w[r.below(15)]; } break;
        }
    }
    return s;
}
inline std::string number(Rng& r, bool ok)
{
    static const char* good[] = { "0", "-0", "1", "-1", "10", "12345678901234567890", "0.5", "-0.0", "1e5", "1E+5", "1e-5", "0e0", "0.0e-0", "9007199254740993", "1.7976931348623157e308", "-9223372036854775808", "18446744073709551615", "2147483648", "-2147483649", "4.25E2", "1e400", "0.1" };
    static const char* bad[] = { "01", "-", "-01", "+1", ".5", "1.", "1.e5", "1e", "1e+", "00", "0x1", "1e5.5", "--1", "1_0", "- 1", "1e 5", "Infinity", "NaN", "1.2.3", "-e5", "0123", "1E", "1.5e-", "-.5", "-a" };
    if (!ok && r.chance(1, 2)) return bad[r.below(sizeof bad / sizeof *bad)];
    if (r.chance(1, 2)) return good[r.below(sizeof good / sizeof *good)];
    std::string s = r.chance(1, 3) ? "-" : "";
    s += r.chance(1, 4) ? "0" : std::to_string(1 + r.below(99999));
    if (r.chance(1, 4)) s += "." + std::to_string(r.below(1000));
    if (r.chance(1, 4)) { s += r.chance(1, 2) ? "e" : "E"; if (r.chance(1, 2)) s += r.chance(1, 2) ? "+" : "-"; s += std::to_string(r.below(40)); }
    return s;
}
inline std::string blank(Rng& r, bool jc)
{
    std::string s;
    if (r.chance(2, 3)) return s;
    unsigned n = 1 + (unsigned)r.below(3);
    if (r.chance(1, 20)) n = 10 + (unsigned)r.below(30);
    for (unsigned i = 0; i < n; i++) {
        if (jc && r.chance(1, 3)) {
            static const char* c[] = { "//\n", "// x\n", "/**/", "/***/", "/* * / */", "/*/*/", "/* \" ] } */", "//*/\n", "// \\\n", "/*\n//*/", "//\r\n", "/* é */", "/****/", "//\xff\n" };
            s += c[r.below(sizeof c / sizeof *c)];
        }
        else s.push_back(" \t\r\n"[r.below(4)]);
    }
    return s;
}
inline std::string value(Rng& r, bool jc, bool ok, unsigned depth);
inline std::string key(Rng& r, bool ok, unsigned i)
{
    if (r.chance(1, 2)) return "\"k" + std::to_string(i) + "\"";
    if (!ok && r.chance(1, 20)) return "k";
    if (r.chance(1, 8)) return "\"\"";
    if (r.chance(1, 8)) return r.chance(1, 2) ? "\"a\"" : "\"\\u0061\"";
    return "\"" + body(r, ok) + "\"";
}
inline std::string array(Rng& r, bool jc, bool ok, unsigned depth)
{
    std::string s = "["; unsigned n = (unsigned)r.below(4);
    for (unsigned i = 0; i < n; i++) {
        s += blank(r, jc) + value(r, jc, ok, depth + 1) + blank(r, jc);
        if (i + 1 < n) s += !ok && r.chance(1, 20) ? (r.chance(1, 2) ? "" : ",,") : ",";
    }
    if (n && (jc || !ok) && r.chance(1, 5)) s += "," + blank(r, jc);
    return s + blank(r, jc) + (!ok && r.chance(1, 30) ? "}" : "]");
}
inline std::string object(Rng& r, bool jc, bool ok, unsigned depth)
{
    std::string s = "{"; unsigned n = (unsigned)r.below(4);
    for (unsigned i = 0; i < n; i++) {
        s += blank(r, jc) + key(r, ok, i) + blank(r, jc) + (!ok && r.chance(1, 30) ? "" : ":") + blank(r, jc) + value(r, jc, ok, depth + 1) + blank(r, jc);
        if (i + 1 < n) s += !ok && r.chance(1, 20) ? (r.chance(1, 2) ? "" : ",,") : ",";
    }
    if (n && (jc || !ok) && r.chance(1, 5)) s += "," + blank(r, jc);
    return s + blank(r, jc) + (!ok && r.chance(1, 30) ? "]" : "}");
}
inline std::string value(Rng& r, bool jc, bool ok, unsigned depth)
{
    switch (r.below(depth > 5 ? 6 : 9)) {
    case 0: return "null";
    case 1: return r.chance(1, 2) ? "true" : "false";
    case 2: case 3: return number(r, ok);
    case 4: case 5:
        if (!ok && r.chance(1, 10)) { static const char* w[] = { "nul", "nulL", "tru", "True", "fals", "falsee", "nullx", "n", "t", "f", "'a'", "undefined", "", "\"", "truefalse" }; return w[r.below(15)]; }
        return "\"" + body(r, ok) + "\"";
    case 6: case 7: return array(r, jc, ok, depth);
    default: return object(r, jc, ok, depth);
    }
}
inline std::string doc(Rng& r, bool jc, bool ok)
{
    std::string s = blank(r, jc);
    if (!ok && r.chance(1, 20)) s += value(r, jc, ok, 0);
    else s += r.chance(1, 2) ? array(r, jc, ok, 0) : object(r, jc, ok, 0);
    s += blank(r, jc);
    if (!ok && r.chance(1, 8)) { static const char* t[] = { "x", "]", "}", ",", "[]", "/", "//", "/*", "/* *", "//x", "/**/", "\\", "\"", "0" }; s += t[r.below(14)]; }
    if (r.chance(1, 40)) { s.push_back('\0'); if (r.chance(1, 2)) s += "junk"; }
    return s;
}
inline std::string mutate(std::string s, Rng& r)
{
    unsigned n = 1 + (unsigned)r.below(3);
    static const char alphabet[] = "{}[]:,\"\\/*u0123456789eE+-. \t\n\rabfnrtDd8cC\x01\x1f\x7f\x80\xff\xef\xbb\xbf";
    while (n--) {
        size_t p = r.below(s.size() + 1);
        switch (r.below(5)) {
        case 0: if (p < s.size()) s.erase(p, 1 + r.below(3)); break;
        case 1: s.insert(p, 1, alphabet[r.below(sizeof alphabet)]); break;
        case 2: if (p < s.size()) s[p] = alphabet[r.below(sizeof alphabet)]; break;
        case 3: if (p < s.size()) s.resize(p); break;
        default: if (p < s.size()) s.insert(r.below(s.size()), s.substr(p, r.below(8))); break;
        }
    }
    return s;
}
// all texts of length n over an alphabet, the worker's share of them
inline void all(const std::string& alphabet, unsigned maxlen, const std::string& pre, const std::string& post, const std::function<void(const std::string&)>& f, unsigned part, unsigned parts)
{
    uint64_t k = 0;
    for (unsigned n = 0; n <= maxlen; n++) {
        std::vector<unsigned> ix(n, 0);
        for (;;) {
            if (k++ % parts == part) { std::string s = pre; for (unsigned i : ix) s.push_back(alphabet[i]); f(s + post); }
            unsigned i = 0;
            while (i < n && ++ix[i] == alphabet.size()) ix[i++] = 0;
            if (i == n) break;
        }
    }
}
// texts in which one thing is large: every size up to 300, then around the powers of two
inline void big(const std::function<void(const std::string&)>& f, unsigned part, unsigned parts)
{
    std::vector<size_t> ns; for (size_t n = 1; n <= 300; n++) ns.push_back(n);
    for (size_t n : { 511, 512, 513, 1000, 1024, 1025, 2048, 4095, 4096, 4097, 65537 }) ns.push_back(n);
    auto rep = [](const std::string& s, size_t n) { std::string r; r.reserve(s.size() * n); while (n--) r += s; return r; };
    for (size_t i = part; i < ns.size(); i += parts) {
        const size_t n = ns[i]; const std::string a(n, 'a');
        std::string run; for (size_t j = 0; j < n; j++) run.push_back((char)('0' + (j + 1) % 10)); if (run[0] == '0') run[0] = '7';
        // strings and keys
        f("[\"" + a + "\"]"); f("[\"" + a + "\\n" + a.substr(0, n % 50) + "\\\\\"]"); f("{\"" + a + "\":\"" + a + "\\\"b\"}"); f("[\"" + a + "\x1f\"]"); f("[\"" + a);
        if (n <= 8192) { f("[\"" + rep("\\n", n) + "\"]"); f("[\"" + rep("\\u00e9x", n) + "\"]"); f("[\"" + rep("\\ud83d\\ude00", n) + "\"]"); f("[\"" + rep("b\\\\", n) + "\"]"); f("[\"" + rep("\\ud83d\\ude00", n) + "\\ud83d\"]"); }
        // numbers
        f("[" + run + "]"); f("[-1." + run + "]"); f("[1e" + run + "," + run + "." + run + "E-" + run + "]"); f("[0" + run + "]");
        // blanks and comments
        f("[" + std::string(n, ' ') + "1" + std::string(n, '\t') + ",2" + std::string(n, '\n') + "]" + std::string(n, '\r'));
        f("[/*" + a + "*/1,//" + a + "\n2]//" + a + "\n"); f("/*" + std::string(n, '*') + "*/[]/*" + a + "*" ); f("{" + std::string(n, ' ') + "\"a\"" + std::string(n, '\n') + ":/*" + a + "**/1}");
        if (n <= 8192) {
            f(rep("//\n", n) + "[" + rep("/**/", n) + "]");
            // elements and members
            std::string e, o, d; for (size_t j = 0; j < n; j++) { std::string k = std::to_string(j); e += (j ? "," : "") + k; o += std::string(j ? "," : "") + "\"k" + k + "\":" + k; }
            f("[" + e + "]"); f("[" + e + ",]"); f("[" + e + ",,1]"); f("{" + o + "}"); f("{" + o + ",}"); if (n <= 2048) { f("{" + o + ",\"k" + std::to_string(n / 2) + "\":1}"); f("{" + o + ",\"k" + std::to_string(n - 1) + "\":1}"); f("{" + o + ",\"k0\":1}"); }
            f("[" + rep("[],", n) + "{}]"); f("[" + rep("\"a\\t\",", n) + "null]");
        }
        // depth, within the limits of the stack
        if (n <= 600) { f(rep("[", n) + "1" + rep("]", n)); f(rep("[", n) + rep("]", n - 1)); f(rep("[1,", n) + "[]" + rep(",2]", n)); f(rep("{\"a\":", n) + "[]" + rep("}", n)); f(rep("[{\"a\":[", n / 3) + rep("]}]", n / 3)); f(rep("[", n) + rep("]", n) + "]"); }
    }
}
} // namespace gen
