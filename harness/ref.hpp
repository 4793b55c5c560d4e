// Reference reading of JSON / JSONC texts, written from RFC 8259 and the documented deviations, not from meojson's code:
// top level is an array or an object; a NUL byte behind it counts as the end of the text; duplicate keys are rejected;
// JSONC adds // and /* */ comments wherever whitespace may stand and one trailing comma behind the last element.
#pragma once
#include <algorithm>
#include <string>
#include <utility>
#include <vector>

namespace ref
{
struct Val
{
    enum T { Null, Bool, Num, Str, Arr, Obj } t = Null;
    std::string s;                                   // literal text of a number, "true"/"false", decoded string
    std::vector<Val> a;
    std::vector<std::pair<std::string, Val>> o;      // sorted by key
    bool operator==(const Val& r) const { return t == r.t && s == r.s && a == r.a && o == r.o; }
};

struct Reader
{
    const std::string& x; bool jc; size_t p = 0;
    Reader(const std::string& t, bool c) : x(t), jc(c) {}
    int at(size_t i) const { return i < x.size() ? (unsigned char)x[i] : -1; }
    // false: malformed comment
    bool blank()
    {
        for (;;) {
            int c = at(p);
            if (c == ' ' || c == '\t' || c == '\r' || c == '\n') { p++; continue; }
            if (jc && c == '/') {
                if (at(p + 1) == '/') { size_t e = x.find('\n', p + 2); p = e == std::string::npos ? x.size() : e + 1; continue; }
                if (at(p + 1) == '*') { size_t e = x.find("*/", p + 2); if (e == std::string::npos) return false; p = e + 2; continue; }
                return false;
            }
            return true;
        }
    }
    static int hexdig(int c) { return c >= '0' && c <= '9' ? c - '0' : c >= 'a' && c <= 'f' ? c - 'a' + 10 : c >= 'A' && c <= 'F' ? c - 'A' + 10 : -1; }
    bool unit(unsigned& u)       // XXXX
    {
        u = 0;
        for (int i = 0; i < 4; i++) { int h = hexdig(at(p++)); if (h < 0) return false; u = u * 16 + (unsigned)h; }
        return true;
    }
    static void put(std::string& o, unsigned long c)
    {
        auto b = [&](unsigned long v) { o.push_back((char)v); };
        if (c < 0x80) b(c);
        else if (c < 0x800) { b(0xC0 | (c >> 6)); b(0x80 | (c & 63)); }
        else if (c < 0x10000) { b(0xE0 | (c >> 12)); b(0x80 | ((c >> 6) & 63)); b(0x80 | (c & 63)); }
        else { b(0xF0 | (c >> 18)); b(0x80 | ((c >> 12) & 63)); b(0x80 | ((c >> 6) & 63)); b(0x80 | (c & 63)); }
    }
    bool str(std::string& o)
    {
        if (at(p) != '"') return false;
        p++;
        for (;;) {
            int c = at(p);
            if (c < 0x20) return false;              // also the end of the text
            p++;
            if (c == '"') return true;
            if (c != '\\') { o.push_back((char)c); continue; }
            int e = at(p++);
            switch (e) {
            case '"': o += '"'; break;
            case '\\': o += '\\'; break;
            case '/': o += '/'; break;
            case 'b': o += '\b'; break;
            case 'f': o += '\f'; break;
            case 'n': o += '\n'; break;
            case 'r': o += '\r'; break;
            case 't': o += '\t'; break;
            case 'u': {
                unsigned u, v;
                if (!unit(u)) return false;
                if (u >= 0xDC00 && u <= 0xDFFF) return false;
                if (u >= 0xD800 && u <= 0xDBFF) {
                    if (at(p) != '\\' || at(p + 1) != 'u') return false;
                    p += 2;
                    if (!unit(v) || v < 0xDC00 || v > 0xDFFF) return false;
                    put(o, 0x10000ul + ((unsigned long)(u - 0xD800) << 10) + (v - 0xDC00));
                }
                else put(o, u);
                break;
            }
            default: return false;
            }
        }
    }
    bool digits() { if (at(p) < '0' || at(p) > '9') return false; while (at(p) >= '0' && at(p) <= '9') p++; return true; }
    bool num(std::string& o)
    {
        size_t b = p;
        if (at(p) == '-') p++;
        if (at(p) == '0') { p++; if (at(p) >= '0' && at(p) <= '9') return false; }
        else if (!digits()) return false;
        if (at(p) == '.') { p++; if (!digits()) return false; }
        if (at(p) == 'e' || at(p) == 'E') { p++; if (at(p) == '+' || at(p) == '-') p++; if (!digits()) return false; }
        o = x.substr(b, p - b);
        return true;
    }
    bool word(const char* w) { std::string t(w); if (x.compare(p, t.size(), t) != 0) return false; p += t.size(); return true; }
    bool val(Val& v)
    {
        switch (at(p)) {
        case 'n': v.t = Val::Null; return word("null");
        case 't': v.t = Val::Bool; v.s = "true"; return word("true");
        case 'f': v.t = Val::Bool; v.s = "false"; return word("false");
        case '"': v.t = Val::Str; return str(v.s);
        case '[': return arr(v);
        case '{': return obj(v);
        default: v.t = Val::Num; return num(v.s);
        }
    }
    bool arr(Val& v)
    {
        v.t = Val::Arr; p++;
        if (!blank()) return false;
        if (at(p) == ']') { p++; return true; }
        for (;;) {
            v.a.emplace_back();
            if (!val(v.a.back()) || !blank()) return false;
            int c = at(p++);
            if (c == ']') return true;
            if (c != ',' || !blank()) return false;
            if (jc && at(p) == ']') { p++; return true; }
        }
    }
    bool obj(Val& v)
    {
        v.t = Val::Obj; p++;
        if (!blank()) return false;
        if (at(p) == '}') { p++; return true; }
        for (;;) {
            std::string k; Val m;
            if (!str(k) || !blank() || at(p++) != ':' || !blank() || !val(m) || !blank()) return false;
            auto it = std::lower_bound(v.o.begin(), v.o.end(), k, [](const auto& a, const std::string& b) { return a.first < b; });
            if (it != v.o.end() && it->first == k) return false;
            v.o.emplace(it, std::move(k), std::move(m));
            int c = at(p++);
            if (c == '}') return true;
            if (c != ',' || !blank()) return false;
            if (jc && at(p) == '}') { p++; return true; }
        }
    }
    bool doc(Val& v)
    {
        if (!blank() || (at(p) != '[' && at(p) != '{') || !val(v)) return false;
        if (!blank()) return false;
        return at(p) <= 0;
    }
};
inline bool read(const std::string& text, bool jc, Val& v) { Reader r(text, jc); return r.doc(v); }

// canonical text, for messages
inline std::string show(const Val& v)
{
    switch (v.t) {
    case Val::Null: return "null";
    case Val::Bool: case Val::Num: return v.s;
    case Val::Str: return "\"" + v.s + "\"";
    case Val::Arr: { std::string r = "["; for (auto& e : v.a) r += (r.size() > 1 ? "," : "") + show(e); return r + "]"; }
    default: { std::string r = "{"; for (auto& e : v.o) r += (r.size() > 1 ? "," : "") + ("\"" + e.first + "\":") + show(e.second); return r + "}"; }
    }
}
} // namespace ref
