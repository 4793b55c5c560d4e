// Concrete oracle for escaping and serialisation: independent reader (ref.hpp) and independent layout.
#include "model.hpp"
#include "gen.hpp"
using ref::Val;

static bool legal(const std::string& e)
{
    for (size_t i = 0; i < e.size(); i++) {
        unsigned char c = (unsigned char)e[i];
        if (c < 0x20 || c == '"') return false;
        if (c == '\\') {
            if (++i == e.size()) return false;
            if (e[i] == 'u') { for (int k = 0; k < 4; k++) if (++i >= e.size() || !isxdigit((unsigned char)e[i])) return false; }
            else if (!std::strchr("\"\\/bfnrt", e[i])) return false;
        }
    }
    return true;
}
// structure of the expected text; strings stand as their own serialisation (C07 judges those)
static void lay(const Val& v, const std::function<std::string(const std::string&)>& q, bool pretty, size_t ind, size_t t, std::string& o)
{
    auto nl = [&](size_t n) { if (pretty) { o += '\n'; o.append(ind * n, ' '); } };
    switch (v.t) {
    case Val::Null: o += "null"; break;
    case Val::Bool: case Val::Num: o += v.s; break;
    case Val::Str: o += q(v.s); break;
    case Val::Arr:
        o += '[';
        for (size_t i = 0; i < v.a.size(); i++) { if (i) o += ','; nl(t + 1); lay(v.a[i], q, pretty, ind, t + 1, o); }
        nl(t); o += ']'; break;
    case Val::Obj:
        o += '{';
        for (size_t i = 0; i < v.o.size(); i++) { if (i) o += ','; nl(t + 1); o += q(v.o[i].first); o += pretty ? ": " : ":"; lay(v.o[i].second, q, pretty, ind, t + 1, o); }
        nl(t); o += '}'; break;
    }
}
struct S : hx::Harness
{
    const char* tags() override { return "C07 C08 C09"; }
    static std::string quote(const std::string& s) { return json::value(s).to_string(); }
    void escaping(const std::string& s)
    {
        hx::phase("C07");
        std::string e = json::_utils::escape_string(s);
        HX_CHECK(legal(e), "C07", "the escaped text \"" << hx::printable(e) << "\" may not stand in a string literal");
        const std::string doc = "[\"" + e + "\"]";
        for (bool jc : { false, true }) {
            Val v; bool ok = ref::read(doc, jc, v);
            HX_CHECK(ok && v.t == Val::Arr && v.a.size() == 1 && v.a[0].t == Val::Str && v.a[0].s == s, "C07", "the escaped text \"" << hx::printable(e) << "\" does not decode to the original");
        }
        auto p = json::parse(doc);
        HX_CHECK(p && p->is_array() && p->as_array().size() == 1 && p->as_array()[0].is_string() && p->as_array()[0].as_string() == s, "C07", "the escaped text is not read back as the original");
        HX_CHECK(quote(s) == "\"" + e + "\"", "C07 C08", "a string value is not serialised as its escaped text between quotes: " << quote(s));
        HX_CHECK(json::value(s).format(3) == "\"" + e + "\"", "C07 C09", "a string value is not formatted as its escaped text between quotes");
        json::object o; o.emplace(s, 1);
        HX_CHECK(o.to_string() == "{\"" + e + "\":1}", "C07 C08", "a member name is not serialised as its escaped text: " << o.to_string());
        HX_CHECK(o.format(1) == "{\n \"" + e + "\": 1\n}", "C07 C09", "a member name is not formatted as its escaped text: " << o.format(1));
        std::string e2 = "x"; json::_utils::append_escaped_string(e2, s);
        HX_CHECK(e2 == "x" + e && json::_utils::unescape_string(s) == e, "C07", "the escaping functions disagree");
    }
    void document(const Val& m)
    {
        hx::phase("C08");
        json::value v = model::build(m); const json::value& c = v;
        if (!model::same(v, m)) return;                  // construction is judged elsewhere
        const std::string t = c.to_string();
        const bool top = m.t == Val::Arr || m.t == Val::Obj;
        std::string want; lay(m, quote, false, 0, 0, want);
        HX_CHECK(t == want, "C08", "serialised as " << t << ", expected " << want);
        HX_CHECK(c.dumps() == t && c.dumps(std::nullopt) == t, "C08", "dumps() differs from to_string()");
        if (m.t == Val::Arr) HX_CHECK(c.as_array().to_string() == t && c.as_array().dumps() == t, "C08", "array::to_string differs");
        if (m.t == Val::Obj) HX_CHECK(c.as_object().to_string() == t && c.as_object().dumps() == t, "C08", "object::to_string differs");
        if (top) back(t, c, m, "C08");
        hx::phase("C09");
        for (size_t ind : { size_t(0), size_t(1), size_t(2), size_t(4), size_t(7) }) {
            const std::string f = c.format(ind);
            std::string w; lay(m, quote, true, ind, 0, w);
            HX_CHECK(f == w, "C09", "formatted with indent " << ind << " as " << f << ", expected " << w);
            HX_CHECK(c.dumps(ind) == f, "C09", "dumps(indent) differs from format(indent)");
            if (m.t == Val::Arr) HX_CHECK(c.as_array().format(ind) == f && c.as_array().dumps(ind) == f, "C09", "array::format differs");
            if (m.t == Val::Obj) HX_CHECK(c.as_object().format(ind) == f && c.as_object().dumps(ind) == f, "C09", "object::format differs");
            if (top && ind != 1) back(f, c, m, "C09");
            if (ind == 4) {
                HX_CHECK(c.format() == f, "C09", "format() is not format(4)");
                std::ostringstream os; os << c;
                HX_CHECK(os.str() == f, "C09", "operator<< differs from format()");
                if (m.t == Val::Arr) { std::ostringstream o2; o2 << c.as_array(); HX_CHECK(o2.str() == f, "C09", "operator<< of an array differs from format()"); }
                if (m.t == Val::Obj) { std::ostringstream o2; o2 << c.as_object(); HX_CHECK(o2.str() == f, "C09", "operator<< of an object differs from format()"); }
            }
        }
        HX_CHECK(model::same(v, m), "C08 C09", "serialisation changed the value");
    }
    void back(const std::string& t, const json::value& v, const Val& m, const char* tag)
    {
        Val r;
        HX_CHECK(ref::read(t, false, r) && r == m, tag, "the text " << t << " does not denote the value it was made from");
        for (auto& p : { json::parse(t), json::parsec(t) }) {
            HX_CHECK(p.has_value(), tag, "the text " << t << " is not read back");
            if (p) HX_CHECK(*p == v && v == *p && model::same(*p, m) && p->to_string() == v.to_string(), tag, "the text " << t << " is read back as another value: " << *p);
        }
    }
    void run(const std::string& d) override
    {
        if (d.empty()) return;
        if (d[0] == 's') { escaping(d.substr(1)); return; }
        if (d[0] == 'x') { invalid(d.substr(1)); return; }
        std::string rest = d.substr(1); hx::Choices c(rest);
        if (d[0] == 'B') {                               // large: kind and size
            if (d.size() < 4) return; unsigned k = (unsigned char)d[1] % 6; size_t n = (unsigned char)d[2] * 256u + (unsigned char)d[3]; Val v;
            if (k == 0) { v.t = Val::Arr; for (unsigned i = 0; i < n; i++) v.a.push_back(model::filler(i)); }
            if (k == 1) { v.t = Val::Obj; for (unsigned i = 0; i < n; i++) v.o.emplace_back("k" + std::to_string(i), model::filler(i)); model::sort_members(v); }
            if (k == 2) { v.t = Val::Arr; Val x; x.t = Val::Str; x.s = std::string(n, 'a') + "\"" + std::string(n % 40, 'b') + "\n"; v.a.push_back(x); x.s = std::string(n, '\\'); v.a.push_back(x); x.s = std::string(n, 'c'); v.a.push_back(x); }
            if (k == 3) { v.t = Val::Obj; v.o.emplace_back(std::string(n, 'k') + "\x1f", Val()); v.o.emplace_back(std::string(n, 'k') + "z", model::filler(3)); model::sort_members(v); }
            if (k == 4) { v.t = Val::Arr; Val x; x.t = Val::Num; for (size_t i = 0; i <= n; i++) x.s.push_back((char)('1' + i % 9)); v.a.push_back(x); x.s = "-0." + x.s + "e-" + x.s; v.a.push_back(x); }
            if (k == 5) { Val x; x.t = Val::Arr; v = x; for (size_t i = 0; i < n; i++) { Val w; w.t = i % 3 ? Val::Arr : Val::Obj; if (i % 3) { w.a.push_back(v); if (i % 2) w.a.push_back(model::filler((unsigned)i)); } else { w.o.emplace_back("d", v); w.o.emplace_back("e", model::filler((unsigned)i)); } v = std::move(w); } }
            document(v); return;
        }
        if (d[0] == 'd') {                               // deep
            unsigned n = c.byte() % 80; Val v = model::value(c, 2);
            for (unsigned i = 0; i < n; i++) {
                Val w; w.t = c.below(2) ? Val::Arr : Val::Obj; Val x = model::value(c, 4);
                if (w.t == Val::Arr) { w.a.push_back(v); w.a.insert(c.below(2) ? w.a.begin() : w.a.end(), x); }
                else { w.o.emplace_back(model::text(c), v); w.o.emplace_back(model::text(c), x); model::sort_members(w); }
                v = w;
            }
            document(v); return;
        }
        document(model::value(c, 0, d[0] == 'a' ? 5 : d[0] == 'o' ? 8 : -1));
    }
    // an invalid value is never serialised
    void invalid(const std::string& d)
    {
        hx::phase("C08 C09");
        hx::Choices c(d); json::value v = json::invalid_value();
        unsigned n = c.below(4);
        for (unsigned i = 0; i < n; i++) {
            if (c.below(2)) { json::array a; a.emplace_back(1); a.emplace_back(v); if (c.below(2)) a.emplace_back("x"); v = json::value(a); }
            else { json::object o; o.emplace("k", v); if (c.below(2)) o.emplace("z", 1); v = json::value(o); }
        }
        auto throws = [&](auto f) { try { f(); } catch (const json::exception&) { return true; } catch (...) {} return false; };
        HX_CHECK(throws([&] { (void)v.to_string(); }), "C08", "a value that contains an invalid value is serialised");
        HX_CHECK(throws([&] { (void)v.format(2); }), "C09", "a value that contains an invalid value is formatted");
    }
    void fixed(const std::function<void(const std::string&)>& f, unsigned part, unsigned parts) override
    {
        for (unsigned b = part; b < 256; b += parts)
            for (const char* pre : { "", "a", "\\", "\"", "\n", "abcdefghijklmnop" })
                for (const char* post : { "", "b", "\"", "\\", "u0041", "\x01" }) f("s" + std::string(pre) + (char)b + post);
        for (unsigned b = part; b < 256; b += parts) for (unsigned e = 0; e < 256; e += b < 0x40 || b == 92 ? 1 : 7) f("s" + std::string(1, (char)b) + (char)e);
        {   // every size up to 300, then a few larger ones
            std::vector<size_t> ns; for (size_t n = 1; n <= 300; n++) ns.push_back(n);
            for (size_t n : { 511, 512, 513, 1023, 1024, 1025, 2048, 4095, 4096, 4097, 5000 }) ns.push_back(n);
            for (size_t i = part; i < ns.size(); i += parts) {
                const size_t n = ns[i];
                for (unsigned k = 0; k < 6; k++) if (n <= (k == 5 ? 120u : k < 2 ? 130u : 300u) || (k < 5 && (n > 4096 || (n > 1000 && k > 1)))) { std::string t = "B"; t += (char)k; t += (char)(n / 256); t += (char)(n % 256); f(t); }
                for (char e : { '"', '\\', '\n', '\x01', '\x1f' }) { f("s" + std::string(n, 'a') + e); f("s" + std::string(n, e)); f("s" + std::string(n, 'a') + e + std::string(n % 70, 'b') + e + "c"); }
            }
        }
        if (part) return;
        for (int i = 0; i < 40; i++) for (int j = 0; j < 12; j++) { f("v" + std::string(1, (char)i) + (char)j); f("a" + std::string(1, (char)(j % 5)) + (char)i); f("o" + std::string(1, (char)(j % 5)) + (char)i); f("d" + std::string(1, (char)(i * 2)) + std::string(j * 7, (char)j)); f("x" + std::string(1, (char)j) + (char)i + (char)(i / 2)); }
    }
    std::string random(hx::Rng& r) override
    {
        std::string s; unsigned n = 2 + (unsigned)r.below(r.chance(1, 4) ? 120 : 40);
        switch (r.below(8)) {
        case 0: s = "s"; break;
        case 1: s = "x"; n = 6; break;
        case 2: case 3: s = "a"; break;
        case 4: s = r.chance(1, 2) ? "v" : "d"; break;
        default: s = "o";
        }
        if (s == "s" && r.chance(1, 2)) { std::string t; for (unsigned i = 0; i < n; i++) t.push_back("\"\\\n\x01 az\x1f\x7f\xC3/u0"[r.below(13)]); return s + t; }
        while (n--) s.push_back((char)(r.chance(1, 3) ? r.below(256) : r.below(24)));
        return s;
    }
};
int main(int argc, char** argv) { S s; return hx::main(argc, argv, s); }
