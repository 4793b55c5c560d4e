// C19 for lists of every length from 1 to 64 places (the most the macros take): each member is written under its key, read back, required or not, and named when it is at fault.
// Case: one byte for the number of members, then bytes that choose what happens to each member.
#include "json.hpp"
#include "hx.hpp"
namespace many {
#include "many.inc"
}
using namespace many;
template <class M> void test(int n, const std::string& c)
{
    M x; json::object want;
    auto byte = [&](int i) { return c.size() > 1 ? (unsigned char)c[1 + (size_t)i % (c.size() - 1)] : 0u; };
    for (int i = 0; i < n; i++) { *x.at(i) = i * 1000 + (int)byte(i); want[M::key(i)] = *x.at(i); }
    json::value v = x.to_json();
    HX_CHECK(v.is_object() && v == json::value(want), "C19", "to_json() of " << n << " members: " << v.to_string());
    M y; std::string e;
    HX_CHECK(y.check_json(v) && y.check_json(v, e) && y.from_json(v, e), "C19", "what to_json() of " << n << " members gives is refused: " << e);
    for (int i = 0; i < n; i++) HX_CHECK(*y.at(i) == *x.at(i), "C19", "member " << i << " of " << n << " is not read back");
    // some members missing, some ill-typed
    json::object in; int bad = -1;
    for (int i = 0; i < n; i++) {
        unsigned b = byte(i + 1);
        if (b % 16 == 1) { in[M::key(i)] = "text"; if (bad < 0) bad = i; }
        else if (b % 16 == 2 || M::opt(i) && b % 2) { if (!M::opt(i) && bad < 0) bad = i; }
        else in[M::key(i)] = i + 1;
    }
    in["extra"] = 7; json::value w(in);
    for (int k = 0; k < 2; k++) {
        M z; for (int i = 0; i < n; i++) *z.at(i) = -1 - i;
        std::string err; bool ok = k ? z.from_json(w, err) : z.check_json(w, err);
        HX_CHECK(ok == (bad < 0), "C19", (ok ? "accepted: " : "refused: ") << w.to_string() << " by " << n << " members");
        if (!ok) HX_CHECK(err == M::key(bad), "C19", "the member at fault is " << M::key(bad) << " but " << err << " is named, of " << n);
        else if (k) for (int i = 0; i < n; i++) HX_CHECK(*z.at(i) == (in.contains(M::key(i)) ? i + 1 : -1 - i), "C19", "member " << i << " of " << n << " after from_json: " << *z.at(i));
    }
}
struct H : hx::Harness
{
    const char* tags() override { return "C19"; }
    void run(const std::string& c) override
    {
        if (c.empty()) return;
        switch ((unsigned char)c[0] % 64 + 1) {
#define F(n) case n: test<M##n>(M##n::size, c); break;
            ALL_M(F)
        }
    }
    void fixed(const std::function<void(const std::string&)>& f, unsigned part, unsigned parts) override
    {
        for (unsigned n = 0; n < 64; n++) if (n % parts == part) {
            f(std::string(1, (char)n));
            for (int at = 0; at <= (int)n; at++) for (char k : { '\1', '\2' }) { std::string s(n + 2, '\4'); s[0] = (char)n; s[1 + (size_t)at] = k; f(s); }
        }
    }
    std::string random(hx::Rng& r) override
    {
        std::string s(1, (char)r.below(64)); unsigned q = (unsigned)r.below(3) * 20 + 2;
        for (size_t i = 0; i < 66; i++) s += (char)(r.chance(1, q) ? r.below(256) : r.below(128) * 2 == 2 ? 4 : 4 + 16 * r.below(15));
        return s;
    }
};
int main(int argc, char** argv) { H h; return hx::main(argc, argv, h); }
