// Small driver shared by all concrete harnesses: a case is a byte string; run_case() judges it against an independent oracle.
//   PROG --seconds N --seed S --workers W --out DIR [--iters]      search (fixed cases first, then random ones)
//   PROG --replay FILE                                            run one case again
// Result lines on stdout:  FAIL <tag> <file> <message>   and a last line  DONE cases=<n> distinct=<n>
#pragma once
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <ctime>
#include <fstream>
#include <functional>
#include <iostream>
#include <map>
#include <set>
#include <sstream>
#include <string>
#include <unordered_set>
#include <vector>
#include <fcntl.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/wait.h>
#include <unistd.h>

namespace hx
{
struct Rng
{
    uint64_t s;
    explicit Rng(uint64_t seed) : s(seed * 0x9E3779B97F4A7C15ull + 0x1234567) { next(); next(); }
    uint64_t next() { s ^= s << 13; s ^= s >> 7; s ^= s << 17; return s * 0x2545F4914F6CDD1Dull; }
    uint64_t below(uint64_t n) { return n ? (next() >> 11) % n : 0; }
    bool chance(unsigned num, unsigned den) { return below(den) < num; }
    template <class T> const T& pick(const std::vector<T>& v) { return v[below(v.size())]; }
};
// reads choices from a byte string (zeroes once it is used up)
struct Choices
{
    const std::string& d; size_t p = 0;
    explicit Choices(const std::string& x) : d(x) {}
    unsigned byte() { return p < d.size() ? (unsigned char)d[p++] : 0; }
    unsigned below(unsigned n) { return n <= 256 ? (n ? byte() % n : 0) : (byte() * 256u + byte()) % n; }
    bool more() const { return p < d.size(); }
    std::string bytes(size_t n) { std::string r; while (n-- && more()) r.push_back((char)byte()); return r; }
};
inline std::string stop_tag;
inline volatile int* stop = nullptr;
struct Shared { uint64_t cases, distinct; uint32_t len; char phase[60]; char data[1 << 20]; };
inline Shared* sh = nullptr;
inline bool replay = false;
inline std::string out = ".";
inline unsigned worker = 0;
inline std::map<std::string, int> nfail;
inline std::string cur;
inline bool failed = false;
inline void phase(const char* tags) { if (sh) { std::strncpy(sh->phase, tags, sizeof(sh->phase) - 1); } }
inline std::string printable(const std::string& s, size_t max = 300)
{
    std::string r; char b[8];
    for (unsigned char c : s) { if (r.size() > max) { r += "..."; break; } if (c >= 32 && c < 127 && c != '\\') r.push_back((char)c); else { std::snprintf(b, sizeof b, "\\x%02x", c); r += b; } }
    return r;
}
// the failing case counts for each of the tags ("C01 C04")
inline void fail(const std::string& tags, const std::string& msg)
{
    failed = true;
    std::istringstream is(tags); std::string t;
    while (is >> t) {
        if (replay) { std::cout << "FAIL " << t << " - " << msg << "\n"; continue; }
        if (t == stop_tag && stop) *stop = 1;
        if (++nfail[t] > 3) continue;
        std::string f = out + "/case_" + t + "_" + std::to_string(worker) + "_" + std::to_string(nfail[t]) + ".bin";
        std::ofstream(f, std::ios::binary) << cur;
        std::cout << "FAIL " << t << " " << f << " " << printable(msg, 600) << " [case " << printable(cur) << "]\n" << std::flush;
    }
}
struct Msg      // out of line on purpose: there are thousands of messages
{
    std::string s;
    [[gnu::noinline]] Msg& operator<<(const std::string& x) { s += x; return *this; }
    [[gnu::noinline]] Msg& operator<<(std::string_view x) { s += x; return *this; }
    [[gnu::noinline]] Msg& operator<<(const char* x) { s += x; return *this; }
    [[gnu::noinline]] Msg& operator<<(char x) { s += x; return *this; }
    [[gnu::noinline]] Msg& operator<<(long long x) { s += std::to_string(x); return *this; }
    [[gnu::noinline]] Msg& operator<<(unsigned long long x) { s += std::to_string(x); return *this; }
    template <class T, class = decltype(std::declval<std::ostream&>() << std::declval<const T&>()), std::enable_if_t<std::is_class_v<T>, int> = 0> Msg& operator<<(const T& x) { std::ostringstream o; o << x; s += o.str(); return *this; }
    Msg& operator<<(int x) { return *this << (long long)x; }
    Msg& operator<<(long x) { return *this << (long long)x; }
    Msg& operator<<(bool x) { return *this << (long long)x; }
    Msg& operator<<(unsigned x) { return *this << (unsigned long long)x; }
    Msg& operator<<(unsigned long x) { return *this << (unsigned long long)x; }
};
#define HX_CHECK(cond, tags, msg) do { if (__builtin_expect(!(cond), 0)) { ::hx::Msg hx_o; hx_o << msg; ::hx::fail(tags, hx_o.s); } } while (0)

struct Harness
{
    virtual ~Harness() = default;
    virtual void run(const std::string& data) = 0;
    virtual void fixed(const std::function<void(const std::string&)>&, unsigned part, unsigned parts) { (void)part; (void)parts; }
    virtual std::string random(Rng&) = 0;
    virtual const char* tags() = 0;       // properties that a crash counts for when no phase is set
};

inline int main(int argc, char** argv, Harness& h)
{
    double seconds = 5; uint64_t seed = 1; unsigned workers = 4; std::string rep;
    for (int i = 1; i + 1 < argc; i += 2) {
        std::string a = argv[i];
        if (a == "--seconds") seconds = std::atof(argv[i + 1]);
        else if (a == "--seed") seed = std::strtoull(argv[i + 1], nullptr, 10);
        else if (a == "--workers") workers = (unsigned)std::atoi(argv[i + 1]);
        else if (a == "--out") out = argv[i + 1];
        else if (a == "--stop") stop_tag = argv[i + 1];       // enough once this tag has failed
        else if (a == "--replay") rep = argv[i + 1];
    }
    if (!rep.empty()) {
        replay = true;
        std::ifstream f(rep, std::ios::binary);
        cur.assign(std::istreambuf_iterator<char>(f), std::istreambuf_iterator<char>());
        h.run(cur);
        std::cout << (failed ? "the case fails\n" : "the case passes\n");
        return failed ? 1 : 0;
    }
    stop = (volatile int*)mmap(nullptr, 4096, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    std::vector<Shared*> shs; std::vector<pid_t> pids;
    for (unsigned w = 0; w < workers; w++) {
        auto* m = (Shared*)mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
        shs.push_back(m);
        pid_t p = fork();
        if (p == 0) {
            sh = m; worker = w;
            std::string ef = out + "/stderr_" + std::to_string(w) + ".txt";
            int fd = ::open(ef.c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0644); if (fd >= 0) dup2(fd, 2);
            std::unordered_set<size_t> seen;
            auto one = [&](const std::string& d) {
                if (*stop) return;
                cur = d; sh->len = (uint32_t)std::min(d.size(), sizeof(sh->data)); std::memcpy(sh->data, d.data(), sh->len);
                phase(h.tags()); failed = false;
                alarm(20);                       // a case takes microseconds; this is non-termination
                h.run(d);
                sh->cases++;
                if (seen.size() < 2000000 && seen.insert(std::hash<std::string>()(d)).second) sh->distinct++;
            };
            h.fixed(one, w, workers);
            struct timespec t0, t; clock_gettime(CLOCK_MONOTONIC, &t0);
            Rng r(seed * 1000 + w);
            for (uint64_t k = 0;; k++) {
                clock_gettime(CLOCK_MONOTONIC, &t);
                if (*stop || (double)(t.tv_sec - t0.tv_sec) + 1e-9 * (double)(t.tv_nsec - t0.tv_nsec) > seconds) break;
                for (int j = 0; j < 20; j++) one(h.random(r));
            }
            std::cout << std::flush; _exit(0);
        }
        pids.push_back(p);
    }
    uint64_t n = 0, d = 0;
    for (unsigned w = 0; w < workers; w++) {
        int st = 0; waitpid(pids[w], &st, 0);
        n += shs[w]->cases; d += shs[w]->distinct;
        if (WIFEXITED(st) && WEXITSTATUS(st) == 0) continue;
        std::string f = out + "/crash_" + std::to_string(w) + ".bin";
        std::ofstream(f, std::ios::binary).write(shs[w]->data, shs[w]->len);
        std::istringstream is(std::string(shs[w]->phase)); std::string t;
        const char* what = WIFSIGNALED(st) && WTERMSIG(st) == SIGALRM ? "does not terminate" : "crashes (sanitizer report or signal)";
        while (is >> t) std::cout << "FAIL " << t << " " << f << " " << what << " see " << out << "/stderr_" << w << ".txt [case " << printable(std::string(shs[w]->data, shs[w]->len)) << "]\n";
    }
    std::cout << "DONE cases=" << n << " distinct=" << d << "\n" << std::flush;
    return 0;
}
} // namespace hx
