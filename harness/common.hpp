// Shared harness code: event log (one JSON object per line), seeded random
// numbers, and turning crashes and hangs of the code under test into events.
#ifndef VERIF_COMMON_HPP
#define VERIF_COMMON_HPP
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cmath>
#include <cstdint>
#include <string>
#include <vector>
#include <iostream>
#include <sstream>
#include <fstream>
#include <functional>
#include <map>
#include <set>
#include <algorithm>
#include <stdexcept>
#include <signal.h>
#include <unistd.h>
#include <fcntl.h>
#include <sys/types.h>
#include <sys/stat.h>

namespace vf {

// Value that no specification ever produces: stands for "not a representable integer".
const int BAD = -2147000000;

inline int qi(double x, double scale = 1.0)
{
    double y = x * scale;
    if (!(y > -2.0e9 && y < 2.0e9)) return BAD;
    double r = std::floor(y + 0.5);
    if (r != y) return BAD;
    return (int) r;
}
// Nearest integer, when rounding of the code's arithmetic is allowed for:
// accepts a relative error of 1e-9 (and absolute 1e-9).
inline int qn(double x, double scale = 1.0)
{
    double y = x * scale;
    if (!(y > -2.0e9 && y < 2.0e9)) return BAD;
    double r = std::floor(y + 0.5);
    double tol = 1e-9 * std::max(1.0, std::fabs(y));
    if (std::fabs(r - y) > tol) return BAD;
    return (int) r;
}

static int  g_fd = -1;
static char g_op[4096] = "start";
static unsigned g_alarm = 60;

inline void crash_line(const char* what)
{
    static char buf[4600];
    int n = snprintf(buf, sizeof buf, "\n{\"e\":\"crash\",\"what\":\"%s\",\"op\":\"%s\"}\n", what, g_op);
    if (g_fd >= 0 && n > 0) { ssize_t k = write(g_fd, buf, n); (void)k; }
}
extern "C" inline void vf_sig(int s)
{
    const char* w = s == SIGABRT ? "abort" : s == SIGSEGV ? "segv" : s == SIGFPE ? "fpe"
        : s == SIGALRM ? "hang" : s == SIGBUS ? "bus" : "signal";
    crash_line(w);
    _exit(77);
}

class Rng {
    uint64_t s;
public:
    explicit Rng(uint64_t seed) : s(seed * 0xD1342543DE82EF95ull + 0x1234567ull) { s = next(); s ^= next() << 7; s = next(); }
    uint64_t next() { s += 0x9E3779B97F4A7C15ull; uint64_t z = s;
        z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull; z = (z ^ (z >> 27)) * 0x94D049BB133111EBull; return z ^ (z >> 31); }
    int in(int lo, int hi) { return lo + (int)(next() % (uint64_t)(hi - lo + 1)); }
    bool chance(int num, int den) { return (int)(next() % den) < num; }
    template <class T> const T& pick(const std::vector<T>& v) { return v[next() % v.size()]; }
    template <class T> void shuffle(std::vector<T>& v) { for (size_t i = v.size(); i > 1; --i) std::swap(v[i-1], v[next() % i]); }
};

inline std::string jesc(const std::string& s)
{
    std::string r = "\"";
    for (unsigned char c : s) {
        if (c == '"' || c == '\\') { r += '\\'; r += c; }
        else if (c == '\n') r += "\\n";
        else if (c == '\t') r += "\\t";
        else if (c < 32 || c > 126) { char b[8]; snprintf(b, sizeof b, "\\u%04x", c); r += b; }
        else r += c;
    }
    return r + "\"";
}
inline std::string j(int x) { return std::to_string(x); }
inline std::string j(unsigned x) { return std::to_string((long)x); }
inline std::string j(long x) { return (x > 2000000000L || x < -2000000000L) ? std::to_string(BAD) : std::to_string(x); }
inline std::string j(unsigned long x) { return x > 2000000000UL ? std::to_string(BAD) : std::to_string(x); }
inline std::string j(bool b) { return b ? "true" : "false"; }
inline std::string j(const std::string& s) { return jesc(s); }
inline std::string j(const char* s) { return jesc(s ? s : "<null>"); }
template <class T> std::string j(const std::vector<T>& v)
{ std::string r = "["; for (size_t i = 0; i < v.size(); ++i) { if (i) r += ","; r += j(T(v[i])); } return r + "]"; }
template <class T> std::string jarr(const T* p, long n)
{ return j(std::vector<T>(p, p + (n > 0 ? n : 0))); }
inline std::string jd(const double* p, long n, double scale = 1.0)
{ std::vector<int> v; for (long i = 0; i < n; ++i) v.push_back(qi(p[i], scale)); return j(v); }
inline std::string jdn(const double* p, long n, double scale = 1.0)
{ std::vector<int> v; for (long i = 0; i < n; ++i) v.push_back(qn(p[i], scale)); return j(v); }

struct Raw { std::string s; };
inline std::string j(const Raw& r) { return r.s; }

class Ev {
    std::string s;
public:
    Ev() { s = "{"; }
    explicit Ev(const char* e) { s = "{"; put("e", e); }
    template <class T> Ev& put(const char* k, const T& v) { if (s.size() > 1) s += ","; s += jesc(k) + ":" + j(v); return *this; }
    Ev& raw(const char* k, const std::string& v) { if (s.size() > 1) s += ","; s += jesc(k) + ":" + v; return *this; }
    std::string str() const { return s + "}"; }
    Raw asRaw() const { return Raw{str()}; }
    void emit() const { std::string t = str() + "\n"; size_t o = 0;
        while (o < t.size()) { ssize_t k = write(g_fd, t.data() + o, t.size() - o); if (k <= 0) _exit(78); o += k; } }
};
inline void op(const std::string& what)       // names the call about to be made, for crash events
{ std::string t; for (char c : what) if (c != '"' && c != '\\' && c >= 32) t += c;
  strncpy(g_op, t.c_str(), sizeof g_op - 1); g_op[sizeof g_op - 1] = 0; alarm(g_alarm); }

struct Args { uint64_t seed; bool thorough; std::string out, script, work; };

// Silences the library's chatter; it must not reach our stdout.
inline void quiet()
{
    int fd = open("/dev/null", O_WRONLY);
    if (fd >= 0) { dup2(fd, 1); if (!getenv("VF_STDERR")) dup2(fd, 2); }
}
inline Args init(int argc, char** argv)
{
    if (argc < 4) { fprintf(stderr, "usage: driver SEED TIER OUT [SCRIPT]\n"); exit(2); }
    Args a; a.seed = strtoull(argv[1], 0, 10); a.thorough = std::string(argv[2]) == "thorough";
    a.out = argv[3]; if (argc > 4) a.script = argv[4];
    a.work = a.out + ".work";
    g_fd = open(argv[3], O_WRONLY | O_CREAT | O_TRUNC | O_APPEND, 0644);
    if (g_fd < 0) { perror(argv[3]); exit(2); }
    for (int s : {SIGABRT, SIGSEGV, SIGFPE, SIGALRM, SIGBUS, SIGILL}) signal(s, vf_sig);
    quiet();
    return a;
}
inline void done() { alarm(0); Ev("eof").emit(); _exit(0); }

} // namespace vf
extern "C" {
const char* __asan_default_options() { return "detect_leaks=0:handle_segv=0:handle_abort=0:handle_sigfpe=0:handle_sigill=0:handle_sigbus=0:abort_on_error=1:allocator_may_return_null=1:detect_container_overflow=0"; }
}
#endif
