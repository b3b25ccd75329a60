// Shared vocabulary of the replay/bounded harnesses: every harness drives the real classes of /repo/src through their public
// interface (and, through derived classes, their protected one) and compares them with an independent oracle.
// A failing comparison prints one line "FAIL: <what> | input: <description>" and ends the program with exit code 1.
#pragma once
#include <type_traits>
#include "src/helper/defs.hpp"
#include "src/helper/util.hpp"
#include <cmath>
#include <csignal>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <fstream>
#include <iostream>
#include <limits>
#include <map>
#include <memory>
#include <optional>
#include <set>
#include <sstream>
#include <string>
#include <unistd.h>
#include <vector>

namespace H
{
inline uint64_t g_state = 1;
inline long g_cases = 0;
inline long g_reqs = 0;
inline std::string g_ctx;
inline bool g_thorough = false;
inline std::vector<std::string> g_samples;

inline uint64_t rnd()
{
    uint64_t z = (g_state += 0x9E3779B97F4A7C15ull);
    z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
    z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
    return z ^ (z >> 31);
}
inline int below(int n) { return n <= 0 ? 0 : int(rnd() % uint64_t(n)); }
inline int range(int a, int b) { return a + below(b - a + 1); }
inline bool coin(int pct = 50) { return below(100) < pct; }
// "round" numbers: exact in binary, so that comparisons may be exact
inline double num() { return range(-64, 64) / 4.0; }
inline double pos() { return range(1, 64) / 8.0; }
template<typename T>
inline const T& pick(const std::vector<T>& v) { return v[below(int(v.size()))]; }
template<typename T>
inline void shuffle(std::vector<T>& v)
{
    for (int i = int(v.size()) - 1; i > 0; i--) std::swap(v[i], v[below(i + 1)]);
}

[[noreturn]] inline void fail(const char* file, int line, const std::string& what)
{
    const char* b = std::strrchr(file, '/');
    std::string c = g_ctx;
    for (auto& ch : c) if (ch == '\n') ch = ' ';
    std::string w = what;
    for (auto& ch : w) if (ch == '\n') ch = ' ';
    std::printf("FAIL: %s (%s:%d) | input: %s\n", w.c_str(), b ? b + 1 : file, line, c.c_str());
    std::fflush(stdout);
    _exit(1);
}

inline std::string str(const std::string& s) { return s; }
inline std::string str(const char* s) { return s; }
inline std::string str(bool b) { return b ? "true" : "false"; }
inline std::string str(int i) { return std::to_string(i); }
inline std::string str(unsigned i) { return std::to_string(i); }
inline std::string str(long i) { return std::to_string(i); }
inline std::string str(unsigned long i) { return std::to_string(i); }
inline std::string str(double d)
{
    char b[64];
    std::snprintf(b, sizeof b, "%.17g", d);
    return b;
}
template<typename V>
inline std::string strv(const V& v)
{
    std::string s = "[";
    for (long i = 0; i < long(v.size()); i++) { if (i) s += ", "; s += str(v[i]); }
    return s + "]";
}
template<typename... A>
inline std::string cat(const A&... a)
{
    std::string s;
    ((s += str(a)), ...);
    return s;
}
// a new case; its description is printed if a comparison fails
template<typename... A>
inline void ctx(const A&... a)
{
    if (g_cases && g_samples.size() < 8 && (g_cases & (g_cases - 1)) == 0) g_samples.push_back(g_ctx);
    g_ctx = cat(a...);
    g_cases++;
}
template<typename... A>
inline void also(const A&... a) { g_ctx += cat(a...); }

inline bool same(double a, double b) { return (std::isnan(a) && std::isnan(b)) || a == b; }
inline bool near(double a, double b, double scale = 1.0)
{
    if (same(a, b)) return true;
    return std::fabs(a - b) <= 1e-9 * std::max({std::fabs(a), std::fabs(b), scale});
}

struct NullBuf : std::streambuf
{
    int overflow(int c) override { return c; }
};

void run(); // defined by each harness
} // namespace H

#define REQ(cond, ...)                                                                                                 \
    do { H::g_reqs++; if (!(cond)) H::fail(__FILE__, __LINE__, H::cat(__VA_ARGS__)); } while (0)
#define EQ(a, b, ...)                                                                                                  \
    do { H::g_reqs++; auto _a = (a); auto _b = (b); if (!(_a == _b)) H::fail(__FILE__, __LINE__, H::cat(__VA_ARGS__, ": got ", _a, ", expected ", _b)); } while (0)
#define EQD(a, b, ...)                                                                                                 \
    do { H::g_reqs++; double _a = (a), _b = (b); if (!H::same(_a, _b)) H::fail(__FILE__, __LINE__, H::cat(__VA_ARGS__, ": got ", _a, ", expected ", _b)); } while (0)
#define NEART(a, b, tol, ...)                                                                                          \
    do { H::g_reqs++; double _a = (a), _b = (b); if (!(std::fabs(_a - _b) <= (tol))) H::fail(__FILE__, __LINE__, H::cat(__VA_ARGS__, ": got ", _a, ", expected ", _b)); } while (0)
#define NEAR(a, b, ...)                                                                                                \
    do { H::g_reqs++; double _a = (a), _b = (b); if (!H::near(_a, _b)) H::fail(__FILE__, __LINE__, H::cat(__VA_ARGS__, ": got ", _a, ", expected ", _b)); } while (0)

template<typename F>
inline bool throws(F&& f)
{
    try { f(); }
    catch (const std::exception&) { return true; }
    return false;
}
#define MUST_THROW(expr, ...) REQ(throws([&] { expr; }), __VA_ARGS__)
#define MUST_PASS(expr, ...)                                                                                           \
    do { try { expr; H::g_reqs++; } catch (const std::exception& _x) { H::fail(__FILE__, __LINE__, H::cat(__VA_ARGS__, ": unexpected exception ", _x.what())); } } while (0)

namespace H
{
// a crash, a sanitizer report or a run that does not end: name the input that was being tried
inline void crash_note(const char* what)
{
    static bool done = false;
    if (done) return;
    done = true;
    for (auto& ch : g_ctx) if (ch == '\n') ch = ' ';
    std::string m = std::string("FAIL: ") + what + " | input: " + g_ctx + "\n";
    if (write(1, m.data(), m.size()) < 0) {}
}
inline void on_signal(int s)
{
    crash_note(s == SIGALRM ? "the run does not end" : "the program aborts");
    _exit(1);
}
} // namespace H
#if defined(__SANITIZE_ADDRESS__)
extern "C" void __sanitizer_set_death_callback(void (*)(void));
#endif

int main(int argc, char** argv)
{
#if defined(__SANITIZE_ADDRESS__)
    __sanitizer_set_death_callback([] { H::crash_note("memory or arithmetic error reported by the sanitizer"); });
#else
    std::signal(SIGSEGV, H::on_signal);
    std::signal(SIGFPE, H::on_signal);
#endif
    std::signal(SIGABRT, H::on_signal);
    std::signal(SIGALRM, H::on_signal);
    alarm(argc > 2 ? std::atoi(argv[2]) : 200);
    if (const char* s = std::getenv("VERIF_SEED")) H::g_state = std::strtoull(s, nullptr, 10) * 0x1234567ull + 1;
    H::g_thorough = argc > 1 && std::string(argv[1]) == "thorough";
    static H::NullBuf nb;
    std::cout.rdbuf(&nb);
    try { H::run(); }
    catch (const std::exception& x) { H::fail("main", 0, std::string("unexpected exception: ") + x.what()); }
    std::printf("CASES %ld REQS %ld\n", H::g_cases, H::g_reqs);
    for (auto s : H::g_samples) { for (auto& c : s) if (c == '\n') c = ' '; std::printf("SAMPLE %s\n", s.c_str()); }
    std::fflush(stdout);
    _exit(0);
}
