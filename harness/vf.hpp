// Tiny case runner shared by every harness: seeded cases, forked workers, crash/hang attribution,
// counters for the evidence file.  Oracles are plain C++ reference models in the harnesses.
#pragma once
#include <cstdarg>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <string>
#include <vector>
#include <functional>
#include <sstream>
#include <algorithm>
#include <type_traits>
#include <utility>

namespace vf
{
inline uint64_t mix64(uint64_t x)
{
    x += 0x9E3779B97F4A7C15ULL;
    x = (x ^ (x >> 30)) * 0xBF58476D1CE4E5B9ULL;
    x = (x ^ (x >> 27)) * 0x94D049BB133111EBULL;
    return x ^ (x >> 31);
}
struct Rng {
    uint64_t s;
    explicit Rng(uint64_t seed = 0) : s(seed) {}
    uint64_t next() { return mix64(s += 0x9E3779B97F4A7C15ULL); }
    uint64_t below(uint64_t n) { return n ? next() % n : 0; }
    uint64_t range(uint64_t a, uint64_t b) { return a + below(b - a + 1); } // inclusive
    bool chance(uint64_t num, uint64_t den) { return below(den) < num; }
    template <class T> const T& pick(const std::vector<T>& v) { return v[below(v.size())]; }
    // size biased to small values and to values near powers of two/word borders
    uint64_t size(uint64_t maxv)
    {
        switch (below(6)) {
            case 0: return below(std::min<uint64_t>(maxv, 4) + 1);
            case 1: return below(std::min<uint64_t>(maxv, 70) + 1);
            case 2: { uint64_t k = below(64 - __builtin_clzll(maxv | 1)) ; uint64_t b = 1ULL << k; uint64_t v = b + below(5); v = v >= 2 ? v - 2 : 0; return std::min(v, maxv); }
            case 3: { uint64_t m = maxv / 64; uint64_t v = 64 * below(m + 1) + below(3); v = v ? v - 1 : 0; return std::min(v, maxv); }
            default: return below(maxv + 1);
        }
    }
    // "interesting" 64 bit word
    uint64_t word()
    {
        switch (below(8)) {
            case 0: return 0;
            case 1: return ~0ULL;
            case 2: return 1ULL << below(64);
            case 3: return ~(1ULL << below(64));
            case 4: return (1ULL << below(64)) - 1;
            case 5: return next() & next() & next();
            case 6: return next() | next() | next();
            default: return next();
        }
    }
};

struct Failure {
    std::string key, msg;
};

struct Case {
    Rng rng;
    const char* suite;
    uint64_t idx;
    bool thorough;
    uint64_t seed;
    uint64_t fp = 0;       // fingerprint of the generated input
    bool nontriv = true;   // set false for degenerate input
    uint64_t checks = 0;
    std::string d;
    Case(const char* s, uint64_t i, bool t, uint64_t sd) : rng(sd), suite(s), idx(i), thorough(t), seed(sd) {}
    void mixfp(uint64_t v) { fp = mix64(fp ^ v); }
    template <class V> void mixv(const V& v) { mixfp(v.size()); for (auto x : v) mixfp((uint64_t)x); }
    void desc(const char* fmt, ...) __attribute__((format(printf, 2, 3)));
    void trivial_if(bool b) { if (b) nontriv = false; }
};

extern Case* cur;
typedef void (*CaseFn)(Case&);
struct Suite {
    std::string name;
    uint64_t quick, thorough;
    std::function<void(Case&)> fn;
};
std::vector<Suite>& suites();
struct Reg {
    Reg(const std::string& name, uint64_t q, uint64_t t, std::function<void(Case&)> fn) { suites().push_back({name, q, t, fn}); }
};
std::string scratch_dir(); // per-process scratch directory (removed by the driver)
std::string workdir();     // run directory
void set_no_mem_limit();

[[noreturn]] void fail(const std::string& key, const char* fmt, ...) __attribute__((format(printf, 2, 3)));

template <class T, class = void> struct show_ { static std::string s(const T&) { return "?"; } };
template <class T> struct show_<T, typename std::enable_if<std::is_arithmetic<T>::value>::type> {
    static std::string s(const T& t) { std::ostringstream o; o << +t; return o.str(); }
};
template <class A, class B> struct show_<std::pair<A, B>, void> {
    static std::string s(const std::pair<A, B>& p) { return "(" + show_<A>::s(p.first) + "," + show_<B>::s(p.second) + ")"; }
};
template <> struct show_<std::string, void> {
    static std::string s(const std::string& p)
    {
        std::string r = "\"";
        for (unsigned char c : p) { if (c < 32 || c > 126) { char b[8]; snprintf(b, 8, "\\x%02x", c); r += b; } else r += c; if (r.size() > 200) break; }
        return r + "\"";
    }
};
template <class E> struct show_<std::vector<E>, void> {
    static std::string s(const std::vector<E>& v)
    {
        std::string r = "[";
        for (size_t i = 0; i < v.size() && i < 40; ++i) r += (i ? "," : "") + show_<E>::s(v[i]);
        return r + (v.size() > 40 ? ",...]" : "]");
    }
};
template <class T> std::string show(const T& t) { return show_<typename std::decay<T>::type>::s(t); }

inline std::string strf(const char* fmt, ...) __attribute__((format(printf, 1, 2)));
inline std::string strf(const char* fmt, ...)
{
    char b[512]; va_list ap; va_start(ap, fmt); vsnprintf(b, sizeof b, fmt, ap); va_end(ap); return b;
}

inline void counted() { if (cur) ++cur->checks; }
} // namespace vf

// oracle comparisons
#define VF_TRUE(key, cond, fmt, ...)                                                        \
    do {                                                                                    \
        vf::counted();                                                                      \
        if (!(cond)) vf::fail(key, "%s:%d " fmt, strrchr("/" __FILE__, '/') + 1, __LINE__, ##__VA_ARGS__); \
    } while (0)
#define VF_EQ(key, got, want, fmt, ...)                                                     \
    do {                                                                                    \
        vf::counted();                                                                      \
        const auto& g__ = (got);                                                            \
        const auto& w__ = (want);                                                           \
        if (!(g__ == w__))                                                                  \
            vf::fail(key, "%s:%d got %s want %s " fmt, strrchr("/" __FILE__, '/') + 1, __LINE__,  \
                     vf::show(g__).c_str(), vf::show(w__).c_str(), ##__VA_ARGS__);          \
    } while (0)
// random access iterators: arithmetic, order and element access agree with indices
namespace vf
{
template <class V, class W> void iter_algebra(Case& c, const V& v, uint64_t n, const W& want, const char* key)
{
    for (int k = 0; k < 3; ++k) {
        int64_t i = (int64_t)c.rng.below(n + 1), j = (int64_t)c.rng.below(n + 1);
        if (k == 2 && j > 0) i = j - 1;
        auto b = v.begin(); auto x = b + i, y = v.end() - ((int64_t)n - j);
        VF_TRUE(key, (int64_t)(y - x) == j - i && (x < y) == (i < j) && (x > y) == (i > j) && (x <= y) == (i <= j) && (x >= y) == (i >= j) && (x == y) == (i == j) && (x != y) == (i != j), "comparisons of iterators %zu %zu", (size_t)i, (size_t)j);
        x += j - i; VF_TRUE(key, x == y, "it += %ld", (long)(j - i));
        x -= j - i; VF_TRUE(key, x == b + i, "it -= %ld", (long)(j - i));
        VF_TRUE(key, x + (j - i) == y && y - (j - i) == x, "it + and - %ld", (long)(j - i));
        if (i < (int64_t)n) {
            VF_EQ(key, (uint64_t)*x, (uint64_t)want(i), "*it at %zu", (size_t)i);
            VF_EQ(key, (uint64_t)b[i], (uint64_t)want(i), "it[%zu]", (size_t)i);
            auto o = x++; VF_TRUE(key, o == b + i && x == b + (i + 1), "it++ at %zu", (size_t)i);
            o = x--; VF_TRUE(key, o == b + (i + 1) && x == b + i, "it-- at %zu", (size_t)i);
            VF_TRUE(key, ++x == b + (i + 1) && --x == b + i, "++it, --it at %zu", (size_t)i);
        }
    }
}
} // namespace vf
#define VF_CAT2(a, b) a##b
#define VF_CAT(a, b) VF_CAT2(a, b)
#define VF_SUITE(name, q, t)                                                                \
    static void VF_CAT(vf_suite_, __LINE__)(vf::Case&);                                     \
    static vf::Reg VF_CAT(vf_reg_, __LINE__)(name, q, t, VF_CAT(vf_suite_, __LINE__));      \
    static void VF_CAT(vf_suite_, __LINE__)(vf::Case& c)
