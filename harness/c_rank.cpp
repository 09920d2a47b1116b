// rank and select supports of plain bit vectors, every supported bit pattern, against position lists
#include "gen_bv.hpp"
#include <sdsl/bit_vectors.hpp>
#include <sdsl/rank_support.hpp>
#include <sdsl/select_support.hpp>
using namespace sdsl;
namespace
{
// pattern p (1 or 2 bits, first character = earlier bit) ends at position j
bool match(const std::vector<bool>& b, size_t j, const char* p)
{
    size_t l = strlen(p);
    if (j + 1 < l) return false;
    for (size_t k = 0; k < l; ++k) if (b[j - (l - 1) + k] != (p[k] == '1')) return false;
    return true;
}
template <class R> void rank_check(vf::Case& c, const char* name, const char* pat, const bit_vector& bv, const std::vector<bool>& b, const char* info)
{
    R r(&bv);
    std::vector<uint32_t> pre(b.size() + 1, 0);
    for (size_t j = 0; j < b.size(); ++j) pre[j + 1] = pre[j] + match(b, j, pat);
    VF_EQ("size", r.size(), b.size(), "%s<%s> %s", name, pat, info);
    visit(c, 0, b.size() + 1, 3000, [&](uint64_t i) {
        VF_EQ(std::string(name) + "<" + pat + "> rank", r.rank(i), pre[i], "i=%zu %s", (size_t)i, info);
        VF_EQ(std::string(name) + "<" + pat + "> ()", r(i), pre[i], "i=%zu %s", (size_t)i, info);
    });
}
template <class S> void select_check(vf::Case& c, const char* name, const char* pat, const bit_vector& bv, const std::vector<bool>& b, const char* info, int init)
{
    std::vector<uint64_t> pos;
    for (size_t j = 0; j < b.size(); ++j) if (match(b, j, pat)) pos.push_back(j);
    S s(&bv);
    if (init) util::init_support(s, &bv);
    visit(c, 1, pos.size() + 1, 3000, [&](uint64_t i) {
        VF_EQ(std::string(name) + "<" + pat + "> select", s.select(i), pos[i - 1], "i=%zu of %zu %s", (size_t)i, pos.size(), info);
        VF_EQ(std::string(name) + "<" + pat + "> ()", s(i), pos[i - 1], "i=%zu of %zu %s", (size_t)i, pos.size(), info);
    });
}
#if WHAT == 6
void all(vf::Case& c, uint64_t maxn, bool big)
{
    const char* kind;
    std::vector<bool> b = gen_bits(c, maxn, &kind);
    if (big && b.size() < maxn / 2) { b.resize(maxn / 2 + c.rng.below(maxn / 2)); fill_bits(c, b, &kind); }
    bool dirty = c.rng.chance(1, 2);
    bit_vector bv = to_bv(b, dirty);
    char info[128]; snprintf(info, sizeof info, "n=%zu %s%s", b.size(), kind, dirty ? " dirty padding" : "");
    c.desc("%s", info);
    #define R3(T, n) rank_check<T<1,1>>(c, n, "1", bv, b, info); rank_check<T<0,1>>(c, n, "0", bv, b, info); rank_check<T<10,2>>(c, n, "10", bv, b, info); \
        rank_check<T<1,2>>(c, n, "01", bv, b, info); rank_check<T<0,2>>(c, n, "00", bv, b, info); rank_check<T<11,2>>(c, n, "11", bv, b, info);
    R3(rank_support_v, "rank_support_v") R3(rank_support_v5, "rank_support_v5") R3(rank_support_scan, "rank_support_scan")
}
VF_SUITE("rank/small", 1500, 30000) { all(c, 5000, false); }
VF_SUITE("rank/large", 60, 1200) { all(c, 60000, true); }
#else
void all(vf::Case& c, uint64_t maxn, bool big, bool scan)
{
    const char* kind;
    std::vector<bool> b = gen_bits(c, maxn, &kind);
    if (big && b.size() < maxn / 2) { b.resize(maxn / 2 + c.rng.below(maxn / 2)); fill_bits(c, b, &kind); }
    bool dirty = c.rng.chance(1, 2);
    bit_vector bv = to_bv(b, dirty);
    char info[128]; snprintf(info, sizeof info, "n=%zu %s%s", b.size(), kind, dirty ? " dirty padding" : "");
    c.desc("%s", info);
    int init = c.rng.below(2);
    #define S3(T, n) select_check<T<1,1>>(c, n, "1", bv, b, info, init); select_check<T<0,1>>(c, n, "0", bv, b, info, init); select_check<T<10,2>>(c, n, "10", bv, b, info, init); \
        select_check<T<1,2>>(c, n, "01", bv, b, info, init);
    #define S2(T, n) select_check<T<0,2>>(c, n, "00", bv, b, info, init); select_check<T<11,2>>(c, n, "11", bv, b, info, init);
    S3(select_support_mcl, "select_support_mcl") S2(select_support_mcl, "select_support_mcl")
    if (scan) { S3(select_support_scan, "select_support_scan") }
}
VF_SUITE("select/small", 1500, 30000) { all(c, 5000, false, true); }
VF_SUITE("select/large", 80, 1500) { all(c, 250000, true, false); }
// spread the arguments so far apart that superblocks switch to the long representation
VF_SUITE("select/long-superblocks", 12, 200)
{
    uint64_t n = 300000 + c.rng.below(1700000);
    std::vector<bool> b(n);
    bool inv = c.rng.chance(1, 2);
    for (uint64_t i = 0; i < n;) { // dense and sparse stretches alternate
        uint64_t len = 20000 + c.rng.below(500000), gap = c.rng.pick(std::vector<uint64_t>{1, 2, 5, 30, 60, 100, 400});
        for (uint64_t e = std::min(n, i + len); i < e; ++i) b[i] = c.rng.below(gap) == 0;
    }
    if (inv) b.flip();
    c.mixfp(n); c.mixfp(b[n / 2] + 2 * b[n / 3]);
    bit_vector bv = to_bv(b, c.rng.chance(1, 2));
    char info[128]; snprintf(info, sizeof info, "n=%zu mixed density inv=%d", b.size(), inv);
    c.desc("%s", info);
    int init = 0;
    S3(select_support_mcl, "select_support_mcl") S2(select_support_mcl, "select_support_mcl")
}
// one argument of a superblock lies at a power of two, counted from the start of the vector or of the superblock
template <class S> void select_exact(vf::Case& c, const char* pat, const bit_vector& bv, const std::vector<bool>& b, const char* info, uint64_t lo, uint64_t hi)
{
    std::vector<uint64_t> pos;
    for (size_t j = 0; j < b.size(); ++j) if (match(b, j, pat)) pos.push_back(j);
    S s(&bv);
    for (uint64_t i = 1; i <= pos.size(); ++i) if (i <= 3 || i + 3 >= pos.size() || (i >= lo && i <= hi) || c.rng.chance(1, 16))
        VF_EQ(std::string("select_support_mcl<") + pat + "> select", s.select(i), pos[i - 1], "i=%zu of %zu %s", (size_t)i, pos.size(), info);
}
VF_SUITE("select/aligned", 25, 600)
{
    unsigned k = 17 + c.rng.below(4);
    uint64_t P = 1ULL << k, want = P + c.rng.below(3) - 1;
    uint64_t t = c.rng.chance(1, 3) ? 4095 - c.rng.below(3) : c.rng.chance(1, 2) ? 4032 + c.rng.below(64) : c.rng.chance(1, 2) ? c.rng.below(64) * 64 + c.rng.below(2) : c.rng.below(4096);
    bool rel = c.rng.chance(1, 3) && t > 0;
    uint64_t maxgap = std::max<uint64_t>(2, (P - 2) / (t + 1));
    uint64_t g = 2 + (c.rng.chance(1, 4) ? c.rng.below(8) : c.rng.chance(2, 3) ? maxgap - 2 - c.rng.below(maxgap / 8 + 1) : c.rng.below(maxgap - 1));
    g = std::min(g, std::max<uint64_t>(2, maxgap));
    std::vector<uint64_t> a(4096); // arguments of the superblock, relative to its first one
    for (uint64_t i = 1; i < 4096; ++i) a[i] = a[i - 1] + (g > 3 ? g - 1 + c.rng.below(3) - (g / 2 ? c.rng.below(2) : 0) : 2);
    uint64_t before = c.rng.below(3), base;
    if (rel) { // the difference to the first argument is the power of two
        uint64_t d = a[t];
        if (d < want) for (uint64_t i = t; i < 4096; ++i) a[i] += want - d;
        else want = P = d;
        base = 8192 * before + c.rng.below(5000);
    } else {
        while (a[t] > want) { for (auto& y : a) y = y / 2; for (uint64_t i = 1; i < 4096; ++i) a[i] = std::max(a[i], a[i - 1] + 2); if (a[t] > want) break; }
        if (a[t] > want) want = a[t];
        base = want - a[t];
        before = std::min<uint64_t>(before, base / 8192);
    }
    std::vector<uint64_t> pos;
    if (before) { uint64_t step = (base - 1) / (4096 * before); if (step < 2) step = 2; for (uint64_t i = 0; i < 4096 * before; ++i) pos.push_back(i * step); while (pos.size() && pos.back() + 2 > base) base += 2; }
    for (auto y : a) pos.push_back(base + y);
    uint64_t more = c.rng.chance(1, 3) ? 0 : c.rng.below(9000), gap2 = 2 + c.rng.below(60);
    bool cut = c.rng.chance(1, 4); // last superblock incomplete
    for (uint64_t i = 0; i < more; ++i) pos.push_back(pos.back() + gap2);
    if (cut && !more) pos.resize(4096 * before + t + 1);
    std::vector<bool> b(pos.back() + 1 + c.rng.below(3) * c.rng.below(70000));
    for (auto y : pos) b[y] = 1;
    bool inv = c.rng.chance(1, 3);
    if (inv) b.flip();
    c.mixfp(b.size()); c.mixfp(t + 4096 * before + 100000 * g);
    bit_vector bv = to_bv(b, c.rng.chance(1, 2));
    char info[160]; snprintf(info, sizeof info, "n=%zu arg %zu of superblock %zu at %s 2^%u, gap %zu inv=%d", b.size(), (size_t)t, (size_t)before, rel ? "distance" : "position", k, (size_t)g, inv);
    c.desc("%s", info);
    uint64_t lo = 4096 * before + 1, hi = lo + 4096;
    if (inv) select_exact<select_support_mcl<0, 1>>(c, "0", bv, b, info, lo, hi); else select_exact<select_support_mcl<1, 1>>(c, "1", bv, b, info, lo, hi);
    select_exact<select_support_mcl<10, 2>>(c, "10", bv, b, info, lo, hi); select_exact<select_support_mcl<1, 2>>(c, "01", bv, b, info, lo, hi);
}
#endif
}
