// objects of more than 2^32 bits: positions, counts and offsets which do not fit into 32 bits
#include "vf.hpp"
#include <sdsl/bit_vectors.hpp>
#include <sdsl/int_vector_buffer.hpp>
#include <sdsl/int_vector_mapper.hpp>
#include <sdsl/nn_dict_dynamic.hpp>
#include <sdsl/nearest_neighbour_dictionary.hpp>
#include <sdsl/sorted_stack_support.hpp>
#include <sdsl/sorted_multi_stack_support.hpp>
#include <sdsl/bp_support.hpp>
#include <sdsl/vectors.hpp>
#include <sdsl/wavelet_trees.hpp>
#include <sdsl/rmq_support.hpp>
#include <functional>
#include <map>
#include <set>
using namespace sdsl;
namespace
{
typedef uint64_t u64;
typedef uint32_t u32;
const u64 G = 1ULL << 32;
// stretches of different density; the words are the model, counted independently with checkpoints
struct HugeBits {
    bit_vector bv; u64 n;
    explicit HugeBits(vf::Case& c, int mode = 0)
    {
        bool sparse = mode == 1, dense = mode == 2; // dense: more than 2^32 ones
        n = G + (dense ? G / 2 : 0) + c.rng.below(1ULL << 27) + 1;
        bv = bit_vector(n, 0);
        u64* p = bv.data(); u64 W = (n + 63) / 64;
        for (u64 i = 0; i < W;) {
            u64 len = 1 + c.rng.below(1ULL << (sparse ? 16 : c.rng.range(4, 22))); unsigned k = c.rng.below(sparse ? 12 : 6); if (dense && c.rng.chance(3, 4)) k = 1 + c.rng.below(2) * 3;
            if (sparse && k < 8) { i += len * 16; continue; }
            for (u64 e = std::min(W, i + len); i < e; ++i)
                switch (k) {
                    case 0: break;
                    case 1: p[i] = ~0ULL; break;
                    case 2: p[i] = c.rng.next(); break;
                    case 3: p[i] = c.rng.next() & c.rng.next() & c.rng.next(); break;
                    case 4: p[i] = c.rng.next() | c.rng.next() | c.rng.next(); break;
                    default: p[i] = i % 5 ? 0 : 1ULL << (i % 64);
                }
        }
        if (n % 64) p[W - 1] &= (1ULL << n % 64) - 1;
        c.mixfp(n); c.mixfp(p[W / 2]);
        c.desc("%zu bits%s", (size_t)n, sparse ? ", sparse" : dense ? ", dense" : "");
    }
    u64 words() const { return (n + 63) / 64; }
};
// positions at which a pattern ends
struct Count {
    const HugeBits& h; std::string pat; std::vector<u64> cp; u64 total = 0; static const u64 B = 1 << 14;
    u64 mask(u64 i) const
    {
        const u64* p = h.bv.data(); u64 w = p[i], v = pat.back() == '1' ? w : ~w;
        if (pat.size() == 2) { u64 prev = (w << 1) | (i ? p[i - 1] >> 63 : 0); v &= pat[0] == '1' ? prev : ~prev; if (i == 0) v &= ~1ULL; }
        u64 rest = h.n - 64 * i; return rest >= 64 ? v : v & ((1ULL << rest) - 1);
    }
    Count(const HugeBits& h_, const char* p) : h(h_), pat(p)
    {
        for (u64 i = 0; i < h.words(); ++i) { if (i % B == 0) cp.push_back(total); total += __builtin_popcountll(mask(i)); }
        cp.push_back(total);
    }
    u64 rank(u64 i) const
    {
        u64 w = i / 64, r = cp[w / B];
        for (u64 k = w / B * B; k < w; ++k) r += __builtin_popcountll(mask(k));
        return i % 64 ? r + __builtin_popcountll(mask(w) & ((1ULL << i % 64) - 1)) : r;
    }
    bool at(u64 i) const { return mask(i / 64) >> (i % 64) & 1; }
};
template <class F> void positions(vf::Case& c, u64 lo, u64 hi, int k, F f) // [lo..hi], with all borders
{
    for (u64 b : {(u64)0, (u64)1 << 31, G, hi}) for (int d = -3; d <= 3; ++d) if (b + d >= lo && b + d <= hi) f(b + d);
    for (int q = 0; q < k; ++q) f(c.rng.chance(1, 2) && hi > G ? G + c.rng.below(hi - G + 1) : lo + c.rng.below(hi - lo + 1));
}
template <class R> void rank_huge(vf::Case& c, const char* pat, const R& r, const HugeBits& h)
{
    Count m(h, pat);
    positions(c, 0, h.n, 1500, [&](u64 i) { VF_EQ("rank", (u64)r.rank(i), m.rank(i), "pattern %s i=%zu n=%zu", pat, (size_t)i, (size_t)h.n); });
}
template <class S> void select_huge(vf::Case& c, const char* pat, const S& s, const HugeBits& h)
{
    Count m(h, pat);
    if (!m.total) return;
    positions(c, 1, m.total, 1500, [&](u64 i) {
        u64 x = s.select(i);
        VF_TRUE("select", x < h.n && m.rank(x) == i - 1 && m.at(x), "pattern %s i=%zu of %zu: got %zu", pat, (size_t)i, (size_t)m.total, (size_t)x);
    });
}
#if WHAT == 6
#define RK(T, b, l, pat) static vf::Reg VF_CAT(r, __LINE__)("huge/" #T "<" #b "," #l ">", 1, 4, [](vf::Case& c) { HugeBits h(c, pat == std::string("1") ? 2 : 0); T<b, l> r(&h.bv); rank_huge(c, pat, r, h); });
RK(rank_support_v, 1, 1, "1")
RK(rank_support_v, 10, 2, "10")
RK(rank_support_v5, 1, 1, "1")
RK(rank_support_v5, 0, 1, "0")
RK(rank_support_v5, 1, 2, "01")
#elif WHAT == 7
#define SL(T, b, l, pat, sparse) static vf::Reg VF_CAT(r, __LINE__)("huge/" #T "<" #b "," #l ">" #sparse, 1, 3, [](vf::Case& c) { HugeBits h(c, sparse); T<b, l> s(&h.bv); select_huge(c, pat, s, h); });
SL(select_support_mcl, 1, 1, "1", 2)
SL(select_support_mcl, 0, 1, "0", 0)
SL(select_support_mcl, 1, 1, "1", 1)
SL(select_support_mcl, 10, 2, "10", 1)
#elif WHAT == 8
template <class V> void vec(vf::Case& c, int sparse)
{
    HugeBits h(c, sparse);
    V v(h.bv);
    VF_EQ("size", (u64)v.size(), h.n, "");
    positions(c, 0, h.n - 1, 3000, [&](u64 i) { VF_EQ("[]", (int)v[i], (int)h.bv[i], "i=%zu", (size_t)i); });
    positions(c, 0, h.n - 64, 500, [&](u64 i) { VF_EQ("get_int", (u64)v.get_int(i, 64), (u64)h.bv.get_int(i, 64), "i=%zu", (size_t)i); });
    typename V::rank_1_type r1(&v); rank_huge(c, "1", r1, h);
    typename V::select_1_type s1(&v); select_huge(c, "1", s1, h);
}
template <class V> void vec0(vf::Case& c, int sparse)
{
    HugeBits h(c, sparse);
    V v(h.bv);
    typename V::rank_0_type r0(&v); rank_huge(c, "0", r0, h);
    typename V::select_0_type s0(&v); select_huge(c, "0", s0, h);
}
static vf::Reg r1("huge/bit_vector_il<512>", 1, 3, [](vf::Case& c) { vec<bit_vector_il<512>>(c, 2); });
static vf::Reg r2("huge/bit_vector_il<64> zeros", 1, 3, [](vf::Case& c) { vec0<bit_vector_il<64>>(c, true); });
static vf::Reg r3("huge/rrr_vector<63>", 1, 3, [](vf::Case& c) { vec<rrr_vector<63>>(c, 2); });
static vf::Reg r4("huge/rrr_vector<15> zeros", 1, 3, [](vf::Case& c) { vec0<rrr_vector<15>>(c, true); });
static vf::Reg r5("huge/rrr_vector<15>", 1, 3, [](vf::Case& c) { vec<rrr_vector<15>>(c, true); });
static vf::Reg r6("huge/sd_vector", 1, 3, [](vf::Case& c) { vec<sd_vector<>>(c, true); });
static vf::Reg r7("huge/hyb_vector", 1, 3, [](vf::Case& c) {
    HugeBits h(c, 2); hyb_vector<16> v(h.bv); hyb_vector<16>::rank_1_type r(&v); rank_huge(c, "1", r, h);
    positions(c, 0, h.n - 1, 3000, [&](u64 i) { VF_EQ("[]", (int)v[i], (int)h.bv[i], "i=%zu", (size_t)i); });
});
// few ones in a universe of up to 2^62 positions
static void universe(vf::Case& c)
{
    u64 m = 1 + c.rng.below(3000), n, x = 0; std::vector<u64> p; unsigned k = (unsigned)c.rng.range(20, 50);
    bool dense = c.rng.chance(1, 4);
    for (u64 i = 0; i < m; ++i) { x += c.rng.below(1ULL << (dense ? 3 : c.rng.range(1, k))); if (p.empty() || p.back() < x) p.push_back(x); if (c.rng.chance(1, 8)) p.push_back(x = p.back() + 1); ++x; }
    m = p.size(); n = p.back() + 1;
    c.desc("%zu ones below %zu", (size_t)m, (size_t)n); c.mixfp(n); c.mixfp(p[m / 2]); c.nontriv = m > 3;
    u64 ext = c.rng.chance(1, 2) ? 0 : c.rng.below(1ULL << c.rng.range(1, 60));
    sd_vector<> v;
    if (ext == 0) v = sd_vector<>(p.begin(), p.end());
    else { sd_vector_builder b(n + ext, m); for (u64 q : p) b.set(q); v = sd_vector<>(b); n += ext; }
    VF_EQ("size", (u64)v.size(), n, "");
    sd_vector<>::rank_1_type r1(&v); sd_vector<>::rank_0_type r0(&v); sd_vector<>::select_1_type s1(&v);
    for (u64 i = 0; i < m; ++i) VF_EQ("select", (u64)s1.select(i + 1), p[i], "i=%zu", (size_t)i + 1);
    auto q = [&](u64 i) {
        if (i > n) return;
        u64 w = std::lower_bound(p.begin(), p.end(), i) - p.begin();
        VF_EQ("rank", (u64)r1.rank(i), w, "i=%zu n=%zu", (size_t)i, (size_t)n); VF_EQ("rank_0", (u64)r0.rank(i), i - w, "i=%zu n=%zu", (size_t)i, (size_t)n);
        if (i < n) VF_EQ("[]", (int)v[i], (int)(w < m && p[w] == i), "i=%zu n=%zu", (size_t)i, (size_t)n);
        if (i + 64 <= n) { u64 x = 0; for (u64 j = w; j < m && p[j] < i + 64; ++j) x |= 1ULL << (p[j] - i); VF_EQ("get_int", (u64)v.get_int(i, 64), x, "i=%zu n=%zu", (size_t)i, (size_t)n); }
    };
    for (u64 x : p) { q(x); q(x + 1); if (x) q(x - 1); if (x >= 63) q(x - 63); }
    for (int i = 0; i < 500; ++i) q(c.rng.below(n + 1));
    q(n); q(0);
    std::string f = vf::scratch_dir() + "/sd"; store_to_file(v, f); sd_vector<> y; VF_TRUE("load", load_from_file(y, f), " "); sdsl::remove(f);
    sd_vector<>::select_1_type s2(&y); for (u64 i = 0; i < m; i += 7) VF_EQ("reloaded select", (u64)s2.select(i + 1), p[i], "i=%zu", (size_t)i + 1);
}
static vf::Reg r8("huge/sd_vector universe", 40, 400, universe);
#elif WHAT == 10
inline u64 mixv(u64 x) { x ^= x >> 31; x *= 0x9e3779b97f4a7c15ULL; x ^= x >> 29; x *= 0xbf58476d1ce4e5b9ULL; return x ^ (x >> 32); }
template <class V> void vec(vf::Case& c, u64 n, unsigned bits)
{
    u64 k = c.rng.next(); n += c.rng.below(1000000); c.desc("%zu values of up to %u bits", (size_t)n, bits); c.mixfp(k); c.mixfp(n);
    auto f = [&](u64 i) { return mixv(i + k) >> (64 - bits) >> (mixv(i * 3 + k) % 3 == 0 ? mixv(i * 7 + k) % (bits - 1) : 0); };
    V v;
    { int_vector<64> a(n); for (u64 i = 0; i < n; ++i) a[i] = f(i); V t(a); v.swap(t); }
    VF_EQ("size", (u64)v.size(), n, "");
    positions(c, 0, n - 1, 200000, [&](u64 i) { VF_EQ("[]", (u64)v[i], f(i), "i=%zu n=%zu", (size_t)i, (size_t)n); });
    for (u64 i = n - 20000; i < n; ++i) VF_EQ("[]", (u64)v[i], f(i), "i=%zu n=%zu", (size_t)i, (size_t)n);
    VF_TRUE("really huge", size_in_bytes(v) > G / 8, "%zu bytes", (size_t)size_in_bytes(v));
}
static vf::Reg r1("huge/enc_vector", 1, 3, [](vf::Case& c) { vec<enc_vector<>>(c, 78000000, 64); });
static vf::Reg r2("huge/enc_vector<fibonacci>", 0, 2, [](vf::Case& c) { vec<enc_vector<coder::fibonacci, 64>>(c, 60000000, 60); });
static vf::Reg r3("huge/vlc_vector", 1, 3, [](vf::Case& c) { vec<vlc_vector<>>(c, 78000000, 63); });
static vf::Reg r4("huge/dac_vector", 1, 3, [](vf::Case& c) { vec<dac_vector<>>(c, 70000000, 64); });
static vf::Reg r5("huge/dac_vector<8,v5>", 0, 1, [](vf::Case& c) { vec<dac_vector<8, rank_support_v5<>>>(c, 78000000, 64); });
#elif WHAT == 11
// a block repeated: counts and positions have a closed form
template <class W> void wt(vf::Case& c, u64 n, unsigned bits)
{
    const u64 L = 1 << 18; std::vector<u32> a(L); std::map<u32, std::vector<u32>> occ;
    for (u64 i = 0; i < L; ++i) { a[i] = c.rng.below(1ULL << bits); if (bits == 8 && a[i] == 0) a[i] = 1; occ[a[i]].push_back(i); }
    n += c.rng.below(1000000); c.desc("%zu symbols of %u bits", (size_t)n, bits); c.mixfp(n); c.mixfp(a[77]);
    W w;
    {
        std::string f = vf::scratch_dir() + "/hugewt";
        int_vector<W::alphabet_category::WIDTH> v(n, 0, W::alphabet_category::WIDTH ? W::alphabet_category::WIDTH : bits); for (u64 i = 0; i < n; ++i) v[i] = a[i % L];
        store_to_file(v, f); v = decltype(v)();
        int_vector_buffer<W::alphabet_category::WIDTH> b(f); W t(b, n); w.swap(t); b.close(true);
    }
    VF_EQ("size", (u64)w.size(), n, "");
    auto rk = [&](u64 i, u32 s) { auto& o = occ[s]; return i / L * o.size() + (std::lower_bound(o.begin(), o.end(), i % L) - o.begin()); };
    positions(c, 0, n - 1, 3000, [&](u64 i) {
        u32 s = a[i % L]; VF_EQ("[]", (u64)w[i], (u64)s, "i=%zu n=%zu", (size_t)i, (size_t)n);
        VF_EQ("rank", (u64)w.rank(i, s), (u64)rk(i, s), "i=%zu n=%zu c=%u", (size_t)i, (size_t)n, s);
        auto is = w.inverse_select(i); VF_TRUE("inverse_select", is.first == rk(i, s) && is.second == s, "i=%zu n=%zu c=%u", (size_t)i, (size_t)n, s);
        VF_EQ("select", (u64)w.select(rk(i, s) + 1, s), i, "n=%zu c=%u", (size_t)n, s);
        u32 t = a[c.rng.below(L)]; VF_EQ("rank", (u64)w.rank(i, t), (u64)rk(i, t), "i=%zu n=%zu c=%u", (size_t)i, (size_t)n, t);
    });
    for (int k = 0; k < 100; ++k) { u32 t = a[c.rng.below(L)]; VF_EQ("rank", (u64)w.rank(n, t), (u64)rk(n, t), "n=%zu c=%u", (size_t)n, t); }
}
static vf::Reg r1("huge/wt_blcd", 0, 1, [](vf::Case& c) { wt<wt_blcd<>>(c, G / 8 + 100000000, 8); });
static vf::Reg r2("huge/wt_huff", 0, 1, [](vf::Case& c) { wt<wt_huff<>>(c, G / 8 + 100000000, 8); });
static vf::Reg r3("huge/wt_int", 0, 1, [](vf::Case& c) { wt<wt_int<>>(c, G / 17 + 1000, 17); });
static vf::Reg r4("huge/wm_int", 0, 1, [](vf::Case& c) { wt<wm_int<>>(c, G / 17 + 1000, 17); });
#elif WHAT == 19
template <class R> void rmq(vf::Case& c, bool mn)
{
    const u64 L = 1 << 16; std::vector<uint8_t> a(L); for (auto& x : a) x = 1 + c.rng.below(2) * c.rng.below(3);
    std::vector<u32> nx(2 * L); { u32 last = ~0U; for (u64 i = 2 * L; i-- > 0;) { if (a[i % L] == (mn ? 1 : 3)) last = i; nx[i] = last; } }
    u64 n = G / 2 + 1000 + c.rng.below(10000000); std::vector<u64> z; c.desc("%zu elements", (size_t)n); c.mixfp(n); c.mixfp(nx[5]);
    if (!mn) for (auto& x : a) if (x == 0) x = 1;
    int_vector<2> v(n); for (u64 i = 0; i < n; ++i) v[i] = mn ? a[i % L] : a[i % L] - 1;
    { std::set<u64> s{0, n - 1, G / 2, G / 2 - 1}; for (int i = 0; i < 300; ++i) s.insert(c.rng.below(n)); for (int i = 0; i < 30; ++i) s.insert(G / 2 - 5 + c.rng.below(n - G / 2)); z.assign(s.begin(), s.end()); }
    for (u64 x : z) v[x] = mn ? 0 : 3;
    R r(&v);
    VF_EQ("size", (u64)r.size(), n, "");
    auto q = [&](u64 l, u64 h) {
        auto it = std::lower_bound(z.begin(), z.end(), l); u64 want;
        if (it != z.end() && *it <= h) want = *it;
        else { u64 e = nx[l % L] == ~0U ? ~0ULL : l + (nx[l % L] - l % L); if (e <= h) want = e; else { want = l; for (u64 i = l; i <= h; ++i) if (mn ? v[i] < v[want] : v[i] > v[want]) want = i; } }
        VF_EQ("rmq", (u64)r(l, h), want, "[%zu..%zu] n=%zu", (size_t)l, (size_t)h, (size_t)n);
    };
    q(0, n - 1); q(1, n - 1); q(1, n - 2); q(n - 1, n - 1);
    for (int k = 0; k < 3000; ++k) { u64 l = c.rng.chance(1, 2) ? G / 2 - 5 + c.rng.below(n - G / 2 + 5) : c.rng.below(n), h = l + c.rng.below(std::min<u64>(n - l, 1 + (1ULL << c.rng.range(0, 32)))); q(l, h); }
}
static vf::Reg r1("huge/rmq_succinct_sct<min>", 0, 1, [](vf::Case& c) { rmq<rmq_succinct_sct<true>>(c, true); });
static vf::Reg r2("huge/rmq_succinct_sct<max>", 0, 1, [](vf::Case& c) { rmq<rmq_succinct_sct<false>>(c, false); });
#elif WHAT == 3
template <class V> void vecs(vf::Case& c, unsigned w)
{
    u64 n0 = (G - c.rng.below(5000)) / w, n1 = (G + 10000 + c.rng.below(1 << 20)) / w; u64 full = w == 64 ? ~0ULL : (1ULL << w) - 1;
    c.desc("width %u, %zu -> %zu elements", w, (size_t)n0, (size_t)n1); c.mixfp(n0); c.mixfp(n1);
    V v(n0, 0, w);
    v.resize(n1); // across the border
    VF_TRUE("size", v.size() == n1 && v.bit_size() == n1 * w && v.capacity() >= n1 * w, "%zu", (size_t)v.size());
    std::map<u64, u64> m;
    for (int k = 0; k < 20000; ++k) { u64 i = c.rng.chance(1, 2) ? n1 - 1 - c.rng.below(10000 / w) : c.rng.chance(1, 3) ? c.rng.below(20000 / w) : c.rng.below(n1), x = c.rng.next() & full; v[i] = x; m[i] = x; }
    auto verify = [&](const V& y, const char* what) {
        for (auto& e : m) { VF_EQ(what, (u64)y[e.first], e.second, "i=%zu", (size_t)e.first); if (!m.count(e.first + 1) && e.first + 1 < n1) VF_EQ(what, (u64)y[e.first + 1], (u64)0, "i=%zu", (size_t)e.first + 1); }
        u64 sum = 0, want = 0; for (u64 i = 0; i < (n1 * w + 63) / 64; ++i) sum += __builtin_popcountll(y.data()[i]);
        for (auto& e : m) want += __builtin_popcountll(e.second);
        if (std::string(what) != "[]") VF_EQ(what, sum, want, "number of 1 bits");
    };
    verify(v, "[]");
    auto e_ = v.end(), b_ = v.begin(); VF_EQ("iterator", (u64)(e_ - b_), n1, "");
    for (int k = 0; k < 500; ++k) { u64 i = n1 - 1 - c.rng.below(10000 / w); VF_EQ("iterator +", (u64)*(v.begin() + i), (u64)v[i], "i=%zu", (size_t)i); VF_EQ("iterator -", (u64)*(v.end() - (n1 - i)), (u64)v[i], "i=%zu", (size_t)i); }
    V y(v);
    verify(y, "copy");
    VF_TRUE("==", y == v, "copy");
    u64 q = n1 - 1 - c.rng.below(5000 / w); y[q] = y[q] ^ 1;
    VF_TRUE("== behind 2^32 bits", !(y == v) && y != v && (y < v) != (v < y), "changed at %zu", (size_t)q);
    std::string f = vf::scratch_dir() + "/huge";
    VF_TRUE("store", store_to_file(v, f), " ");
    y = V(); VF_TRUE("load", load_from_file(y, f), " ");
    VF_EQ("load size", (u64)y.size(), n1, "");
    sdsl::remove(f);
    verify(y, "load");
    y.resize(n0); VF_EQ("resize", (u64)y.size(), n0, ""); y.resize(n1); m.erase(m.lower_bound(n0), m.end());
    verify(y, "[]");
    util::set_to_value(y, full & 5);
    positions(c, 0, n1 - 1, 2000, [&](u64 i) { VF_EQ("set_to_value", (u64)y[i], full & 5, "i=%zu", (size_t)i); });
}
static vf::Reg r1("huge/bit_vector", 1, 3, [](vf::Case& c) { vecs<bit_vector>(c, 1); });
static vf::Reg r2("huge/int_vector<>", 1, 3, [](vf::Case& c) { unsigned w = c.rng.pick(std::vector<unsigned>{3, 7, 13, 33}); vecs<int_vector<>>(c, w); });
static vf::Reg r3("huge/int_vector<8>", 1, 3, [](vf::Case& c) { vecs<int_vector<8>>(c, 8); });
static vf::Reg r4("huge/next_bit", 1, 2, [](vf::Case& c) {
    u64 n = G + 100000; bit_vector b(n, 0); std::vector<u64> p;
    for (u64 x : {(u64)5, G - 70, G - 1, G + 64, G + 99000}) { b[x] = 1; p.push_back(x); }
    c.desc("five bits in %zu", (size_t)n);
    VF_EQ("cnt_one_bits", (u64)util::cnt_one_bits(b), (u64)5, "");
    for (size_t i = 1; i < p.size(); ++i) { VF_EQ("next_bit", (u64)util::next_bit(b, p[i - 1] + 1), p[i], "after %zu", (size_t)p[i - 1]); VF_EQ("prev_bit", (u64)util::prev_bit(b, p[i] - 1), p[i - 1], "before %zu", (size_t)p[i]); }
});
#elif WHAT == 4
static vf::Reg r1("huge/int_vector_buffer", 1, 3, [](vf::Case& c) {
    unsigned w = c.idx % 2 ? 7 : 1; std::string f = vf::scratch_dir() + "/hugebuf"; u64 n = (G + 5000 + c.rng.below(1000000)) / w, full = (1ULL << w) - 1;
    c.desc("width %u, %zu elements", w, (size_t)n); c.mixfp(n);
    std::map<u64, u64> m;
    {
        int_vector_buffer<> b(f, std::ios::out, 1 << 20, w);
        for (u64 i : {(u64)3, n / 2, n - 1}) { b[i] = full; m[i] = full; } // gaps are filled with zeros
        for (int k = 0; k < 60; ++k) { u64 i = c.rng.below(n), x = c.rng.next() & full; b[i] = x; m[i] = x; }
        b.push_back(full); m[n] = full;
        VF_EQ("size", (u64)b.size(), n + 1, "");
        for (auto& e : m) VF_EQ("[]", (u64)b[e.first], e.second, "i=%zu", (size_t)e.first);
    }
    VF_EQ("file size", (u64)util::file_size(f), 9 + ((n + 1) * w + 63) / 64 * 8, "");
    { int_vector_buffer<> b(f, std::ios::in, 1 << 16); VF_EQ("reopened size", (u64)b.size(), n + 1, ""); for (auto& e : m) VF_EQ("reopened", (u64)b[e.first], e.second, "i=%zu", (size_t)e.first); VF_EQ("end", (u64)(b.end() - b.begin()), n + 1, ""); }
    int_vector<> v; VF_TRUE("load", load_from_file(v, f), " ");
    VF_EQ("load size", (u64)v.size(), n + 1, ""); u64 sum = 0, want = 0; for (auto& e : m) { VF_EQ("loaded", (u64)v[e.first], e.second, "i=%zu", (size_t)e.first); want += __builtin_popcountll(e.second); }
    for (u64 i = 0; i < v.capacity() / 64; ++i) sum += __builtin_popcountll(v.data()[i]);
    VF_EQ("loaded", sum, want, "number of 1 bits");
    sdsl::remove(f);
});
#elif WHAT == 5
static vf::Reg r1("huge/int_vector_mapper", 1, 3, [](vf::Case& c) {
    unsigned w = c.idx % 2 ? 5 : 1; std::string f = vf::scratch_dir() + "/hugemap"; u64 n0 = 1000, n = (G + 5000 + c.rng.below(1000000)) / w, full = (1ULL << w) - 1;
    c.desc("width %u, %zu elements", w, (size_t)n); c.mixfp(n);
    { int_vector<> v(n0, 1, w); store_to_file(v, f); }
    std::map<u64, u64> m;
    {
        int_vector_mapper<> a(f);
        a.resize(n);
        VF_EQ("size", (u64)a.size(), n, "");
        for (int k = 0; k < 3000; ++k) { u64 i = k % 2 ? n - 1 - c.rng.below(4000 / w) : n0 + c.rng.below(n - n0), x = c.rng.next() & full; a[i] = x; m[i] = x; }
        a.push_back(full); m[n] = full; a.push_back(1); m[n + 1] = 1;
        for (auto& e : m) VF_EQ("[]", (u64)a[e.first], e.second, "i=%zu", (size_t)e.first);
        VF_EQ("end", (u64)(a.end() - a.begin()), n + 2, "");
    }
    VF_EQ("file size", (u64)util::file_size(f), 9 + ((n + 2) * w + 63) / 64 * 8, "");
    { const int_vector_mapper<0, std::ios_base::in> a(f); VF_EQ("reopened size", (u64)a.size(), n + 2, ""); for (auto& e : m) VF_EQ("reopened", (u64)a[e.first], e.second, "i=%zu", (size_t)e.first); for (u64 i = 0; i < n0; ++i) VF_EQ("reopened", (u64)a[i], (u64)1, "i=%zu", (size_t)i); }
    { int_vector_mapper<> a(f); a.resize(n0); }
    VF_EQ("file size", (u64)util::file_size(f), 9 + (n0 * w + 63) / 64 * 8, "");
    sdsl::remove(f);
});
#elif WHAT == 22
static vf::Reg r1("huge/nn_dict_dynamic", 1, 3, [](vf::Case& c) {
    u64 n = G + c.rng.below(1ULL << 30) + 1; nn_dict_dynamic d(n); std::set<u64> s; c.desc("%zu bits", (size_t)n); c.mixfp(n);
    for (int k = 0; k < 3000; ++k) {
        u64 i = c.rng.chance(1, 2) ? G - 5000 + c.rng.below(std::min<u64>(10000, n - G + 5000)) : c.rng.below(n);
        if (c.rng.chance(1, 3) && !s.empty()) { auto it = s.lower_bound(i); if (it != s.end()) { d[*it] = 0; s.erase(it); } } else { d[i] = 1; s.insert(i); }
        u64 q = c.rng.below(n); auto it = s.lower_bound(q);
        VF_EQ("next", (u64)d.next(q), it == s.end() ? n : *it, "i=%zu n=%zu", (size_t)q, (size_t)n);
        auto jt = s.upper_bound(i); VF_EQ("prev", (u64)d.prev(i), jt == s.begin() ? n : *--jt, "i=%zu n=%zu", (size_t)i, (size_t)n);
        VF_EQ("[]", (bool)d[i], s.count(i) > 0, "i=%zu", (size_t)i);
    }
    VF_EQ("size", (u64)d.size(), n, "");
});
static vf::Reg r2("huge/nearest_neighbour_dictionary", 1, 3, [](vf::Case& c) {
    u64 n = G + c.rng.below(1ULL << 24) + 1; bit_vector b(n, 0); std::vector<u64> p; c.desc("%zu bits", (size_t)n); c.mixfp(n);
    for (u64 x = c.rng.below(1000); x < n; x += c.rng.chance(1, 50) ? c.rng.below(1ULL << 25) : 1 + c.rng.below(3000)) { b[x] = 1; p.push_back(x); }
    nearest_neighbour_dictionary<32> d(b);
    VF_TRUE("size", d.size() == n && d.ones() == p.size(), "%zu ones", p.size());
    for (int k = 0; k < 4000; ++k) {
        size_t i = k < 20 ? p.size() - 1 - k : c.rng.below(p.size());
        VF_EQ("select", (u64)d.select(i + 1), p[i], "i=%zu", i + 1);
        VF_EQ("rank", (u64)d.rank(p[i]), (u64)i, "x=%zu", (size_t)p[i]);
        u64 x = c.rng.chance(1, 2) ? G + c.rng.below(n - G) : c.rng.below(n);
        auto it = std::upper_bound(p.begin(), p.end(), x);
        if (it != p.begin()) VF_EQ("prev", (u64)d.prev(x), *(it - 1), "x=%zu", (size_t)x);
        it = std::lower_bound(p.begin(), p.end(), x);
        if (it != p.end()) VF_EQ("next", (u64)d.next(x), *it, "x=%zu", (size_t)x);
    }
});
static vf::Reg r3("huge/stacks", 1, 3, [](vf::Case& c) {
    u64 n = G + c.rng.below(1ULL << 30) + 1; sorted_stack_support s(n); sorted_multi_stack_support ms(n); std::vector<u64> m; c.desc("stacks for %zu", (size_t)n); c.mixfp(n);
    for (int k = 0; k < 20000; ++k) {
        if (m.empty() || c.rng.chance(11, 20)) { u64 lo = m.empty() ? 0 : m.back() + 1; if (lo >= n) { s.pop(); ms.pop(); m.pop_back(); continue; } u64 x = lo + c.rng.below(std::min<u64>(n - lo, c.rng.chance(1, 2) ? 100 : 1 << 24)); s.push(x); ms.push(x); m.push_back(x); }
        else { s.pop(); ms.pop(); m.pop_back(); }
        VF_EQ("size", (u64)s.size(), (u64)m.size(), "");
        if (!m.empty()) { VF_EQ("top", (u64)s.top(), m.back(), "size %zu", m.size()); VF_EQ("multi top", (u64)ms.top(), m.back(), "size %zu", m.size()); }
    }
});
#elif WHAT == 18
// ( A A A ... A ) with a random balanced A, or a deep spine ((( B ))) around a random balanced B
template <class S> void bp(vf::Case& c, bool deep)
{
    const u64 L = 1 << 20; std::vector<uint8_t> a(L); std::vector<u32> mate(L), st; std::vector<int> ex(L); std::vector<u64> par(L, ~0ULL);
    { u64 open = 0, left = L / 2; for (u64 i = 0; i < L; ++i) { bool o = left && (open == 0 || c.rng.chance(1, 2)); if (left == 0) o = false; a[i] = o; if (o) { ++open; --left; } else --open; } }
    { int e = 0; for (u64 i = 0; i < L; ++i) { if (a[i]) { par[i] = st.empty() ? ~0ULL : st.back(); st.push_back(i); ++e; } else { mate[i] = st.back(); mate[st.back()] = i; st.pop_back(); --e; } ex[i] = e; } }
    u64 reps, pre;
    if (deep) { reps = 1; pre = G / 2 + 1000 + c.rng.below(100000); } else { reps = G / L + 2; pre = 1; }
    u64 n = 2 * pre + reps * L;
    c.desc("%zu parentheses, %s", (size_t)n, deep ? "deep" : "wide"); c.mixfp(n); c.mixfp(ex[L / 2]);
    bit_vector b(n, 0);
    auto set = [&](u64 lo, u64 hi) { for (u64 i = lo; i < hi;) if (i % 64 == 0 && i + 64 <= hi) { b.data()[i / 64] = ~0ULL; i += 64; } else b[i++] = 1; };
    set(0, pre);
    { bit_vector A(L, 0); for (u64 i = 0; i < L; ++i) A[i] = a[i]; for (u64 q = 0; q < reps; ++q) for (u64 i = 0; i < L; i += 64) b.set_int(pre + q * L + i, A.get_int(i, 64), 64); }
    auto isopen = [&](u64 i) { return i < pre || (i < n - pre && a[(i - pre) % L]); };
    auto M = [&](u64 i) { if (i < pre || i >= n - pre) return n - 1 - i; u64 q = (i - pre) / L; return pre + q * L + mate[(i - pre) % L]; };
    auto E = [&](u64 i) -> u64 { if (i < pre) return i + 1; if (i >= n - pre) return n - 1 - i; return pre + ex[(i - pre) % L]; };
    auto P = [&](u64 i) -> u64 { if (i < pre) return i ? i - 1 : n; u64 p = par[(i - pre) % L]; return p == ~0ULL ? pre - 1 : pre + (i - pre) / L * L + p; };
    S s(&b);
    VF_EQ("size", (u64)s.size(), n, "");
    positions(c, 0, n - 1, 1500, [&](u64 i) {
        VF_EQ("excess", (u64)s.excess(i), E(i), "i=%zu n=%zu", (size_t)i, (size_t)n);
        VF_EQ("rank", (u64)s.rank(i), (i + 1 + E(i)) / 2, "i=%zu", (size_t)i);
        if (isopen(i)) {
            VF_EQ("find_close", (u64)s.find_close(i), M(i), "i=%zu n=%zu", (size_t)i, (size_t)n);
            VF_EQ("enclose", (u64)s.enclose(i), P(i), "i=%zu n=%zu", (size_t)i, (size_t)n);
            VF_EQ("select", (u64)s.select((i + 1 + E(i)) / 2), i, "i=%zu", (size_t)i);
        } else VF_EQ("find_open", (u64)s.find_open(i), M(i), "i=%zu n=%zu", (size_t)i, (size_t)n);
    });
}
static vf::Reg r1("huge/bp_support_sada wide", 1, 2, [](vf::Case& c) { bp<bp_support_sada<>>(c, false); });
static vf::Reg r2("huge/bp_support_sada deep", 1, 2, [](vf::Case& c) { bp<bp_support_sada<>>(c, true); });
static vf::Reg r3("huge/bp_support_g wide", 1, 2, [](vf::Case& c) { bp<bp_support_g<>>(c, false); });
static vf::Reg r4("huge/bp_support_gg deep", 1, 2, [](vf::Case& c) { bp<bp_support_gg<>>(c, true); });
static vf::Reg r5("huge/bp_support_gg wide", 0, 2, [](vf::Case& c) { bp<bp_support_gg<>>(c, false); });
#endif
}
