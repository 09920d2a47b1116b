// C10: compressed integer vectors and inverse permutation support
#include "vf.hpp"
#include "util_model.hpp"
#include "gen_bv.hpp"
#include <sdsl/enc_vector.hpp>
#include <sdsl/vlc_vector.hpp>
#include <sdsl/dac_vector.hpp>
#include <sdsl/inv_perm_support.hpp>
#include <sdsl/int_vector_buffer.hpp>
#include <sdsl/rrr_vector.hpp>
#include <sdsl/sd_vector.hpp>
#include <list>
#include <array>
using namespace sdsl;
struct In {
    std::vector<uint64_t> v;
    unsigned bits;
};
static In gen(vf::Case& c, uint64_t maxn)
{
    In in;
    static const unsigned bs[] = {64, 64, 32, 16, 8};
    in.bits = c.rng.chance(1, 3) ? c.rng.range(1, 64) : bs[c.rng.below(5)];
    uint64_t m = in.bits >= 64 ? ~0ULL : (1ULL << in.bits) - 1;
    size_t n = c.rng.chance(1, 20) ? 0 : c.rng.size(maxn);
    unsigned kind = c.rng.below(9);
    uint64_t run = c.rng.word() & m;
    for (size_t i = 0; i < n; ++i) {
        uint64_t x;
        switch (kind) {
            case 0: x = c.rng.next(); break;
            case 1: x = c.rng.next() >> c.rng.below(64); break;
            case 2: x = run = std::min(m, run + c.rng.below(5) > m ? m : run + c.rng.below(5)); break;          // increasing
            case 3: x = run = run + (c.rng.chance(1, 40) ? c.rng.next() % (m / 4 + 1) : 1 + c.rng.below(3)); break; // increasing, wraps
            case 4: x = c.rng.word(); break;
            case 5: x = c.rng.chance(1, 50) ? c.rng.next() : c.rng.below(3); break; // few outliers
            case 6: x = 0; break;
            case 7: x = m - c.rng.below(4); break;
            default: x = (i / 50) % 2 ? c.rng.below(2) : c.rng.next() >> 40;
        }
        in.v.push_back(x & m);
    }
    c.mixv(in.v);
    c.mixfp(in.bits);
    c.desc("n=%zu bits=%u kind=%u", n, in.bits, kind);
    c.trivial_if(n == 0);
    return in;
}
template <class V> void same(vf::Case& c, const V& v, const std::vector<uint64_t>& m, const char* how)
{
    VF_EQ("size", (uint64_t)v.size(), (uint64_t)m.size(), "%s", how);
    VF_EQ("empty", v.empty(), m.empty(), "%s", how);
    visit(c, 0, m.size(), 1500, [&](uint64_t i) { VF_EQ("value", (uint64_t)v[i], m[i], "%s i=%lu n=%zu", how, i, m.size()); });
    // random order: no state carried between reads
    for (int q = 0; q < 30 && m.size(); ++q) { uint64_t i = c.rng.below(m.size()); VF_EQ("value", (uint64_t)v[i], m[i], "%s i=%lu n=%zu", how, i, m.size()); }
    if (m.size() <= 3000) {
        size_t i = 0;
        for (auto it = v.begin(); it != v.end(); ++it, ++i) VF_EQ("iterate", (uint64_t)*it, m[i], "%s i=%zu", how, i);
        VF_EQ("iterate-end", i, m.size(), "%s", how);
        vf::iter_algebra(c, v, m.size(), [&](uint64_t k) { return m[k]; }, "iterator");
        VF_EQ("distance", (uint64_t)(v.end() - v.begin()), (uint64_t)m.size(), "%s", how);
    }
}
template <class V> void extras(vf::Case&, const V&, const std::vector<uint64_t>&) {}
template <class K, uint32_t D, uint8_t W> void extras(vf::Case& c, const enc_vector<K, D, W>& v, const std::vector<uint64_t>& m)
{
    VF_EQ("dens", v.get_sample_dens(), D, " ");
    for (size_t s = 0; s * D < m.size(); ++s) {
        VF_EQ("sample", (uint64_t)v.sample(s), m[s * D], "sample %zu", s);
        size_t len = std::min<size_t>(D, m.size() - s * D);
        std::vector<uint64_t> out(len);
        v.get_inter_sampled_values(s, out.data());
        for (size_t i = 0; i < len; ++i) VF_EQ("inter-sampled", out[i] + m[s * D], m[s * D + i], "sample %zu +%zu", s, i);
    }
}
struct Opt { static bool ok(const std::vector<uint64_t>&) { return true; } };
template <class V> struct refuses { static const bool max = false; };
template <class K, uint32_t D, uint8_t W> struct refuses<vlc_vector<K, D, W>> { static const bool max = true; };
template <class V> struct from_buffer { static const bool yes = true; };
template <class B, int L> struct from_buffer<dac_vector_dp<B, L>> { static const bool yes = false; };
template <class V, class C> void from(vf::Case& c, const C& cont, const std::vector<uint64_t>& m, bool bad, const char* how)
{
    if (bad) {
        bool threw = false;
        try { V x(cont); } catch (std::logic_error&) { threw = true; }
        VF_TRUE("refuse", threw, "%s: 2^64-1 accepted", how);
        return;
    }
    V x(cont);
    same(c, x, m, how);
    extras(c, x, m);
}
template <class V> struct Buf {
    static void f(vf::Case& c, const std::vector<uint64_t>& m, unsigned bits, bool bad, std::true_type)
    {
        std::string d = vf::scratch_dir();
        static uint64_t k = 0;
        std::string file = c.rng.chance(1, 2) ? d + "/buf" : "@c10" + std::to_string(++k);
        {
            int_vector_buffer<> b(file, std::ios::out, 1 + c.rng.below(300), bits);
            for (auto x : m) b.push_back(x);
            bool threw = false;
            try { V x(b); if (!bad) { same(c, x, m, "buffer"); extras(c, x, m); } } catch (std::logic_error&) { threw = true; }
            VF_EQ("refuse-buffer", threw, bad && refuses<V>::max, " ");
            b.close(true);
        }
    }
    static void f(vf::Case&, const std::vector<uint64_t>&, unsigned, bool, std::false_type) {}
};
template <class V> void run(vf::Case& c)
{
    In in = gen(c, c.rng.chance(1, 12) ? 20000 : 700);
    auto& m = in.v;
    bool bad = false;
    if (refuses<V>::max) {
        if (c.rng.chance(3, 4)) { for (auto& x : m) if (x == ~0ULL) --x; }
        for (auto x : m) bad |= x == ~0ULL;
    }
    int_vector<> iv(m.size(), 0, in.bits);
    for (size_t i = 0; i < m.size(); ++i) iv[i] = m[i];
    from<V>(c, iv, m, bad, "int_vector");
    switch (c.rng.below(5)) {
        case 0: from<V>(c, std::vector<uint64_t>(m), m, bad, "std::vector<u64>"); break;
        case 1: if (in.bits <= 32) { std::vector<uint32_t> w(m.begin(), m.end()); bool b2 = false; if (refuses<V>::max) for (auto x : m) b2 |= x == 0xffffffffu; if (!b2) from<V>(c, w, m, false, "std::vector<u32>"); } break;
        case 2: if (in.bits <= 16) from<V>(c, std::vector<uint16_t>(m.begin(), m.end()), m, false, "std::vector<u16>"); break;
        case 3: if (in.bits <= 8) from<V>(c, std::vector<uint8_t>(m.begin(), m.end()), m, false, "std::vector<u8>"); break;
        default: if (in.bits <= 32 && !refuses<V>::max) { int_vector<32> w(m.size()); for (size_t i = 0; i < m.size(); ++i) w[i] = m[i]; from<V>(c, w, m, bad, "int_vector<32>"); }
    }
    if (c.rng.chance(1, 2)) Buf<V>::f(c, m, in.bits, bad, std::integral_constant<bool, from_buffer<V>::yes>());
    if (bad) return;
    // values survive copies, moves, swaps and a round trip through a stream
    V a(iv), b(a);
    same(c, b, m, "copy");
    V d;
    d = a;
    same(c, d, m, "copy-assigned");
    V e(std::move(d));
    same(c, e, m, "moved");
    V f;
    f = std::move(e);
    same(c, f, m, "move-assigned");
    V g;
    g.swap(f);
    same(c, g, m, "swapped");
    std::stringstream s;
    g.serialize(s);
    V h(iv);
    h.load(s);
    same(c, h, m, "loaded");
    extras(c, h, m);
}
template <class V> struct add {
    add(const std::string& n) { static vf::Reg r(n, 60, 3000, run<V>); }
};
#if PART == 0
static add<enc_vector<>> a1("enc-delta-128");
static add<enc_vector<coder::elias_gamma, 8>> a2("enc-gamma-8");
static add<enc_vector<coder::fibonacci, 2>> a3("enc-fib-2");
static add<enc_vector<coder::elias_delta, 13, 64>> a4("enc-delta-13-64");
static add<enc_vector<coder::fibonacci, 64>> a5("enc-fib-64");
static add<enc_vector<coder::comma<4>, 32>> a6("enc-comma4-32");
static add<enc_vector<coder::elias_gamma, 128>> a7("enc-gamma-128");
static add<enc_vector<coder::comma<2>, 5>> a8("enc-comma2-5");
#elif PART == 1
static add<vlc_vector<>> b1("vlc-delta-128");
static add<vlc_vector<coder::elias_gamma, 7>> b2("vlc-gamma-7");
static add<vlc_vector<coder::fibonacci, 32>> b3("vlc-fib-32");
static add<vlc_vector<coder::comma<8>, 64>> b4("vlc-comma8-64");
static add<vlc_vector<coder::elias_delta, 2, 64>> b5("vlc-delta-2-64");
#else
static add<dac_vector<>> c1("dac-4");
static add<dac_vector<1>> c2("dac-1");
static add<dac_vector<8, rank_support_v<>>> c3("dac-8");
static add<dac_vector<13>> c4("dac-13");
static add<dac_vector<63>> c5("dac-63");
static add<dac_vector<32>> c8("dac-32");
static add<dac_vector_dp<>> c6("dacdp");
static add<dac_vector_dp<rrr_vector<63>>> c7("dacdp-rrr");
static void dp_levels(vf::Case& c)
{
    In in = gen(c, 600);
    int lv = 1 + c.rng.below(6);
    int_vector<> iv(in.v.size(), 0, in.bits);
    for (size_t i = 0; i < in.v.size(); ++i) iv[i] = in.v[i];
    dac_vector_dp<> a(iv, lv);
    VF_TRUE("levels", a.levels() <= (size_t)lv, "%zu levels, at most %d requested", a.levels(), lv);
    same(c, a, in.v, "levels");
}
static vf::Reg r1("dacdp-levels", 100, 4000, dp_levels);

static std::vector<uint64_t> gen_perm(vf::Case& c, size_t n)
{
    std::vector<uint64_t> p(n);
    unsigned kind = c.rng.below(6);
    for (size_t i = 0; i < n; ++i) p[i] = i;
    switch (kind) {
        case 0: break;
        case 1: for (size_t i = 0; i < n; ++i) p[i] = (i + 1) % n; break;           // one long cycle
        case 2: for (size_t i = n; i > 1; --i) std::swap(p[i - 1], p[c.rng.below(i)]); break;
        case 3: std::reverse(p.begin(), p.end()); break;
        case 4: { // cycles of given length
            std::vector<uint64_t> o(p); for (size_t i = n; i > 1; --i) std::swap(o[i - 1], o[c.rng.below(i)]);
            size_t L = 1 + c.rng.below(70);
            for (size_t i = 0; i < n; i += L) { size_t e = std::min(n, i + L); for (size_t j = i; j < e; ++j) p[o[j]] = o[j + 1 < e ? j + 1 : i]; }
            break;
        }
        default: { size_t k = 1 + c.rng.below(n ? n : 1); for (size_t i = 0; i < n; ++i) p[i] = (i + k) % n; }
    }
    c.mixv(p);
    c.trivial_if(n < 2);
    c.desc("n=%zu kind=%u", n, kind);
    return p;
}
template <class S> void perm(vf::Case& c)
{
    auto p = gen_perm(c, c.rng.size(c.rng.chance(1, 10) ? 5000 : 400));
    int_vector<> v(p.size(), 0, c.rng.chance(1, 2) ? 64 : bits::hi(p.size() | 1) + 1);
    std::vector<uint64_t> inv(p.size());
    for (size_t i = 0; i < p.size(); ++i) { v[i] = p[i]; inv[p[i]] = i; }
    S s(&v);
    auto cmp = [&](const S& x, const char* how) {
        VF_EQ("perm-size", (uint64_t)x.size(), (uint64_t)p.size(), "%s", how);
        for (size_t i = 0; i < p.size(); ++i) VF_EQ("perm-inverse", (uint64_t)x[i], inv[i], "%s i=%zu", how, i);
        size_t i = 0;
        for (auto y : x) { VF_EQ("perm-iter", (uint64_t)y, inv[i], "%s i=%zu", how, i); ++i; }
    };
    cmp(s, "built");
    S a(s); cmp(a, "copied");
    S b; b = a; cmp(b, "copy-assigned");
    S d(std::move(b)); cmp(d, "moved");
    S e; e.swap(d); e.set_vector(&v); cmp(e, "swapped");
    std::stringstream st; e.serialize(st);
    S f; f.load(st); f.set_vector(&v); cmp(f, "loaded");
}
static vf::Reg p1("invperm-32", 80, 3000, perm<inv_perm_support<32>>);
static vf::Reg p2("invperm-1", 80, 3000, perm<inv_perm_support<1>>);
static vf::Reg p3("invperm-5-rrr", 80, 3000, perm<inv_perm_support<5, rrr_vector<15>, rrr_vector<15>::rank_1_type>>);
#endif
