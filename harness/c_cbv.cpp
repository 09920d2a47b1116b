// compressed and interleaved bit vectors with their rank and select structures against the plain bits
#include "gen_bv.hpp"
#include <sdsl/bit_vectors.hpp>
#include <sdsl/dac_vector.hpp>
#include <sdsl/vlc_vector.hpp>
using namespace sdsl;
namespace
{
template <class S> void sel_check(vf::Case& c, const std::string& key, const S& s, const std::vector<uint64_t>& pos, const char* info)
{
    visit(c, 1, pos.size() + 1, 1500, [&](uint64_t i) {
        VF_EQ(key, s.select(i), pos[i - 1], "i=%zu of %zu %s", (size_t)i, pos.size(), info);
        VF_EQ(key, s(i), pos[i - 1], "i=%zu of %zu %s", (size_t)i, pos.size(), info);
    });
}
template <class V> struct selects {
    static void run(vf::Case& c, const std::string& name, const V& v, const BitModel& m, const char* info)
    {
        typename V::select_1_type s1(&v); typename V::select_0_type s0(&v);
        sel_check(c, name + " select_1", s1, m.one, info);
        sel_check(c, name + " select_0", s0, m.zero, info);
    }
};
template <uint32_t k> struct selects<hyb_vector<k>> { static void run(vf::Case&, const std::string&, const hyb_vector<k>&, const BitModel&, const char*) {} }; // select not implemented there
template <class V> void check_vec(vf::Case& c, const std::string& name, const V& v, const BitModel& m, const char* info)
{
    uint64_t n = m.b.size();
    VF_EQ(name + " size", v.size(), n, "%s", info);
    visit(c, 0, n, 2500, [&](uint64_t i) { VF_EQ(name + " []", (int)v[i], (int)m.b[i], "i=%zu %s", (size_t)i, info); });
    if (n <= 3000) {
        uint64_t i = 0;
        for (auto it = v.begin(); it != v.end(); ++it, ++i) VF_EQ(name + " iteration", (int)*it, (int)m.b[i], "i=%zu %s", (size_t)i, info);
        VF_EQ(name + " iteration length", i, n, "%s", info);
        vf::iter_algebra(c, v, n, [&](uint64_t k) { return (uint64_t)(bool)m.b[k]; }, (name + " iterator").c_str());
    }
    if (n) for (int k = 0; k < 300; ++k) {
        unsigned len = c.rng.range(1, std::min<uint64_t>(64, n));
        uint64_t at = c.rng.chance(1, 6) ? n - len : c.rng.below(n - len + 1);
        VF_EQ(name + " get_int", (uint64_t)v.get_int(at, len), m.bits(at, len), "at=%zu len=%u %s", (size_t)at, len, info);
    }
    typename V::rank_1_type r1(&v); typename V::rank_0_type r0(&v);
    VF_EQ(name + " rank size", r1.size(), n, "%s", info);
    visit(c, 0, n + 1, 2500, [&](uint64_t i) {
        VF_EQ(name + " rank_1", r1.rank(i), m.r1[i], "i=%zu %s", (size_t)i, info);
        VF_EQ(name + " rank_0", r0(i), i - m.r1[i], "i=%zu %s", (size_t)i, info);
    });
    selects<V>::run(c, name, v, m, info);
}
struct Input { BitModel m; bit_vector bv; std::string info; };
Input input(vf::Case& c, uint64_t maxn, bool big)
{
    const char* kind;
    std::vector<bool> b = gen_bits(c, maxn, &kind);
    if (big && b.size() < maxn / 2) { b.resize(maxn / 2 + c.rng.below(maxn / 2)); fill_bits(c, b, &kind); }
    bool dirty = c.rng.chance(1, 2);
    bit_vector bv = to_bv(b, dirty);
    char info[128]; snprintf(info, sizeof info, "n=%zu %s%s", b.size(), kind, dirty ? " dirty padding" : "");
    c.desc("%s", info);
    return Input{BitModel(b), bv, info};
}
template <class V> void one(vf::Case& c, const std::string& name, const Input& in) { V v(in.bv); check_vec(c, name, v, in.m, in.info.c_str()); }
#define ONE(...) one<__VA_ARGS__>(c, #__VA_ARGS__, in)
#if PART == 0
void run(vf::Case& c, const Input& in)
{
    ONE(bit_vector);
    ONE(bit_vector_il<64>); ONE(bit_vector_il<128>); ONE(bit_vector_il<512>); ONE(bit_vector_il<2048>);
    ONE(hyb_vector<16>); ONE(hyb_vector<1>); ONE(hyb_vector<32>); ONE(hyb_vector<7>);
}
#define NAME "il-hyb"
#elif PART == 1
void run(vf::Case& c, const Input& in)
{
    ONE(rrr_vector<15>); ONE(rrr_vector<15, int_vector<>, 8>); ONE(rrr_vector<15, int_vector<>, 7>); ONE(rrr_vector<15, int_vector<>, 2>); ONE(rrr_vector<15, int_vector<>, 75>);
    ONE(rrr_vector<63>); ONE(rrr_vector<64, int_vector<>, 8>); ONE(rrr_vector<31, int_vector<>, 5>); ONE(rrr_vector<3, int_vector<>, 4>);
}
#define NAME "rrr-small"
#elif PART == 2
void run(vf::Case& c, const Input& in)
{
    ONE(rrr_vector<127>); ONE(rrr_vector<128, int_vector<>, 3>); ONE(rrr_vector<129, int_vector<>, 16>); ONE(rrr_vector<192, int_vector<>, 5>);
    ONE(rrr_vector<255, int_vector<>, 4>); ONE(rrr_vector<256>); ONE(rrr_vector<83, vlc_vector<>, 6>); ONE(rrr_vector<48, dac_vector<>, 32>);
}
#define NAME "rrr-large"
#else
template <class V> void sd_more(vf::Case& c, const std::string& name, const Input& in)
{
    const BitModel& m = in.m;
    { V v(in.bv); select_0_support_sd<V> s(&v); sel_check(c, name + " select_0_support_sd", s, m.zero, in.info.c_str()); }
    if (m.one.size()) { // from sorted positions: ends behind the last one
        V v(m.one.begin(), m.one.end());
        std::vector<bool> t(m.b.begin(), m.b.begin() + m.one.back() + 1);
        check_vec(c, name + " iterator construction", v, BitModel(t), in.info.c_str());
    }
    sd_vector_builder bld(m.b.size(), m.one.size());
    VF_EQ(name + " builder size", bld.size(), m.b.size(), "%s", in.info.c_str());
    VF_EQ(name + " builder capacity", bld.capacity(), m.one.size(), "%s", in.info.c_str());
    for (size_t i = 0; i < m.one.size(); ++i) {
        bld.set(m.one[i]);
        VF_TRUE(name + " builder tail", bld.tail() == m.one[i] + 1 && bld.items() == i + 1, "%s", in.info.c_str());
        if (i == m.one.size() / 2 && i + 1 < m.one.size()) {
            bool thrown = false;
            try { sd_vector_builder copy(bld); V v(copy); } catch (const std::runtime_error&) { thrown = true; }
            VF_TRUE(name + " incomplete builder", thrown, "%s", in.info.c_str());
            if (c.rng.chance(1, 2)) { sd_vector_builder other; other.swap(bld); bld.swap(other); }
        }
    }
    V v(bld);
    check_vec(c, name + " builder construction", v, m, in.info.c_str());
    VF_TRUE(name + " builder cleared", bld.size() == 0 && bld.items() == 0 && bld.capacity() == 0, "%s", in.info.c_str());
}
void run(vf::Case& c, const Input& in)
{
    ONE(sd_vector<>); sd_more<sd_vector<>>(c, "sd_vector<>", in);
    typedef sd_vector<rrr_vector<63>> SR; ONE(SR); sd_more<SR>(c, "sd_vector<rrr_vector<63>>", in);
    typedef sd_vector<bit_vector, select_support_scan<1>, select_support_scan<0>> SS; ONE(SS);
    typedef sd_vector<bit_vector_il<>> SI; ONE(SI);
}
#define NAME "sd"
VF_SUITE("sd/unsorted", 200, 1000)
{
    std::vector<uint64_t> p; uint64_t n = c.rng.range(2, 50);
    for (uint64_t i = 0; i < n; ++i) p.push_back(c.rng.below(1000));
    bool sorted = std::is_sorted(p.begin(), p.end()), thrown = false;
    c.mixv(p); c.desc("%zu positions, sorted=%d", p.size(), sorted); c.trivial_if(sorted);
    if (sorted) return;
    try { sd_vector<> v(p.begin(), p.end()); } catch (const std::runtime_error&) { thrown = true; }
    VF_TRUE("unsorted input", thrown, "sd_vector accepted an unsorted list");
    thrown = false;
    try { sd_vector_builder b(n, n + 1 + c.rng.below(5)); } catch (const std::runtime_error&) { thrown = true; }
    VF_TRUE("builder capacity", thrown, "sd_vector_builder accepted more ones than positions");
}
// huge universes: only the positions are materialised
VF_SUITE("sd/huge", 150, 3000)
{
    unsigned lg = c.rng.range(20, 60);
    std::vector<uint64_t> p; uint64_t m = c.rng.range(1, 3000);
    bool clustered = c.rng.chance(1, 2); uint64_t last = 0;
    for (uint64_t i = 0; i < m; ++i) { if (clustered) p.push_back(last += 1 + (c.rng.chance(9, 10) ? c.rng.below(3) : c.rng.below((1ULL << lg) / m))); else p.push_back(c.rng.below(1ULL << lg)); }
    std::sort(p.begin(), p.end()); p.erase(std::unique(p.begin(), p.end()), p.end());
    c.mixv(p); c.desc("%zu ones below %lu", p.size(), p.back());
    sd_vector<> v(p.begin(), p.end());
    sd_vector<>::rank_1_type r1(&v); sd_vector<>::rank_0_type r0(&v); sd_vector<>::select_1_type s1(&v); sd_vector<>::select_0_type s0(&v);
    VF_EQ("huge size", v.size(), p.back() + 1, "");
    auto rk = [&](uint64_t i) { return (uint64_t)(std::lower_bound(p.begin(), p.end(), i) - p.begin()); };
    for (size_t i = 0; i < p.size(); ++i) {
        VF_EQ("huge select_1", s1(i + 1), p[i], "i=%zu m=%zu", i + 1, p.size());
        for (int64_t d = -2; d <= 2; ++d) { uint64_t x = p[i] + d; if (x > v.size()) continue; VF_EQ("huge rank_1", r1(x), rk(x), "x=%lu", x); VF_EQ("huge rank_0", r0(x), x - rk(x), "x=%lu", x); if (x < v.size()) VF_EQ("huge []", (int)v[x], (int)(rk(x + 1) - rk(x)), "x=%lu", x); }
    }
    uint64_t zeros = v.size() - p.size();
    for (int k = 0; k < 500 && zeros; ++k) {
        uint64_t i = k == 0 ? 1 : k == 1 ? zeros : 1 + c.rng.below(zeros), x = s0(i);
        VF_TRUE("huge select_0", x < v.size() && x - rk(x) == i - 1 && rk(x + 1) == rk(x), "i=%lu got %lu m=%zu", i, x, p.size());
    }
}
#endif
vf::Reg r1(NAME "/small", 500, 10000, [](vf::Case& c) { run(c, input(c, 3000, false)); });
// beyond 3.7 million bits bit_vector_il stores rank samples
vf::Reg r3(NAME "/huge", PART == 0 ? 4 : 1, 25, [](vf::Case& c) { run(c, input(c, c.rng.range(8000000, 14000000), true)); });
vf::Reg r2(NAME "/large", 24, 500, [](vf::Case& c) { run(c, input(c, PART == 0 ? 150000 : 120000, true)); });
}
