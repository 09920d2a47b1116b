// C16: LCP arrays. PART 0: standalone representations; other parts: representations that live in a suffix tree
#define WHAT 16
#include "cst_types.hpp"
#include "derive.hpp"
#include <memory>
typedef uint64_t u64;
template <class V, class = void> struct has_empty : std::false_type {};
template <class V> struct has_empty<V, decltype((void)std::declval<const V&>().empty())> : std::true_type {};
template <class V> static void cmp_lcp(const char* key, const V& got, const std::vector<u64>& want, vf::Case& c)
{
    u64 n = want.size();
    VF_EQ(key, (u64)got.size(), n, "size");
    if constexpr (has_empty<V>::value) VF_EQ(key, (bool)got.empty(), n == 0, "empty()");
    u64 k = n <= 3000 ? n : 3000;
    for (u64 j = 0; j < k; ++j) {
        u64 i = n <= 3000 ? j : c.rng.below(n);
        VF_EQ(key, (u64)got[i], want[i], "[%zu] of %zu", (size_t)i, (size_t)n);
    }
    u64 a = n ? c.rng.below(n) : 0, i = a;
    for (auto it = got.begin() + a; it != got.end() && i < a + 60; ++it, ++i) VF_EQ(key, (u64)*it, want[i], "iterator at %zu", (size_t)i);
    VF_EQ(key, (u64)(got.end() - got.begin()), n, "end-begin");
    vf::iter_algebra(c, got, n, [&](u64 x) { return want[x]; }, key);
}
// a text in which long repeats dominate (LCP values around the 8-bit escapes), besides the usual shapes
static Seq lcp_text(vf::Case& c, u64 maxn, u64 lim)
{
    auto& r = c.rng;
    if (!r.chance(1, 2)) return gen_text(c, maxn, lim);
    Seq s, w;
    u64 sg = 1 + r.below(std::min<u64>(lim, 6)), base = 1 + r.below(lim - sg + 1), L = 240 + r.below(60);
    for (u64 i = 0; i < L; ++i) w.push_back(base + r.below(sg));
    // copies of w (whole or a suffix/prefix), separated by symbols that may be larger or smaller
    for (u64 k = 2 + r.below(6); k--;) {
        for (u64 q = r.below(3); q--;) s.push_back(1 + r.below(lim));
        u64 a = r.chance(1, 2) ? 0 : r.below(20), b = r.chance(1, 2) ? L : L - r.below(20);
        s.insert(s.end(), w.begin() + a, w.begin() + b);
    }
    if (r.chance(1, 2)) s.push_back(r.chance(1, 2) ? lim : 1);
    c.mixv(s);
    return s;
}
#if PART == 0
#define LCP_TYPES(A) \
    A((lcp_bitcompressed<>), "bitc") A((lcp_bitcompressed<32>), "bitc32") \
    A((lcp_byte<>), "byte") A((lcp_byte<64>), "byte64") A((lcp_wt<>), "wt") A((lcp_wt<32>), "wt32") \
    A((lcp_dac<>), "dac") A((lcp_dac<8, rank_support_v<>>), "dac8") A((lcp_dac_dp<>), "dacdp") A((lcp_dac_dp<bit_vector, 3>), "dacdp3") \
    A((lcp_vlc<>), "vlc") A((lcp_vlc<vlc_vector<coder::fibonacci, 7>>), "vlc-fib")
template <class T> static void standalone(vf::Case& c, const char* name, bool)
{
    auto& r = c.rng;
    bool isint = r.chance(1, 3), ram = r.chance(1, 2);
    std::unique_ptr<T> a(new T());
    std::vector<u64> want;
    Seq s;
    if (r.chance(2, 3)) {
        s = lcp_text(c, r.chance(1, 12) ? 20000 : r.chance(1, 2) ? 2000 : 60, isint ? 5000 : 255);
        TextModel m(s, true);
        want = m.lcp;
        build_file(c, *a, s, ram, isint ? 0 : 8);
    } else { // from a stored LCP array
        u64 n = r.chance(1, 10) ? 0 : r.size(3000), top = r.chance(1, 2) ? 300 : r.chance(1, 2) ? 70000 : strstr(name, "32") ? (1ULL << 32) - 1 : 1ULL << 33;
        for (u64 i = 0; i < n; ++i) want.push_back(r.chance(1, 3) ? 250 + r.below(10) : r.chance(1, 3) ? r.below(top) : r.below(256));
        if (n) want[0] = 0;
        u64 mx = 0;
        for (auto x : want) mx = std::max(mx, x);
        int_vector<> v(n, 0, r.chance(1, 4) ? 64 : bits::hi(mx) + 1);
        for (u64 i = 0; i < n; ++i) v[i] = want[i];
        cache_config cfg(false, ram ? "@" : vf::scratch_dir(), "lcp" + std::to_string(c.idx));
        store_to_cache(v, conf::KEY_LCP, cfg);
        { T t(cfg); a->swap(t); }
        sdsl::remove(cache_file_name(conf::KEY_LCP, cfg));
        c.mixv(want);
    }
    const char* how;
    a = derive(c, std::move(a), &how);
    u64 big = 0;
    for (auto x : want) big += x >= 254;
    c.desc("%s n=%zu big=%zu %s %s", name, want.size(), (size_t)big, isint ? "int" : "byte", how);
    c.trivial_if(want.size() < 2);
    cmp_lcp("lcp", *a, want, c);
}
template <class> struct vf_t; template <class T> struct vf_t<void(T)> { static T* p; };
#define R(T, N) static vf::Reg VF_CAT(r_, __COUNTER__)("lcp " N, 90, 2500, [](vf::Case& c) { standalone<std::decay<decltype(*(vf_t<void T>::p))>::type>(c, N, true); });
LCP_TYPES(R)
#else
template <class T> static void in_tree(vf::Case& c, const char* name, u64 lim)
{
    auto& r = c.rng;
    u64 l = lim > 255 ? (r.chance(1, 2) ? 20 : 3000) : lim;
    Seq s = lcp_text(c, r.chance(1, 12) ? 9000 : r.chance(1, 2) ? 1500 : 60, l);
    bool ram = r.chance(1, 2);
    std::unique_ptr<T> a(new T());
    build_file(c, *a, s, ram, T::alphabet_category::WIDTH);
    const char* how;
    a = derive(c, std::move(a), &how);
    TextModel m(s, true);
    u64 big = 0;
    for (auto x : m.lcp) big += x >= 254;
    c.desc("%s n=%zu big=%zu %s %s", name, (size_t)m.n, (size_t)big, ram ? "ram" : "disk", how);
    cmp_lcp("lcp", a->lcp, m.lcp, c);
}
template <class> struct vf_t; template <class T> struct vf_t<void(T)> { static T* p; };
#define R(T, N, L) static vf::Reg VF_CAT(r_, __COUNTER__)("tree lcp " N, 110, 3000, [](vf::Case& c) { in_tree<std::decay<decltype(*(vf_t<void T>::p))>::type>(c, N, L); });
CST_TYPES(R)
#endif
