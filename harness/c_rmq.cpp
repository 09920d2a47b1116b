// C19: range minimum / maximum supports, Super-Cartesian trees
#include "vf.hpp"
#include "derive.hpp"
#include <sdsl/rmq_support.hpp>
#include <sdsl/bp_support.hpp>
#include <sdsl/suffix_tree_helper.hpp>
#include <sdsl/int_vector_buffer.hpp>
#include <sdsl/util.hpp>
using namespace sdsl;
typedef uint64_t u64;
static std::vector<u64> gen_vals(vf::Case& c, u64 maxn, u64 lim, const char** kind)
{
    static const char* names[] = {"random", "few values", "increasing", "decreasing", "mountain", "valley", "constant", "steps", "sawtooth", "lcp-like", "small moves"};
    auto& r = c.rng; u64 n = r.size(maxn); unsigned k = r.below(11);
    *kind = names[k];
    std::vector<u64> v(n);
    u64 base = r.chance(1, 2) ? 0 : r.below(lim / 2 + 1), per = 1 + r.below(100), cur = lim / 2;
    u64 top = std::min(lim, n + 1);
    for (u64 i = 0; i < n; ++i) switch (k) {
        case 0: v[i] = r.below(lim) + r.below(2); break;
        case 1: v[i] = std::min(lim, base + r.below(3)); break;
        case 2: v[i] = std::min(lim, i / (1 + per / 30)); break;
        case 3: v[i] = std::min(lim, (n - i) / (1 + per / 30)); break;
        case 4: v[i] = std::min(lim, std::min(i, n - i)); break;
        case 5: v[i] = std::min(lim, i < n / 2 ? n / 2 - i : i - n / 2); break;
        case 6: v[i] = base; break;
        case 7: if (i % per == 0) cur = r.below(top + 1); v[i] = std::min(lim, cur); break;
        case 8: v[i] = std::min(lim, i % per); break;
        case 9: v[i] = r.chance(1, 3) ? 0 : std::min<u64>(lim, r.chance(1, 10) ? r.below(n + 1) : r.below(20)); break;
        default: { if (r.chance(1, 2)) cur += cur < lim; else cur -= cur > 0; v[i] = cur; }
    }
    c.mixv(v);
    c.trivial_if(n < 2);
    return v;
}
template <class V> struct Fill { static V of(const std::vector<u64>& v) { V r(v.size()); for (u64 i = 0; i < v.size(); ++i) r[i] = v[i]; return r; } };
template <> struct Fill<std::vector<double>> { static std::vector<double> of(const std::vector<u64>& v) { std::vector<double> r; for (u64 x : v) r.push_back((double)(x >> 1) / 8 - 5); return r; } };
template <> struct Fill<std::vector<int64_t>> { static std::vector<int64_t> of(const std::vector<u64>& v) { std::vector<int64_t> r; for (u64 x : v) r.push_back((int64_t)x - 1000); return r; } };
template <bool MIN, class Q, class V> static void ask(vf::Case& c, const Q& q, const V& v, u64 budget)
{
    auto& r = c.rng; u64 n = v.size();
    VF_EQ("size", (u64)q.size(), n, "");
    auto better = [&](u64 a, u64 b) { return MIN ? v[a] < v[b] : v[a] > v[b]; };
    if (n <= 60) { for (u64 l = 0; l < n; ++l) { u64 m = l; for (u64 e = l; e < n; ++e) { if (better(e, m)) m = e; VF_EQ("query", (u64)q(l, e), m, "(%zu,%zu) of %zu", (size_t)l, (size_t)e, (size_t)n); } } return; }
    for (u64 t = 0; t < budget; ++t) {
        u64 l = r.below(n), e = r.below(n);
        if (r.chance(1, 2)) e = std::min(n - 1, l + r.below(1ULL << r.below(16)));
        if (r.chance(1, 20)) l = 0;
        if (r.chance(1, 20)) e = n - 1;
        if (r.chance(1, 4)) e = std::min<u64>(n - 1, l + (1ULL << r.below(14)) - r.below(2)); // powers of two
        if (l > e) std::swap(l, e);
        u64 m = l; for (u64 i = l; i <= e; ++i) if (better(i, m)) m = i;
        VF_EQ("query", (u64)q(l, e), m, "(%zu,%zu) of %zu", (size_t)l, (size_t)e, (size_t)n);
    }
}
template <bool MIN, class V> static void sparse(vf::Case& c, const char* name, u64 lim)
{
    const char* kind; std::vector<u64> w = gen_vals(c, c.rng.chance(1, 3) ? 20000 : 300, lim, &kind);
    std::unique_ptr<V> v(new V(Fill<V>::of(w)));
    typedef rmq_support_sparse_table<V, MIN> S;
    std::unique_ptr<S> a(new S(v.get())), b;
    const char* how = "built";
    switch (c.rng.below(8)) {
        case 0: how = "copy"; b.reset(new S(*a)); break;
        case 1: how = "copy="; b.reset(new S()); *b = *a; break;
        case 2: how = "move"; b.reset(new S(std::move(*a))); break;
        case 3: how = "move="; b.reset(new S()); *b = std::move(*a); break;
        case 4: how = "swap"; b.reset(new S()); b->swap(*a); b->set_vector(v.get()); break;
        case 5: { how = "load"; std::stringstream ss; a->serialize(ss); b.reset(new S()); b->load(ss, v.get()); break; }
        case 6: { how = "set_vector"; b = std::move(a); std::unique_ptr<V> v2(new V(*v)); b->set_vector(v2.get()); v = std::move(v2); break; }
        default: b = std::move(a);
    }
    a.reset();
    c.desc("sparse %s %s n=%zu %s", name, kind, w.size(), how);
    ask<MIN>(c, *b, *v, 150);
}
template <class S, bool MIN, class V> static void succ(vf::Case& c, const char* name, u64 lim)
{
    const char* kind; std::vector<u64> w = gen_vals(c, c.rng.chance(1, 5) ? 60000 : c.rng.chance(1, 2) ? 3000 : 80, lim, &kind);
    std::unique_ptr<V> v(new V(Fill<V>::of(w)));
    V keep = *v;
    std::unique_ptr<S> a(new S(v.get()));
    v.reset(); // the index must not need the sequence
    const char* how;
    a = derive(c, std::move(a), &how);
    c.desc("%s %s n=%zu %s", name, kind, w.size(), how);
    ask<MIN>(c, *a, keep, 150);
}
#define SP(N, MIN, V, LIM) VF_SUITE("sparse " N, 250, 8000) { sparse<MIN, V>(c, N, LIM); }
SP("min int_vector", true, int_vector<>, ~0ULL - 1)
SP("max int_vector", false, int_vector<>, ~0ULL - 1)
SP("min iv8", true, int_vector<8>, 255)
SP("max iv8", false, int_vector<8>, 255)
SP("min u32", true, std::vector<uint32_t>, 0xFFFFFFFF)
SP("max i64", false, std::vector<int64_t>, 1ULL << 40)
SP("min double", true, std::vector<double>, 1ULL << 40)
#define SU(N, T, MIN, V, LIM) VF_SUITE(N, 200, 6000) { succ<VF_UNPAREN T, MIN, V>(c, N, LIM); }
#define VF_UNPAREN(...) __VA_ARGS__
typedef bp_support_sada<64, 4> sada_small;
typedef bp_support_gg<> gg_def;
typedef bp_support_gg<nearest_neighbour_dictionary<30>, rank_support_v<>, select_support_mcl<>, 64> gg_small;
typedef bp_support_g<> g_def;
SU("sct min", (rmq_succinct_sct<>), true, int_vector<>, ~0ULL - 1)
SU("sct max", (rmq_succinct_sct<false>), false, int_vector<8>, 255)
SU("sct min u32", (rmq_succinct_sct<true, sada_small>), true, std::vector<uint32_t>, 0xFFFFFFFF)
SU("sct max gg", (rmq_succinct_sct<false, gg_def>), false, int_vector<>, 5000)
SU("sct min gg64", (rmq_succinct_sct<true, gg_small>), true, std::vector<int64_t>, 5000)
SU("sct min g", (rmq_succinct_sct<true, g_def>), true, int_vector<16>, 65535)
SU("sct max type", (range_maximum_sct<>::type), false, std::vector<u64>, ~0ULL - 1)
SU("sct min double", (rmq_succinct_sct<>), true, std::vector<double>, 3000)
SU("sada min", (rmq_succinct_sada<>), true, int_vector<>, ~0ULL - 1)
SU("sada max", (rmq_succinct_sada<false>), false, int_vector<8>, 255)
SU("sada min u32", (rmq_succinct_sada<true, sada_small>), true, std::vector<uint32_t>, 0xFFFFFFFF)
SU("sada max type", (range_maximum_support_sada<>::type), false, std::vector<u64>, ~0ULL - 1)
SU("sada min gg", (rmq_succinct_sada<true, gg_small>), true, int_vector<>, 3000)
SU("sada min g", (rmq_succinct_sada<true, g_def>), true, int_vector<>, 3000)
template <class V> static void sct_bp(vf::Case& c, u64 lim)
{
    const char* kind; auto& r = c.rng;
    std::vector<u64> w = gen_vals(c, r.chance(1, 3) ? 5000 : 60, lim, &kind);
    V v = Fill<V>::of(w);
    u64 n = w.size();
    for (int mn = 0; mn < 2; ++mn) {
        // n opening parentheses in order; element i stays open until the first strictly smaller (larger) element
        std::vector<bool> want, fc; std::vector<u64> st;
        auto pop = [&]() { u64 x = st.back(); st.pop_back(); want.push_back(0); fc.push_back(st.empty() || st.back() != x); };
        for (u64 x : w) { while (!st.empty() && (mn ? x < st.back() : x > st.back())) pop(); st.push_back(x); want.push_back(1); }
        while (!st.empty()) pop();
        auto cmp = [&](const char* key, const bit_vector& b, const std::vector<bool>& m) {
            VF_EQ(key, (u64)b.size(), (u64)m.size(), "size, minimum=%d", mn);
            for (u64 i = 0; i < m.size(); ++i) VF_EQ(key, (bool)b[i], (bool)m[i], "%zu of %zu, minimum=%d", (size_t)i, m.size(), mn);
        };
        bit_vector bp(r.below(70), r.below(2));
        construct_supercartesian_tree_bp(v, bp, mn);
        cmp("supercartesian", bp, want);
        cmp("supercartesian succinct", construct_supercartesian_tree_bp_succinct(v, (bool)mn), want);
        u64 mx = 0; for (u64 x : w) mx = std::max(mx, x);
        if (mn && (!n || mx < n)) { // documented precondition
            std::string f = ram_file_name("sct" + std::to_string(c.idx));
            int_vector<> iv(n, 0, bits::hi(mx) + 1); for (u64 i = 0; i < n; ++i) iv[i] = w[i];
            store_to_file(iv, f);
            {
                int_vector_buffer<> buf(f, std::ios::in, r.chance(1, 2) ? 64 : 1 << 20);
                cmp("supercartesian buffer", construct_supercartesian_tree_bp_succinct(buf, (bool)mn), want);
            }
            {
                int_vector_buffer<> buf(f, std::ios::in, r.chance(1, 2) ? 64 : 1 << 20);
                bit_vector b1(r.below(70), 1), b2(r.below(70), 1);
                u64 cnt = construct_supercartesian_tree_bp_succinct_and_first_child(buf, b1, b2, (bool)mn), k = 0;
                cmp("supercartesian fc", b1, want); cmp("first child", b2, fc);
                for (bool x : fc) k += x;
                VF_EQ("first child count", cnt, k, "");
            }
            sdsl::remove(f);
        }
    }
    c.desc("%s n=%zu", kind, (size_t)n);
}
VF_SUITE("supercartesian iv", 400, 12000) { sct_bp<int_vector<>>(c, c.rng.chance(1, 2) ? 50 : ~0ULL - 1); }
VF_SUITE("supercartesian u32", 200, 6000) { sct_bp<std::vector<uint32_t>>(c, c.rng.chance(1, 2) ? 50 : 4000000000ULL); }
