// C18: balanced parentheses supports
#include "vf.hpp"
#include <sdsl/bp_support.hpp>
#include <sdsl/bp_support_algorithm.hpp>
#include <sdsl/rmq_support.hpp>
#include <functional>
#include <map>
#include <memory>
#include <sstream>
using namespace sdsl;
typedef uint64_t u64;
struct BP {
    std::vector<bool> b; u64 n = 0;
    std::vector<u64> match, par, open; std::vector<int64_t> ex; // ex[i] = excess of [0..i]; par: enclosing opening parenthesis or n
    void finish()
    {
        n = b.size(); match.assign(n, n); par.assign(n, n); ex.assign(n, 0);
        std::vector<u64> st; int64_t e = 0;
        for (u64 i = 0; i < n; ++i) {
            if (b[i]) { par[i] = st.empty() ? n : st.back(); st.push_back(i); open.push_back(i); ++e; }
            else { u64 o = st.back(); st.pop_back(); match[i] = o; match[o] = i; --e; }
            ex[i] = e;
        }
    }
    u64 enclose(u64 i) const { return b[i] ? par[i] : match[i]; }
    u64 rmq_open(u64 l, u64 r) const { for (u64 i = l; i < r; ++i) if (b[i] && match[i] >= r) return i; return n; }
    int64_t minex(u64 l, u64 r) const { int64_t m = ex[l]; for (u64 i = l; i <= r; ++i) m = std::min(m, ex[i]); return m; }
};
static BP gen_bp(vf::Case& c, u64 maxpairs, const char** kind)
{
    static const char* names[] = {"random", "deep", "flat", "caterpillar", "forest", "skewed walk", "complete", "blocks", "zigzag", "mixture"};
    auto& r = c.rng;
    BP B; u64 p = r.size(maxpairs); unsigned k = r.below(10);
    *kind = names[k];
    auto& b = B.b;
    auto walk = [&](u64 pairs, u64 num, u64 den) { // opening with probability num/den
        u64 o = 0, d = 0;
        while (o < pairs || d) { if (o < pairs && (d == 0 || r.below(den) < num)) { b.push_back(1); ++o; ++d; } else { b.push_back(0); --d; } }
    };
    switch (k) {
        case 0: walk(p, 1, 2); break;
        case 1: { for (u64 i = 0; i < p; ++i) b.push_back(1); for (u64 i = 0; i < p; ++i) b.push_back(0); break; }
        case 2: { bool root = r.chance(1, 2) && p; if (root) b.push_back(1); for (u64 i = root; i < p; ++i) b.push_back(1), b.push_back(0); if (root) b.push_back(0); break; }
        case 3: { u64 h = p / 2; bool left = r.chance(1, 2); for (u64 i = 0; i < h; ++i) { if (left) b.push_back(1), b.push_back(0); b.push_back(1); }
                  for (u64 i = 0; i < h; ++i) { b.push_back(0); if (!left) b.push_back(1), b.push_back(0); } break; }
        case 4: for (u64 left = p; left;) { u64 q = std::min<u64>(left, 1 + r.size(maxpairs / 10 + 1)); walk(q, 1 + r.below(7), 8); left -= q; } break;
        case 5: { u64 den = 4 + r.below(60); walk(p, r.chance(1, 2) ? den - 1 : den / 2 + 1, den); break; }
        case 6: { u64 a = 2 + r.below(5); std::function<void(u64)> f = [&](u64 q) { if (!q) return; b.push_back(1); --q; u64 s = (q + a - 1) / a; while (q) { u64 t = std::min(s, q); f(t); q -= t; } b.push_back(0); }; f(p); break; }
        case 7: { static const int bs[] = {8, 16, 32, 64, 840, 2048}; u64 s = bs[r.below(6)]; u64 o = 0, d = 0; // runs aligned to block borders
                  while (o < p || d) { bool up = r.chance(1, 2); for (u64 i = 0; i < s && (o < p || d); ++i) { if (o < p && (up || !d)) b.push_back(1), ++o, ++d; else if (d) b.push_back(0), --d; else break; } } break; }
        case 8: { u64 a = 1 + r.below(200), o = 0, d = 0; while (o < p) { for (u64 i = 0; i < a && o < p; ++i) b.push_back(1), ++o, ++d; for (u64 i = r.below(a + 1); i-- && d;) b.push_back(0), --d; } while (d--) b.push_back(0); break; }
        default: { u64 o = 0, d = 0; while (o < p || d) { u64 q = r.below(8), L = 1 + r.below(300); for (; L-- && (o < p || d);) { if (o < p && (!d || r.below(8) < q)) b.push_back(1), ++o, ++d; else if (d) b.push_back(0), --d; } } }
    }
    if (r.chance(1, 3) && !b.empty()) { b.insert(b.begin(), 1); b.push_back(0); } // a common root
    B.finish();
    c.mixv(B.b);
    c.trivial_if(B.n < 4);
    return B;
}
static bit_vector bvec(const BP& B, bool dirty) { bit_vector v(B.n, dirty); for (u64 i = 0; i < B.n; ++i) v[i] = B.b[i]; return v; }
template <class T, class = void> struct has_level_anc : std::false_type {};
template <class T> struct has_level_anc<T, decltype((void)std::declval<const T&>().level_anc(0, 0))> : std::true_type {};
template <class S> static std::unique_ptr<S> derive_bp(vf::Case& c, std::unique_ptr<S> a, const bit_vector* bv, std::unique_ptr<bit_vector>& other, const char** how)
{
    switch (c.rng.below(9)) {
        case 0: { *how = "copy"; std::unique_ptr<S> b(new S(*a)); a.reset(); return b; }
        case 1: { *how = "copy="; std::unique_ptr<S> b(new S()); *b = *a; a.reset(); return b; }
        case 2: { *how = "move"; std::unique_ptr<S> b(new S(std::move(*a))); a.reset(); return b; }
        case 3: { *how = "move="; std::unique_ptr<S> b(new S()); *b = std::move(*a); a.reset(); return b; }
        case 4: { *how = "swap"; bit_vector tb(2, 0); tb[0] = 1; std::unique_ptr<S> b(c.rng.chance(1, 2) ? new S() : new S(&tb)); b->swap(*a); a.reset(); b->set_vector(bv); return b; }
        case 5: { *how = "load"; std::stringstream ss; a->serialize(ss); std::unique_ptr<S> b(new S()); a.reset(); b->load(ss, bv); return b; }
        case 6: { *how = "set_vector"; other.reset(new bit_vector(*bv)); a->set_vector(other.get()); return a; }
        default: *how = "built"; return a;
    }
}
template <class S> static void check_bp(vf::Case& c, const S& s, const BP& B, u64 budget)
{
    auto& r = c.rng; u64 n = B.n;
    VF_EQ("size", (u64)s.size(), n, "");
    if (!n) return;
    std::vector<u64> pos;
    if (n <= budget) for (u64 i = 0; i < n; ++i) pos.push_back(i);
    else { for (u64 i = 0; i < 40; ++i) pos.push_back(i), pos.push_back(n - 1 - i); while (pos.size() < budget) { u64 i = r.below(n); for (u64 j = i; j < std::min(n, i + 4); ++j) pos.push_back(j); } }
    std::vector<uint32_t> ones; uint32_t k = 0;
    ones.reserve(n); for (u64 i = 0; i < n; ++i) ones.push_back(k += B.b[i]);
    for (u64 i : pos) {
        VF_EQ("excess", (int64_t)s.excess(i), B.ex[i], "%zu of %zu", (size_t)i, (size_t)n);
        VF_EQ("rank", (u64)s.rank(i), (u64)ones[i], "%zu", (size_t)i);
        VF_EQ("find_close", (u64)s.find_close(i), B.b[i] ? B.match[i] : i, "%zu of %zu", (size_t)i, (size_t)n);
        VF_EQ("find_open", (u64)s.find_open(i), B.b[i] ? i : B.match[i], "%zu of %zu", (size_t)i, (size_t)n);
        VF_EQ("enclose", (u64)s.enclose(i), B.enclose(i), "%zu ('%c') of %zu", (size_t)i, B.b[i] ? '(' : ')', (size_t)n);
        u64 z = 0; while (z < i && !B.b[i - 1 - z]) ++z;
        VF_EQ("preceding_closing_parentheses", (u64)s.preceding_closing_parentheses(i), z, "%zu", (size_t)i);
        if constexpr (has_level_anc<S>::value) if (B.b[i]) {
            u64 d = r.chance(1, 2) ? r.below(4) : r.below(B.ex[i] + 2), a = i;
            if (B.ex[i] > 3000 && d > 3000) d = r.below(3000);
            for (u64 q = d; q-- && a != n;) a = B.par[a];
            VF_EQ("level_anc", (u64)s.level_anc(i, d), a, "node %zu up %zu", (size_t)i, (size_t)d);
        }
    }
    for (u64 q = 0; q < std::min<u64>(budget, 2 * B.open.size()); ++q) { u64 i = B.open.size() <= budget ? q % B.open.size() : r.below(B.open.size()); VF_EQ("select", (u64)s.select(i + 1), B.open[i], "%zu", (size_t)i + 1); }
    u64 Q = n > 5000 ? 90 : 300;
    for (u64 q = 0; q < Q; ++q) {
        u64 l = r.below(n), m = r.below(n);
        if (r.chance(1, 2)) { static const u64 d[] = {2, 9, 70, 300, 900, 3000, 20000}; m = std::min(n - 1, l + r.below(d[r.below(7)])); }
        if (r.chance(1, 12)) m = n - 1;
        if (r.chance(1, 12)) l = 0;
        if (l > m) std::swap(l, m);
        u64 got = s.rmq(l, m);
        VF_TRUE("rmq range", got >= l && got <= m, "rmq(%zu,%zu)=%zu of %zu", (size_t)l, (size_t)m, (size_t)got, (size_t)n);
        VF_EQ("rmq", B.ex[got], B.minex(l, m), "excess of rmq(%zu,%zu)=%zu of %zu", (size_t)l, (size_t)m, (size_t)got, (size_t)n);
        VF_EQ("rmq_open", (u64)s.rmq_open(l, m), B.rmq_open(l, m), "(%zu,%zu) of %zu", (size_t)l, (size_t)m, (size_t)n);
    }
    if (B.open.size() < 2) return;
    for (u64 q = 0; q < Q; ++q) { // pairs of nodes
        u64 a = r.below(B.open.size()), b = r.chance(1, 2) ? r.below(B.open.size()) : std::min<u64>(B.open.size() - 1, a + r.below(200));
        if (a > b) std::swap(a, b);
        if (a == b) continue;
        u64 i = B.open[a], j = B.open[b], want = n;
        if (B.match[i] + 1 < j) want = B.rmq_open(B.match[i] + 1, j);
        // the smallest k with findclose(i) < k < j whose pair encloses j
        if (want != n && B.match[want] < B.match[j]) throw std::runtime_error("model: rr_enclose");
        VF_EQ("rr_enclose", (u64)s.rr_enclose(i, j), want, "(%zu,%zu) of %zu", (size_t)i, (size_t)j, (size_t)n);
        if (B.match[i] < j && (B.ex[j] < 2000 || q < 5)) VF_EQ("rr_enclose_naive", (u64)s.rr_enclose_naive(i, j), want, "(%zu,%zu) of %zu", (size_t)i, (size_t)j, (size_t)n);
        if (B.match[i] < j) { // the innermost pair enclosing both
            u64 d = B.par[want == n ? j : want];
            VF_EQ("double_enclose", (u64)s.double_enclose(i, j), d, "(%zu,%zu) of %zu", (size_t)i, (size_t)j, (size_t)n);
            if (d != n && !(d < i && B.match[d] > B.match[j])) throw std::runtime_error("model: double_enclose");
        }
    }
}
template <class S> static void run_bp(vf::Case& c, const char* name, u64 maxpairs)
{
    const char* kind; auto& r = c.rng;
    BP B = gen_bp(c, r.chance(1, 4) ? maxpairs : r.chance(1, 2) ? 3000 : 40, &kind);
    std::unique_ptr<bit_vector> bv(new bit_vector(bvec(B, r.chance(1, 2)))), other;
    bit_vector before = *bv;
    std::unique_ptr<S> s;
    try { s.reset(new S(bv.get())); }
    catch (const std::logic_error& e) { c.desc("%s %s n=%zu refused", name, kind, (size_t)B.n); VF_TRUE("construction", strstr(e.what(), "does not terminate") && S::refusable, "%s", e.what()); return; }
    const char* how;
    std::unique_ptr<S> t = derive_bp(c, std::move(s), bv.get(), other, &how);
    if (other) bv.reset(); // the old vector is gone
    c.desc("%s %s n=%zu depth=%zu %s", name, kind, (size_t)B.n, (size_t)(B.n ? *std::max_element(B.ex.begin(), B.ex.end()) : 0), how);
    check_bp(c, *t, B, 800);
    VF_TRUE("vector", before == *(other ? other : bv), "the supported vector was changed");
}
// a type that may document its refusal (tiny block sizes); default ones may not
template <class S, bool R> struct T_ : S { static const bool refusable = R; using S::S; T_() : S() {} };
#define BP_TYPES(A) \
    A((bp_support_sada<>), "sada", 0, 60000) A((bp_support_sada<32, 4>), "sada32-4", 0, 12000) A((bp_support_sada<64, 2, rank_support_v<>>), "sada64-2v", 0, 12000) A((bp_support_sada<100, 5>), "sada100-5", 0, 12000) A((bp_support_sada<128, 3, rank_support_v5<>, select_support_scan<>>), "sada128-3", 0, 3000) \
    A((bp_support_gg<>), "gg", 0, 60000) A((bp_support_gg<nearest_neighbour_dictionary<30>, rank_support_v<>, select_support_mcl<>, 64>), "gg64", 0, 12000) \
    A((bp_support_gg<nearest_neighbour_dictionary<4>, rank_support_v5<>, select_support_mcl<>, 16>), "gg16", 1, 8000) A((bp_support_gg<nearest_neighbour_dictionary<30>, rank_support_v5<>, select_support_mcl<>, 10>), "gg10", 1, 8000) \
    A((bp_support_gg<nearest_neighbour_dictionary<30>, rank_support_v5<>, select_support_mcl<>, 3>), "gg3", 1, 2000) A((bp_support_gg<nearest_neighbour_dictionary<10>, rank_support_v5<>, select_support_mcl<>, 100>), "gg100", 0, 12000) \
    A((bp_support_g<>), "g", 0, 60000) A((bp_support_g<nearest_neighbour_dictionary<30>, rank_support_v<>, select_support_mcl<>, range_maximum_support_sparse_table<>, 64>), "g64", 0, 12000) \
    A((bp_support_g<nearest_neighbour_dictionary<5>, rank_support_v5<>, select_support_mcl<>, range_maximum_support_sparse_table<>, 16>), "g16", 0, 8000) A((bp_support_g<nearest_neighbour_dictionary<30>, rank_support_v5<>, select_support_mcl<>, range_maximum_support_sparse_table<>, 10>), "g10", 0, 8000) \
    A((bp_support_g<nearest_neighbour_dictionary<30>, rank_support_v5<>, select_support_mcl<>, range_maximum_support_sparse_table<>, 3>), "g3", 0, 2000) A((bp_support_g<nearest_neighbour_dictionary<30>, rank_support_v5<>, select_support_mcl<>, range_maximum_support_sparse_table<>, 100>), "g100", 0, 12000)
template <class> struct vf_t; template <class T> struct vf_t<void(T)> { static T* p; };
#define R(T, N, F, M) static vf::Reg VF_CAT(r_, __COUNTER__)("bp " N, 300, 8000, [](vf::Case& c) { run_bp<T_<std::decay<decltype(*(vf_t<void T>::p))>::type, F>>(c, N, M); });
BP_TYPES(R)

VF_SUITE("algorithms", 400, 12000)
{
    const char* kind; auto& r = c.rng;
    BP B = gen_bp(c, r.chance(1, 6) ? 5000 : 200, &kind);
    bit_vector bv = bvec(B, r.chance(1, 2));
    u64 n = B.n, bs = r.chance(1, 2) ? 1 + r.below(40) : r.chance(1, 2) ? 64 : 1 + r.below(1000);
    c.desc("%s n=%zu block %zu", kind, (size_t)n, (size_t)bs);
    // pioneers by definition: a far pair (different blocks) that is, among the pairs joining the same two blocks, the outermost one
    std::map<std::pair<u64, u64>, u64> outer;
    for (u64 o : B.open) { u64 m = B.match[o]; if (o / bs != m / bs) outer.emplace(std::make_pair(o / bs, m / bs), o); }
    std::vector<bool> want(n, 0);
    for (auto& e : outer) want[e.second] = want[B.match[e.second]] = 1;
    bit_vector p1 = calculate_pioneers_bitmap(bv, bs), p2 = calculate_pioneers_bitmap_succinct(bv, bs);
    VF_EQ("pioneers", (u64)p1.size(), n, "size"); VF_EQ("pioneers succinct", (u64)p2.size(), n, "size");
    for (u64 i = 0; i < n; ++i) { VF_EQ("pioneers", (bool)p1[i], (bool)want[i], "%zu", (size_t)i); VF_EQ("pioneers succinct", (bool)p2[i], (bool)want[i], "%zu", (size_t)i); }
    int_vector<> m, e;
    calculate_matches(bv, m); calculate_enclose(bv, e);
    VF_EQ("matches", (u64)m.size(), n, ""); VF_EQ("enclose", (u64)e.size(), n, "");
    for (u64 i = 0; i < n; ++i) { VF_EQ("matches", (u64)m[i], B.match[i], "%zu", (size_t)i); VF_EQ("enclose", (u64)e[i], B.enclose(i), "%zu", (size_t)i); }
    if (!n) return;
    for (int q = 0; q < 60; ++q) {
        u64 i = r.below(n), blk = i / bs;
        if (B.b[i]) { // answers inside the searched block, otherwise i
            u64 mt = B.match[i];
            VF_EQ("near_find_close", (u64)near_find_close(bv, i, bs), mt / bs == (i + 1) / bs ? mt : i, "%zu", (size_t)i);
            u64 en = B.par[i], g = near_enclose(bv, i, bs);
            VF_TRUE("near_enclose", g == en || (g == i && (en == n || en / bs != blk)), "%zu: %zu, wanted %zu", (size_t)i, (size_t)g, (size_t)en);
        } else {
            u64 mt = B.match[i];
            VF_EQ("near_find_open", (u64)near_find_open(bv, i, bs), mt / bs == (i - 1) / bs ? mt : i, "%zu", (size_t)i);
        }
        auto ex = [&](u64 x) { return x == (u64)-1 ? 0 : B.ex[x]; };
        int64_t d = (int64_t)r.below(r.chance(1, 2) ? 5 : 40) - (r.chance(1, 3) ? 30 : r.chance(1, 2) ? 3 : 0);
        if ((blk + 1) * bs <= n && i) {
            u64 w = i; while (w < (blk + 1) * bs && ex(w) != ex(i - 1) + d) ++w;
            VF_EQ("near_fwd_excess", (u64)near_fwd_excess(bv, i, d, bs), w < (blk + 1) * bs ? w : i - 1, "(%zu,%ld)", (size_t)i, (long)d);
        }
        if (i + 1 < n) {
            u64 w = i, beg = blk * bs; while (w + 1 > beg && ex(w) != ex(i + 1) + d) --w;
            u64 g = near_bwd_excess(bv, i, d, bs);
            if (w + 1 > beg) VF_EQ("near_bwd_excess", g, w, "(%zu,%ld)", (size_t)i, (long)d);
            else if (beg) VF_TRUE("near_bwd_excess", g == i + 1 || (g == beg - 1 && ex(g) == ex(i + 1) + d), "(%zu,%ld)=%zu", (size_t)i, (long)d, (size_t)g);
        }
        u64 l = r.below(n), h = std::min(n - 1, l + r.below(200));
        bit_vector::difference_type rel = 77;
        u64 g = near_rmq(bv, l, h, rel);
        VF_TRUE("near_rmq", g >= l && g <= h && B.ex[g] == B.minex(l, h) && B.ex[l] + rel == B.ex[g], "(%zu,%zu)=%zu rel %ld", (size_t)l, (size_t)h, (size_t)g, (long)rel);
        u64 o = B.rmq_open(l, h), go = near_rmq_open(bv, l, h);
        VF_EQ("near_rmq_open", go, o == n ? h : o, "(%zu,%zu)", (size_t)l, (size_t)h);
    }
}
