// C12: range algorithms and node navigation of wavelet trees
#include "wt_types.hpp"
#include "gen_bv.hpp"
typedef std::vector<uint64_t> U;
static bool by_sym_less(const std::pair<uint64_t, uint64_t>& a, const std::pair<uint64_t, uint64_t>& b) { return a < b; }
struct Ctx {
    vf::Case& c;
    const Seq& s;
    SeqModel m;
    uint64_t lim;
    void range(uint64_t& i, uint64_t& j) // 0<=i<=j<=n, biased
    {
        uint64_t n = s.size();
        i = c.rng.below(n + 1);
        switch (c.rng.below(6)) {
            case 0: j = i; break;
            case 1: j = std::min(n, i + 1); break;
            case 2: j = std::min(n, i + 2); break;
            case 3: i = 0; j = n; break;
            case 4: j = std::min<uint64_t>(n, i + c.rng.below(40)); break;
            default: j = i + c.rng.below(n - i + 1);
        }
    }
    std::map<uint64_t, uint64_t> freq(uint64_t i, uint64_t j) const { std::map<uint64_t, uint64_t> f; for (; i < j; ++i) ++f[s[i]]; return f; }
};
template <class W> void interval(Ctx& x, const W& wt, bool member)
{
    for (int q = 0; q < 25; ++q) {
        uint64_t i, j;
        x.range(i, j);
        typename W::size_type k = 77;
        std::vector<typename W::value_type> cs(wt.sigma);
        std::vector<typename W::size_type> a(wt.sigma), b(wt.sigma);
        interval_symbols(wt, i, j, k, cs, a, b);
        auto f = x.freq(i, j);
        VF_EQ("interval-k", (uint64_t)k, f.size(), "[%zu,%zu)", (size_t)i, (size_t)j);
        std::set<uint64_t> seen;
        for (size_t p = 0; p < k; ++p) {
            uint64_t y = cs[p];
            VF_TRUE("interval-symbol", f.count(y) && seen.insert(y).second, "[%zu,%zu) p=%zu sym=%llu", (size_t)i, (size_t)j, p, (unsigned long long)y);
            VF_EQ("interval-rank-i", (uint64_t)a[p], x.m.rank(i, y), "[%zu,%zu) sym=%llu", (size_t)i, (size_t)j, (unsigned long long)y);
            VF_EQ("interval-rank-j", (uint64_t)b[p], x.m.rank(j, y), "[%zu,%zu) sym=%llu", (size_t)i, (size_t)j, (unsigned long long)y);
            if (W::lex_ordered && p) VF_TRUE("interval-order", cs[p - 1] < cs[p], "[%zu,%zu) p=%zu", (size_t)i, (size_t)j, p);
        }
        if (k) { // generic algorithm over the node interface
            typename W::size_type k2 = 0;
            std::vector<typename W::value_type> cs2(wt.sigma);
            std::vector<typename W::size_type> a2(wt.sigma), b2(wt.sigma);
            sdsl::_interval_symbols_rec(wt, range_type{{i, j - 1}}, k2, cs2, a2, b2, wt.root());
            VF_TRUE("interval-generic", k2 == k && std::equal(cs2.begin(), cs2.begin() + k, cs2.begin()) , "[%zu,%zu)", (size_t)i, (size_t)j);
            for (size_t p = 0; p < k2; ++p) VF_TRUE("interval-generic-ranks", f.count(cs2[p]) && a2[p] == x.m.rank(i, cs2[p]) && b2[p] == x.m.rank(j, cs2[p]), "[%zu,%zu) p=%zu", (size_t)i, (size_t)j, p);
        }
    }
}
template <class W> auto lex(Ctx& x, const W& wt, int) -> decltype(wt.lex_count(0, 0, 0), void())
{
    if (!W::lex_ordered) return;
    uint64_t n = x.s.size();
    for (int q = 0; q < 60; ++q) {
        uint64_t i, j, a = x.m.ask(x.c, x.lim);
        x.range(i, j);
        auto t = wt.lex_count(i, j, a);
        uint64_t sm = 0, gr = 0;
        for (uint64_t p = i; p < j; ++p) { sm += x.s[p] < a; gr += x.s[p] > a; }
        VF_EQ("lex_count-rank", (uint64_t)std::get<0>(t), x.m.rank(i, a), "[%zu,%zu) c=%llu", (size_t)i, (size_t)j, (unsigned long long)a);
        VF_EQ("lex_count-smaller", (uint64_t)std::get<1>(t), sm, "[%zu,%zu) c=%llu", (size_t)i, (size_t)j, (unsigned long long)a);
        VF_EQ("lex_count-greater", (uint64_t)std::get<2>(t), gr, "[%zu,%zu) c=%llu", (size_t)i, (size_t)j, (unsigned long long)a);
        uint64_t e = x.c.rng.below(n + 1);
        auto u = wt.lex_smaller_count(e, a);
        uint64_t s2 = 0;
        for (uint64_t p = 0; p < e; ++p) s2 += x.s[p] < a;
        VF_EQ("lex_smaller_count-rank", (uint64_t)std::get<0>(u), x.m.rank(e, a), "i=%zu c=%llu", (size_t)e, (unsigned long long)a);
        VF_EQ("lex_smaller_count", (uint64_t)std::get<1>(u), s2, "i=%zu c=%llu", (size_t)e, (unsigned long long)a);
    }
}
template <class W> void lex(Ctx&, const W&, long) {}
template <class W> auto r2d(Ctx& x, const W& wt, int) -> decltype(wt.range_search_2d(0, 0, 0, 0, true), void())
{
    uint64_t n = x.s.size();
    if (!n) return;
    for (int q = 0; q < 30; ++q) {
        uint64_t lb = x.c.rng.below(n), rb = x.c.rng.chance(1, 4) ? n - 1 : lb + x.c.rng.below(n - lb), a = x.m.ask(x.c, x.lim), b = x.m.ask(x.c, x.lim);
        if (a > b && x.c.rng.chance(3, 4)) std::swap(a, b);
        if (x.c.rng.chance(1, 8)) { a = bits::lo_set[wt.max_level] + 1; b = std::max(a, b); }
        auto res = wt.range_search_2d(lb, rb, a, b, true);
        std::vector<std::pair<uint64_t, uint64_t>> want, got;
        for (uint64_t p = lb; p <= rb; ++p) if (x.s[p] >= a && x.s[p] <= b) want.emplace_back(x.s[p], p);
        for (auto& p : res.second) got.emplace_back(p.second, p.first);
        std::sort(want.begin(), want.end(), by_sym_less);
        VF_TRUE("range_search-ascending-symbols", std::is_sorted(got.begin(), got.end(), [](const std::pair<uint64_t, uint64_t>& u, const std::pair<uint64_t, uint64_t>& v) { return u.first < v.first; }), " ");
        std::sort(got.begin(), got.end(), by_sym_less);
        VF_EQ("range_search-count", (uint64_t)res.first, want.size(), "[%zu,%zu]x[%llu,%llu]", (size_t)lb, (size_t)rb, (unsigned long long)a, (unsigned long long)b);
        VF_EQ("range_search-points", got, want, "[%zu,%zu]x[%llu,%llu]", (size_t)lb, (size_t)rb, (unsigned long long)a, (unsigned long long)b);
        auto cnt = wt.range_search_2d(lb, rb, a, b, false);
        VF_TRUE("range_search-count-only", cnt.first == want.size() && cnt.second.empty(), "[%zu,%zu]x[%llu,%llu]", (size_t)lb, (size_t)rb, (unsigned long long)a, (unsigned long long)b);
    }
}
template <class W> void r2d(Ctx&, const W&, long) {}
template <class W> void algorithms(Ctx& x, const W& wt, std::true_type /*lex*/)
{
    uint64_t n = x.s.size();
    for (int q = 0; q < 40; ++q) { // quantiles
        uint64_t i, j;
        x.range(i, j);
        if (i == j) continue;
        Seq t(x.s.begin() + i, x.s.begin() + j);
        std::sort(t.begin(), t.end());
        uint64_t k = x.c.rng.below(t.size());
        auto r = quantile_freq(wt, i, j - 1, k);
        VF_EQ("quantile", (uint64_t)r.first, t[k], "[%zu,%zu] q=%zu", (size_t)i, (size_t)j - 1, (size_t)k);
        VF_EQ("quantile-freq", (uint64_t)r.second, (uint64_t)(std::upper_bound(t.begin(), t.end(), t[k]) - std::lower_bound(t.begin(), t.end(), t[k])), "[%zu,%zu] q=%zu", (size_t)i, (size_t)j - 1, (size_t)k);
    }
    if (!n) return;
    const U& al = x.m.syms;
    for (int q = 0; q < 60; ++q) { // neighbours in the alphabet
        uint64_t a = x.m.ask(x.c, x.lim);
        auto g = symbol_gte(wt, a);
        auto l = symbol_lte(wt, a);
        auto ig = std::lower_bound(al.begin(), al.end(), a);
        auto il = std::upper_bound(al.begin(), al.end(), a);
        VF_EQ("symbol_gte-exists", g.first, ig != al.end(), "c=%llu", (unsigned long long)a);
        if (g.first) VF_EQ("symbol_gte", (uint64_t)g.second, *ig, "c=%llu", (unsigned long long)a);
        VF_EQ("symbol_lte-exists", l.first, il != al.begin(), "c=%llu", (unsigned long long)a);
        if (l.first) VF_EQ("symbol_lte", (uint64_t)l.second, *(il - 1), "c=%llu", (unsigned long long)a);
    }
    for (int q = 0; q < 40; ++q) {
        uint64_t i = x.c.rng.below(n), j = x.c.rng.chance(1, 6) ? n + x.c.rng.below(3) : i + x.c.rng.below(n - i), a = x.m.ask(x.c, x.lim), b = x.m.ask(x.c, x.lim);
        if (a > b && x.c.rng.chance(3, 4)) std::swap(a, b);
        auto r = restricted_unique_range_values(wt, i, j, a, b);
        std::set<uint64_t> w;
        for (uint64_t p = i; p <= j && p < n; ++p) if (x.s[p] >= a && x.s[p] <= b) w.insert(x.s[p]);
        U got(r.begin(), r.end()), want(w.begin(), w.end());
        VF_EQ("restricted_unique", got, want, "x[%zu,%zu] y[%llu,%llu]", (size_t)i, (size_t)j, (unsigned long long)a, (unsigned long long)b);
    }
}
template <class W> void algorithms(Ctx&, const W&, std::false_type) {}
template <class W> void inters(Ctx& x, const W& wt)
{
    uint64_t n = x.s.size();
    if (!n) return;
    for (int q = 0; q < 25; ++q) {
        size_t k = x.c.rng.range(1, 6), t = x.c.rng.below(k + 1);
        range_vec_type rs;
        std::map<uint64_t, std::pair<uint64_t, uint64_t>> f; // symbol -> (#ranges, freq)
        for (size_t p = 0; p < k; ++p) {
            uint64_t i = x.c.rng.below(n), j = i + x.c.rng.below(x.c.rng.chance(1, 2) ? n - i : std::min<uint64_t>(n - i, 20));
            rs.push_back(range_type{{i, j}});
            for (auto& e : x.freq(i, j + 1)) { ++f[e.first].first; f[e.first].second += e.second; }
        }
        auto r = intersect(wt, rs, t);
        std::vector<std::pair<uint64_t, uint64_t>> got, want;
        for (auto& e : r) got.emplace_back(e.first, e.second);
        for (auto& e : f) if (e.second.first >= (t ? t : k)) want.emplace_back(e.first, e.second.second);
        if (!W::lex_ordered) std::sort(got.begin(), got.end());
        VF_EQ("intersect", got, want, "k=%zu t=%zu", k, t);
    }
    VF_TRUE("intersect-no-ranges", intersect(wt, range_vec_type()).empty(), " ");
}
template <class W> auto node_bits(const W& wt, const typename W::node_type& v, size_t, std::vector<bool>& b, int) -> typename void_<typename W::bit_vector_type::const_iterator>::type
{
    auto c = wt.bit_vec(v);
    b.assign(c.size(), 0);
    for (size_t i = 0; i < b.size(); ++i) b[i] = c[i];
    size_t k = 0;
    for (auto it = c.begin(); it != c.end(); ++it, ++k) VF_TRUE("node-bits-iterator", k < b.size() && *it == b[k], " ");
}
template <class W> void node_bits(const W& wt, const typename W::node_type& v, size_t n, std::vector<bool>& b, long)
{   // bit vector types without iterators do not offer bit_vec
    for (size_t i = 0; i < n; ++i) b.push_back(sdsl::size(wt.expand(v, range_type{{i, i}})[1]));
}
template <class W> void nodes(Ctx& x, const W& wt, const typename W::node_type& v, const U& idx, unsigned depth, uint64_t& leaves, uint64_t& budget)
{
    // idx: positions of the original sequence whose symbols reach v
    auto& c = x.c;
    VF_EQ("node-size", (uint64_t)wt.size(v), idx.size(), "depth=%u", depth);
    VF_EQ("node-empty", (bool)wt.empty(v), idx.empty(), "depth=%u", depth);
    auto sq = wt.seq(v);
    VF_EQ("node-seq-size", (uint64_t)sq.size(), idx.size(), "depth=%u", depth);
    for (size_t k = 0; k < idx.size(); k += 1 + c.rng.below(1 + idx.size() / 3)) VF_EQ("node-seq", (uint64_t)sq[k], x.s[idx[k]], "depth=%u k=%zu", depth, k);
    { // the sequence does not depend on the lifetime of the node it was made from
        auto kept = wt.seq(typename W::node_type(v));
        if (!idx.empty()) { uint64_t k = c.rng.below(idx.size()); VF_EQ("node-seq-temporary", (uint64_t)kept[k], x.s[idx[k]], "depth=%u k=%zu", depth, (size_t)k); }
    }
    if (idx.empty()) return;
    if (wt.is_leaf(v)) {
        for (auto p : idx) VF_EQ("leaf-symbol", (uint64_t)wt.sym(v), x.s[p], "depth=%u", depth);
        VF_EQ("leaf-size", idx.size(), x.m.occ[x.s[idx[0]]].size(), "depth=%u", depth);
        auto p = wt.path(x.s[idx[0]]);
        VF_EQ("path-length", (uint64_t)p.first, depth, "c=%llu", (unsigned long long)x.s[idx[0]]);
        auto w = wt.root();
        for (unsigned d = 0; d < depth; ++d) w = wt.expand(w)[p.second >> (depth - 1 - d) & 1];
        VF_TRUE("path-leads-to-leaf", w == v && wt.is_leaf(w) && (uint64_t)wt.sym(w) == x.s[idx[0]], "c=%llu", (unsigned long long)x.s[idx[0]]);
        ++leaves;
        return;
    }
    std::vector<bool> bv;
    node_bits(wt, v, idx.size(), bv, 0);
    VF_EQ("node-bits-size", (uint64_t)bv.size(), idx.size(), "depth=%u", depth);
    U z, o, zr(1, 0);
    for (size_t k = 0; k < idx.size(); ++k) { bool b = bv[k]; (b ? o : z).push_back(idx[k]); zr.push_back(zr.back() + !b); }
    auto ch = wt.expand(v);
    uint64_t zmin = ~0ULL, zmax = 0, omin = ~0ULL, omax = 0;
    for (auto p : z) zmax = std::max(zmax, x.s[p]), zmin = std::min(zmin, x.s[p]);
    for (auto p : o) omin = std::min(omin, x.s[p]), omax = std::max(omax, x.s[p]);
    if (W::lex_ordered && !z.empty() && !o.empty()) VF_TRUE("lex-order", zmax < omin, "depth=%u", depth);
    range_vec_type rv;
    for (int q = 0; q < 3; ++q) {
        uint64_t a = c.rng.below(idx.size()), b = a + c.rng.below(idx.size() - a);
        rv.push_back(range_type{{a, b}});
        auto r = wt.expand(v, range_type{{a, b}});
        VF_TRUE("expand-range", r[0][0] == zr[a] && sdsl::size(r[0]) == zr[b + 1] - zr[a] && r[1][0] == a - zr[a] && sdsl::size(r[1]) == (b + 1 - zr[b + 1]) - (a - zr[a]), "depth=%u [%zu,%zu]", depth, (size_t)a, (size_t)b);
        VF_TRUE("expand-range-empty", sdsl::empty(r[0]) == (zr[b + 1] == zr[a]) && sdsl::empty(r[1]) == (b + 1 - zr[b + 1] == a - zr[a]), "depth=%u [%zu,%zu]", depth, (size_t)a, (size_t)b);
    }
    auto rr = wt.expand(v, rv);
    for (int q = 0; q < 3; ++q) { auto r = wt.expand(v, rv[q]); VF_TRUE("expand-ranges", rr[0].size() == 3 && rr[1].size() == 3 && rr[0][q] == r[0] && rr[1][q] == r[1], "depth=%u", depth); }
    if (budget < idx.size()) return;
    budget -= idx.size();
    nodes(x, wt, ch[0], z, depth + 1, leaves, budget);
    nodes(x, wt, ch[1], o, depth + 1, leaves, budget);
}
template <class W> void node_part(Ctx& x, const W& wt, std::true_type)
{
    interval(x, wt, true);
    inters(x, wt);
    algorithms(x, wt, std::integral_constant<bool, W::lex_ordered>());
    if (x.s.size()) {
        U idx(x.s.size());
        for (size_t i = 0; i < idx.size(); ++i) idx[i] = i;
        uint64_t leaves = 0, budget = 60000;
        nodes(x, wt, wt.root(), idx, 0, leaves, budget);
        if (budget) VF_TRUE("leaves", leaves <= x.m.syms.size(), " ");
    }
}
template <class W> void node_part(Ctx&, const W&, std::false_type) {}
template <class W> void run(vf::Case& c, uint64_t lim)
{
    Seq s = gen_seq(c, c.rng.chance(1, 3) ? 2000 : 150, lim);
    c.mixv(s);
    c.trivial_if(s.size() < 2);
    W wt;
    Ctx x{c, s, SeqModel(s), lim};
    c.desc("n=%zu sigma=%zu", s.size(), x.m.syms.size());
    build_wt(c, s, wt, lim);
    lex(x, wt, 0);
    r2d(x, wt, 0);
    node_part(x, wt, std::integral_constant<bool, has_node_type<W>::value>());
}
template <class> struct vf_t; template <class T> struct vf_t<void(T)> { static T* p; };
template <class W, bool = has_node_type<W>::value> struct add { add(const char* n, uint64_t lim) { static vf::Reg r(n, 100, 1500, [lim](vf::Case& c) { run<W>(c, lim); }); } };
template <class W> struct add<W, false> { add(const char*, uint64_t) {} };
#define W(T, name, lim) static add<typename std::decay<decltype(*(vf_t<void T>::p))>::type> VF_CAT(a_, __COUNTER__)(name, lim);
WT_TYPES(W)
