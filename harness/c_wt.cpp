// C11: access, rank, select, inverse_select of every wavelet tree
#include "wt_types.hpp"
#include "gen_bv.hpp"
template <class W> auto iterate(const W& wt, const Seq& s, int) -> decltype(wt.begin(), void())
{
    uint64_t i = 0, n = s.size();
    for (auto it = wt.begin(); it != wt.end(); ++it) { VF_TRUE("iterate", i < n && (uint64_t)*it == s[i], "i=%zu", (size_t)i); ++i; }
    VF_EQ("iterate-count", i, n, " ");
    vf::iter_algebra(*vf::cur, wt, n, [&](uint64_t k) { return s[k]; }, "iterator");
}
template <class W> void iterate(const W&, const Seq&, long) {}
template <class W> void run(vf::Case& c, uint64_t lim)
{
    Seq s = gen_seq(c, c.rng.chance(1, 12) ? 20000 : c.rng.chance(1, 2) ? 3000 : 200, lim);
    c.mixv(s);
    c.trivial_if(s.size() < 2);
    SeqModel m(s);
    c.desc("n=%zu sigma=%zu", s.size(), m.syms.size());
    W wt;
    build_wt(c, s, wt, lim);
    uint64_t n = s.size();
    VF_EQ("size", wt.size(), n, " ");
    VF_EQ("empty", wt.empty(), n == 0, " ");
    VF_EQ("sigma", (uint64_t)wt.sigma, m.syms.size(), " ");
    visit(c, 0, n, 600, [&](uint64_t i) {
        VF_EQ("access", (uint64_t)wt[i], s[i], "i=%zu", (size_t)i);
        auto q = wt.inverse_select(i);
        VF_EQ("inverse_select-symbol", (uint64_t)q.second, s[i], "i=%zu", (size_t)i);
        VF_EQ("inverse_select-rank", (uint64_t)q.first, m.rank(i, s[i]), "i=%zu c=%llu", (size_t)i, (unsigned long long)s[i]);
    });
    for (int k = 0; k < 300; ++k) {
        uint64_t i = c.rng.chance(1, 8) ? n : c.rng.chance(1, 8) ? 0 : c.rng.below(n + 1), a = m.ask(c, lim);
        VF_EQ("rank", (uint64_t)wt.rank(i, a), m.rank(i, a), "i=%zu c=%llu", (size_t)i, (unsigned long long)a);
    }
    size_t step = m.syms.size() / 150 + 1;
    for (size_t k = c.rng.below(step); k < m.syms.size(); k += 1 + c.rng.below(2 * step - 1)) {
        uint64_t a = m.syms[k];
        auto& o = m.occ[a];
        VF_EQ("rank-total", (uint64_t)wt.rank(n, a), o.size(), "c=%llu", (unsigned long long)a);
        for (size_t j = 0; j < o.size(); j += 1 + (o.size() > 12 ? c.rng.below(o.size() / 6) : 0)) {
            VF_EQ("select", (uint64_t)wt.select(j + 1, a), o[j], "j=%zu c=%llu", j + 1, (unsigned long long)a);
            VF_EQ("rank-at", (uint64_t)wt.rank(o[j], a), j, "pos=%zu c=%llu", (size_t)o[j], (unsigned long long)a);
            VF_EQ("rank-after", (uint64_t)wt.rank(o[j] + 1, a), j + 1, "pos=%zu c=%llu", (size_t)o[j], (unsigned long long)a);
        }
        VF_EQ("select-last", (uint64_t)wt.select(o.size(), a), o.back(), "c=%llu", (unsigned long long)a);
    }
    if (n <= 3000) iterate(wt, s, 0);
}
#define W(T, name, lim) static vf::Reg VF_CAT(r_, __COUNTER__)(name, 100, 1200, [](vf::Case& c) { run<typename std::decay<decltype(*(vf_t<void T>::p))>::type>(c, lim); });
template <class> struct vf_t; template <class T> struct vf_t<void(T)> { static T* p; };
WT_TYPES(W)
