// texts for suffix structures: symbols >= 1, no sentinel; repeats of every length
#pragma once
#include "gen_seq.hpp"
#include <numeric>
// suffix tree nodes with many children; few of them (first, last, or anywhere) are inner nodes
inline Seq gen_fan(vf::Case& c, uint64_t maxn, uint64_t lim)
{
    auto& r = c.rng;
    Seq s;
    uint64_t ctxs = 1 + r.below(3), room = maxn / (2 * ctxs) + 1, F = std::max<uint64_t>(1, std::min(lim > 8 ? (lim - 4) / (r.chance(1, 2) ? 1 : ctxs) : 1, room));
    if (r.chance(1, 3)) F = 1 + r.below(F);
    bool disjoint = F * ctxs + 4 <= lim, high = r.chance(1, 2); // contexts above or below the fan
    std::vector<Seq> words;
    for (uint64_t k = 0; k < ctxs; ++k) {
        Seq ctx; for (uint64_t q = 1 + r.below(3); q--;) ctx.push_back(high ? lim - r.below(std::min<uint64_t>(lim, 3)) : 1 + r.below(std::min<uint64_t>(lim, 3)));
        uint64_t base = std::min<uint64_t>(lim, 4) + (disjoint ? k * F : 0);
        if (high) base = 1 + (disjoint ? k * F : 0);
        for (uint64_t f = 0; f < F; ++f) { Seq w(ctx); w.push_back(std::min<uint64_t>(lim, base + f)); words.push_back(w); }
        for (uint64_t q = r.below(4); q--;) { // an inner child
            uint64_t f = r.chance(1, 3) ? 0 : r.chance(1, 2) ? F - 1 : r.below(F);
            Seq w(ctx); w.push_back(std::min<uint64_t>(lim, base + f)); words.push_back(w);
        }
    }
    if (r.chance(2, 3)) for (size_t i = words.size(); i > 1; --i) std::swap(words[i - 1], words[r.below(i)]);
    for (auto& w : words) s.insert(s.end(), w.begin(), w.end());
    if (s.size() > 2 * maxn) s.resize(2 * maxn);
    c.mixv(s);
    return s;
}
inline Seq gen_text(vf::Case& c, uint64_t maxn, uint64_t lim, bool nonempty = true)
{
    auto& r = c.rng;
    Seq s;
    switch (r.below(11)) {
        case 10: s = gen_fan(c, maxn, lim); if (s.size() > maxn) s.resize(maxn); break;
        case 0: { // one run, maybe with a few other symbols
            s.assign(r.size(maxn), 1 + r.below(lim));
            for (uint64_t k = r.below(4); k-- && s.size();) s[r.below(s.size())] = 1 + r.below(lim);
            break;
        }
        case 1: { // exactly periodic
            uint64_t n = r.size(maxn), p = 1 + r.size(30), sg = 1 + r.below(std::min<uint64_t>(lim, 4));
            for (uint64_t i = 0; i < n; ++i) s.push_back(i < p ? 1 + r.below(sg) : s[i - p]);
            break;
        }
        case 2: { // copies of earlier blocks (long repeats) with rare edits
            uint64_t n = r.size(maxn), sg = 1 + r.below(std::min<uint64_t>(lim, 26)), base = 1 + r.below(lim - sg + 1);
            while (s.size() < n) {
                if (s.size() < 4 || r.chance(1, 4)) { for (uint64_t k = 1 + r.below(40); k--;) s.push_back(base + r.below(sg)); }
                else { uint64_t a = r.below(s.size()), l = 1 + r.below(s.size() - a); for (uint64_t k = 0; k < l && s.size() < n; ++k) s.push_back(s[a + k]); }
            }
            s.resize(n);
            break;
        }
        case 3: { // every symbol of the alphabet, all borders
            uint64_t n = r.size(maxn), m = std::min<uint64_t>(lim, 255);
            for (uint64_t i = 0; i < n; ++i) s.push_back(i < m ? lim - i : lim - r.below(m));
            for (size_t i = s.size(); i > 1; --i) std::swap(s[i - 1], s[r.below(i)]);
            if (r.chance(1, 2)) { // long repeats over the full alphabet
                uint64_t k = std::min<uint64_t>(n, m + r.below(40));
                for (uint64_t i = k; i < n; ++i) s[i] = r.chance(1, 400) ? lim - r.below(m) : s[i - k];
            }
            break;
        }
        case 4: { // monotone / zigzag
            uint64_t n = r.size(maxn), w = 1 + r.below(std::min<uint64_t>(lim, 200)); unsigned k = r.below(3);
            for (uint64_t i = 0; i < n; ++i) { uint64_t v = i * w / std::max<uint64_t>(1, n); s.push_back(1 + (k == 0 ? v : k == 1 ? w - 1 - v : (i % 2 ? v : w - 1 - v))); }
            break;
        }
        case 5: { // binary words: de Bruijn like, Thue-Morse
            uint64_t n = r.size(maxn), a = 1 + r.below(lim), b = 1 + r.below(lim);
            for (uint64_t i = 0; i < n; ++i) s.push_back(__builtin_popcountll(i) & 1 ? a : b);
            break;
        }
        case 6: { // uniform over few symbols
            uint64_t n = r.size(maxn), sg = 1 + r.below(std::min<uint64_t>(lim, 6)), base = 1 + r.below(lim - sg + 1);
            for (uint64_t i = 0; i < n; ++i) s.push_back(base + r.below(sg));
            break;
        }
        default: s = gen_seq(c, maxn, lim, 1);
    }
    if (s.empty() && nonempty) s.push_back(1 + r.below(lim));
    c.mixv(s);
    return s;
}
// reference suffix structures of text+sentinel, by radix doubling (independent of the code under test)
struct TextModel {
    Seq t; // with the final 0
    std::vector<uint64_t> sa, isa, lcp, bwt;
    uint64_t n;
    explicit TextModel(const Seq& s, bool with_lcp = true) : t(s)
    {
        t.push_back(0);
        n = t.size();
        sa.resize(n); isa.resize(n);
        std::vector<uint64_t> rk(n), tmp(n), sa2(n), cnt;
        { // initial ranks
            std::vector<uint64_t> al(t); std::sort(al.begin(), al.end()); al.erase(std::unique(al.begin(), al.end()), al.end());
            for (uint64_t i = 0; i < n; ++i) rk[i] = std::lower_bound(al.begin(), al.end(), t[i]) - al.begin();
            std::iota(sa.begin(), sa.end(), 0);
            std::stable_sort(sa.begin(), sa.end(), [&](uint64_t a, uint64_t b) { return rk[a] < rk[b]; });
        }
        for (uint64_t k = 1;; k <<= 1) {
            // sort by (rk[i], rk[i+k]); sa is sorted by the first k/2.. symbols
            uint64_t m = 0;
            for (uint64_t i = n - std::min(k, n); i < n; ++i) sa2[m++] = i;
            for (uint64_t i = 0; i < n; ++i) if (sa[i] >= k) sa2[m++] = sa[i] - k;
            uint64_t mr = 0; for (auto x : rk) mr = std::max(mr, x);
            cnt.assign(mr + 2, 0);
            for (auto x : rk) ++cnt[x + 1];
            for (uint64_t i = 1; i < cnt.size(); ++i) cnt[i] += cnt[i - 1];
            for (uint64_t i = 0; i < n; ++i) sa[cnt[rk[sa2[i]]]++] = sa2[i];
            tmp[sa[0]] = 0;
            for (uint64_t i = 1; i < n; ++i) {
                uint64_t a = sa[i - 1], b = sa[i];
                bool same = rk[a] == rk[b] && (a + k < n ? rk[a + k] + 1 : 0) == (b + k < n ? rk[b + k] + 1 : 0);
                tmp[b] = tmp[a] + !same;
            }
            rk.swap(tmp);
            if (rk[sa[n - 1]] == n - 1) break;
        }
        for (uint64_t i = 0; i < n; ++i) isa[sa[i]] = i;
        bwt.resize(n);
        for (uint64_t i = 0; i < n; ++i) bwt[i] = t[(sa[i] + n - 1) % n];
        if (with_lcp) {
            lcp.assign(n, 0);
            uint64_t l = 0;
            for (uint64_t i = 0; i < n; ++i) {
                if (isa[i] == 0) { l = 0; continue; }
                uint64_t j = sa[isa[i] - 1];
                while (i + l < n && j + l < n && t[i + l] == t[j + l]) ++l;
                lcp[isa[i]] = l;
                if (l) --l;
            }
        }
    }
};
