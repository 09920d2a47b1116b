// symbol sequences for wavelet trees and text indexes
#pragma once
#include "vf.hpp"
#include <map>
#include <set>
#include <sdsl/int_vector.hpp>
typedef std::vector<uint64_t> Seq;
// lim: largest symbol allowed; classes differ in alphabet size, skew, runs, gaps
inline Seq gen_seq(vf::Case& c, uint64_t maxn, uint64_t lim, uint64_t minsym = 0)
{
    auto& r = c.rng;
    Seq s(r.size(maxn));
    uint64_t span = lim - minsym; // symbols minsym..lim
    auto sy = [&](uint64_t x) { return span == ~0ULL ? x : minsym + x % (span + 1); };
    // alphabet
    std::vector<uint64_t> al;
    unsigned ak = r.below(8);
    uint64_t sg = 1 + r.size(ak == 0 ? 1 : ak < 5 ? 20 : 300);
    if (ak == 6) for (uint64_t i = 0; i < sg; ++i) al.push_back(sy(i));                          // dense from the smallest symbol
    else if (ak == 7) for (uint64_t i = 0; i < sg; ++i) al.push_back(span == ~0ULL ? lim - i : lim - i % (span + 1)); // dense up to the largest
    else if (ak == 5) for (uint64_t i = 0; i < sg; ++i) { uint64_t k = r.below(64); al.push_back(sy((1ULL << k) + r.below(3) - 1)); }
    else { // within 2^k
        uint64_t k = 1 + r.below(64);
        uint64_t m = k == 64 ? ~0ULL : (1ULL << k) - 1;
        if (r.chance(1, 2)) m = 255;
        for (uint64_t i = 0; i < sg; ++i) al.push_back(sy(r.next() & m));
    }
    switch (r.below(7)) {
        case 0: for (auto& x : s) x = al[r.below(al.size())]; break;
        case 1: for (auto& x : s) { uint64_t a = r.below(al.size()), b = r.below(al.size()), d = r.below(al.size()); x = al[std::min(a, std::min(b, d))]; } break; // skew
        case 2: { uint64_t L = 1 + r.size(200); for (size_t i = 0; i < s.size();) { uint64_t l = 1 + r.below(L), v = al[r.below(al.size())]; for (; l-- && i < s.size(); ++i) s[i] = v; } break; }
        case 3: { size_t p = 1 + r.size(50); for (size_t i = 0; i < s.size(); ++i) s[i] = i < p ? al[r.below(al.size())] : r.chance(1, 40) ? al[r.below(al.size())] : s[i - p]; break; } // repetitive
        case 4: { for (size_t i = 0; i < s.size(); ++i) s[i] = sy(i); for (size_t i = s.size(); i > 1; --i) std::swap(s[i - 1], s[r.below(i)]); break; } // permutation
        case 5: { // geometric: deep code trees
            for (auto& x : s) { size_t k = 0; while (k + 1 < al.size() && r.chance(1, 2)) ++k; x = al[k]; }
            break;
        }
        default: { std::string a = "a", b = "ab"; while (b.size() < s.size()) { std::string t = b + a; a = b; b = t; } // Fibonacci word
            uint64_t p = al[0], q = al[r.below(al.size())]; for (size_t i = 0; i < s.size(); ++i) s[i] = b[i] == 'a' ? p : q; }
    }
    return s;
}
// exact model of one sequence
struct SeqModel {
    const Seq& s;
    std::map<uint64_t, std::vector<uint64_t>> occ;
    std::vector<uint64_t> syms;
    explicit SeqModel(const Seq& x) : s(x) { for (size_t i = 0; i < s.size(); ++i) occ[s[i]].push_back(i); for (auto& p : occ) syms.push_back(p.first); }
    uint64_t rank(uint64_t i, uint64_t c) const { auto it = occ.find(c); return it == occ.end() ? 0 : std::lower_bound(it->second.begin(), it->second.end(), i) - it->second.begin(); }
    // a symbol to ask for: present, neighbouring or arbitrary
    uint64_t ask(vf::Case& c, uint64_t lim) const
    {
        uint64_t x;
        switch (c.rng.below(5)) {
            case 0: x = c.rng.word(); break;
            case 1: x = syms.empty() ? c.rng.below(300) : syms[c.rng.below(syms.size())] + 1; break;
            case 2: x = syms.empty() ? 0 : syms[c.rng.below(syms.size())] - 1; break;
            default: return syms.empty() ? 0 : syms[c.rng.below(syms.size())];
        }
        return lim == ~0ULL ? x : x % (lim + 1);
    }
};
