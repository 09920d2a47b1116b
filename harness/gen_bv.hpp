// bit vector generator shared by several harnesses
#pragma once
#include "vf.hpp"
#include <sdsl/int_vector.hpp>
inline void fill_bits(vf::Case& c, std::vector<bool>& b, const char** kind = nullptr)
{
    static const char* names[] = {"uniform", "density", "runs", "blocks", "single", "periodic", "words", "sparse-tail", "mirrored", "alternating-superblocks"};
    uint64_t n = b.size();
    unsigned k = c.rng.below(10);
    if (kind) *kind = names[k];
    switch (k) {
        case 0: { bool v = c.rng.chance(1, 2); for (size_t i = 0; i < n; ++i) b[i] = v; break; }
        case 1: { static const int den[] = {2, 3, 8, 20, 64, 300, 3000}; int d = den[c.rng.below(7)]; bool inv = c.rng.chance(1, 2); for (size_t i = 0; i < n; ++i) b[i] = (c.rng.below(d) == 0) ^ inv; break; }
        case 2: { uint64_t L = 1 + c.rng.size(600); bool v = c.rng.chance(1, 2); for (size_t i = 0; i < n;) { uint64_t l = 1 + c.rng.below(L); for (; l-- && i < n; ++i) b[i] = v; v = !v; } break; }
        case 3: { // uniform / noisy blocks of fixed size
            static const int bs[] = {15, 31, 63, 64, 127, 128, 255, 256, 512, 2048, 4096}; int s = bs[c.rng.below(11)];
            for (size_t i = 0; i < n; i += s) { int m = c.rng.below(4); for (size_t j = i; j < std::min<size_t>(n, i + s); ++j) b[j] = m == 0 ? 0 : m == 1 ? 1 : m == 2 ? c.rng.chance(1, 2) : c.rng.chance(1, 30); }
            break;
        }
        case 4: { bool v = c.rng.chance(1, 2); for (size_t i = 0; i < n; ++i) b[i] = v; for (int q = c.rng.range(1, 3); q-- && n;) b[c.rng.chance(1, 3) ? n - 1 : c.rng.chance(1, 2) ? 0 : c.rng.below(n)] = !v; break; }
        case 5: { uint64_t p = 1 + c.rng.below(70), q = c.rng.below(p + 1); for (size_t i = 0; i < n; ++i) b[i] = i % p < q; break; }
        case 6: for (size_t i = 0; i < n; i += 64) { uint64_t w = c.rng.word(); for (size_t j = 0; j < 64 && i + j < n; ++j) b[i + j] = w >> j & 1; } break;
        case 7: { uint64_t t = n ? c.rng.below(n) : 0; for (size_t i = 0; i < n; ++i) b[i] = i < t ? c.rng.chance(1, 2) : c.rng.chance(1, 500); break; }
        case 8: { for (size_t i = 0; i < n; ++i) b[i] = c.rng.chance(1, 4); for (size_t i = 0; i < n / 2; ++i) b[n - 1 - i] = !b[i]; break; }
        default: { uint64_t s = 1 + c.rng.below(5000); for (size_t i = 0; i < n; ++i) { unsigned m = (i / s) % 4; b[i] = m == 0 ? c.rng.chance(1, 2) : m == 1 ? 0 : m == 2 ? c.rng.chance(1, 100) : 1; } }
    }
}
// dirty: the unused bits of the last word are not zero (as after bit_vector(n,1) or shrinking)
inline sdsl::bit_vector to_bv(const std::vector<bool>& b, bool dirty)
{
    // grown within or beyond its last word, so that the padding behind the last word is exercised, too
    const size_t g = b.size() % 64 == 0 && !b.empty() ? 1 + b.size() / 64 % 70 : 0;
    sdsl::bit_vector v(b.size() - std::min(g, b.size()), dirty ? 1 : 0);
    if (g) { v.resize(b.size()); }
    for (size_t i = 0; i < b.size(); ++i) v[i] = b[i];
    return v;
}
inline std::vector<bool> gen_bits(vf::Case& c, uint64_t maxn, const char** kind = nullptr)
{
    std::vector<bool> b(c.rng.size(maxn));
    fill_bits(c, b, kind);
    c.mixv(b);
    c.trivial_if(b.empty());
    return b;
}
struct BitModel {
    std::vector<bool> b;
    std::vector<uint64_t> one, zero; // positions
    std::vector<uint32_t> r1;        // prefix counts
    explicit BitModel(std::vector<bool> x) : b(std::move(x)), r1(b.size() + 1, 0)
    {
        for (size_t i = 0; i < b.size(); ++i) { r1[i + 1] = r1[i] + b[i]; (b[i] ? one : zero).push_back(i); }
    }
    uint64_t bits(uint64_t at, unsigned len) const { uint64_t x = 0; for (unsigned j = 0; j < len; ++j) x |= (uint64_t)b[at + j] << j; return x; }
};
// visit all of [lo,hi) when small, otherwise both ends and a sample
template <class F> void visit(vf::Case& c, uint64_t lo, uint64_t hi, uint64_t full, F f)
{
    if (lo >= hi) return;
    if (hi - lo <= full) { for (uint64_t i = lo; i < hi; ++i) f(i); return; }
    for (uint64_t i = lo; i < lo + 130; ++i) f(i);
    for (uint64_t i = hi - 130; i < hi; ++i) f(i);
    uint64_t step = (hi - lo) / full + 1;
    for (uint64_t i = lo + c.rng.below(step); i < hi; i += 1 + c.rng.below(2 * step)) f(i);
    for (int k = 0; k < 40; ++k) { uint64_t base = lo + c.rng.below(hi - lo); for (uint64_t i = base; i < std::min(hi, base + 5); ++i) f(i); }
}
