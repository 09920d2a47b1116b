// word primitives against their bit-by-bit definitions
#include "vf.hpp"
#include <sdsl/bits.hpp>
#include <memory>
using namespace sdsl;
typedef std::vector<bool> B;
static B tob(uint64_t x) { B b(64); for (int i = 0; i < 64; ++i) b[i] = (x >> i) & 1; return b; }

struct M11 { std::vector<int> pos; int carry; };
static M11 ref11(uint64_t x, int c)
{
    M11 m; int prev = c;
    for (int i = 0; i < 64; ++i) {
        int b = (x >> i) & 1;
        if (b && prev) { m.pos.push_back(i); prev = 0; } else prev = b;
    }
    m.carry = prev; return m;
}
static void word_checks(uint64_t x)
{
    B b = tob(x);
    int cnt = 0, hi = 0, lo = 0; bool seen = false; uint64_t rv = 0;
    for (int i = 0; i < 64; ++i) if (b[i]) { ++cnt; hi = i; if (!seen) { lo = i; seen = true; } rv |= 1ULL << (63 - i); }
    VF_EQ("cnt", bits::cnt(x), (uint64_t)cnt, "x=%016lx", x);
    VF_EQ("hi", bits::hi(x), (uint32_t)hi, "x=%016lx", x);
    VF_EQ("lo", bits::lo(x), (uint32_t)lo, "x=%016lx", x);
    VF_EQ("rev", bits::rev(x), rv, "x=%016lx", x);
    VF_EQ("cnt32", bits::cnt32((uint32_t)x), (uint32_t)__builtin_popcount((uint32_t)x), "x=%08x", (uint32_t)x);
    VF_EQ("cnt32", bits::cnt32((uint32_t)(x >> 32)), (uint32_t)__builtin_popcount((uint32_t)(x >> 32)), "x=%08x", (uint32_t)(x >> 32));
    int k = 0;
    for (int i = 0; i < 64; ++i) if (b[i]) { ++k; VF_EQ("sel", bits::sel(x, k), (uint32_t)i, "x=%016lx k=%d", x, k); VF_EQ("_sel", bits::_sel(x, k), (uint32_t)i, "x=%016lx k=%d", x, k); }
    for (int c = 0; c < 2; ++c) {
        uint64_t m10 = 0, m01 = 0; int p = c;
        for (int i = 0; i < 64; ++i) { if (p && !b[i]) m10 |= 1ULL << i; if (!p && b[i]) m01 |= 1ULL << i; p = b[i]; }
        uint64_t cc = c;
        VF_EQ("cnt10", bits::cnt10(x, cc), (uint32_t)__builtin_popcountll(m10), "x=%016lx c=%d", x, c);
        VF_EQ("cnt10 carry", cc, x >> 63, "x=%016lx", x);
        cc = c;
        VF_EQ("cnt01", bits::cnt01(x, cc), (uint32_t)__builtin_popcountll(m01), "x=%016lx c=%d", x, c);
        VF_EQ("cnt01 carry", cc, x >> 63, "x=%016lx", x);
        VF_EQ("map10", bits::map10(x, c), m10, "x=%016lx c=%d", x, c);
        VF_EQ("map01", bits::map01(x, c), m01, "x=%016lx c=%d", x, c);
        M11 m = ref11(x, c);
        cc = c;
        VF_EQ("cnt11 c", bits::cnt11(x, cc), (uint32_t)m.pos.size(), "x=%016lx c=%d", x, c);
        VF_EQ("cnt11 carry", cc, (uint64_t)m.carry, "x=%016lx c=%d", x, c);
        for (size_t i = 0; i < m.pos.size(); ++i) VF_EQ("sel11", bits::sel11(x, i + 1, c), (uint32_t)m.pos[i], "x=%016lx i=%zu c=%d", x, i + 1, c);
    }
    M11 m = ref11(x, 0);
    VF_EQ("cnt11", bits::cnt11(x), (uint32_t)m.pos.size(), "x=%016lx", x);
    VF_EQ("hi11", bits::hi11(x), (uint32_t)(m.pos.empty() ? 0 : m.pos.back()), "x=%016lx", x);
}
VF_SUITE("words", 160, 1600)
{
    c.desc("500 words, first drawn with seed %lx", c.seed);
    c.mixfp(c.seed);
    if (c.idx < 64) { // every single, double and run pattern containing bit idx
        int i = c.idx;
        for (int j = 0; j < 64; ++j) {
            word_checks((1ULL << i) | (1ULL << j));
            word_checks(~((1ULL << i) | (1ULL << j)));
            uint64_t run = i == 63 ? ~0ULL : ((1ULL << (i + 1)) - 1);
            word_checks(run << j);
            word_checks(run >> j);
            word_checks(0x5555555555555555ULL ^ (1ULL << i) ^ (1ULL << j));
        }
        for (int v = 0; v < 256; ++v) { word_checks((uint64_t)v << (i / 8 * 8)); word_checks(((uint64_t)v * 0x0101010101010101ULL) ^ ((uint64_t)i << (v % 58))); }
        return;
    }
    for (int i = 0; i < 500; ++i) word_checks(c.rng.chance(1, 2) ? c.rng.word() : c.rng.word() ^ c.rng.word());
}
VF_SUITE("tables", 1, 1)
{
    c.desc("lookup tables");
    for (int i = 0; i <= 64; ++i) {
        uint64_t s = i == 64 ? ~0ULL : ((1ULL << i) - 1);
        VF_EQ("lo_set", bits::lo_set[i], s, "i=%d", i);
        VF_EQ("lo_unset", bits::lo_unset[i], ~s, "i=%d", i);
    }
    uint64_t a = 1, b = 2;
    for (int i = 0; i < 92; ++i) { VF_EQ("lt_fib", bits::lt_fib[i], a, "i=%d", i); uint64_t t = a + b; a = b; b = t; }
    for (int i = 0; i < 256; ++i) {
        VF_EQ("lt_cnt", (int)bits::lt_cnt[i], __builtin_popcount(i), "i=%d", i);
        if (i) { VF_EQ("lt_hi", (int)bits::lt_hi[i], 31 - __builtin_clz(i), "i=%d", i); VF_EQ("lt_lo", (int)bits::lt_lo[i], __builtin_ctz(i), "i=%d", i); }
        int k = 0;
        for (int j = 0; j < 8; ++j) if (i >> j & 1) { VF_EQ("lt_sel", (int)bits::lt_sel[256 * k + i], j, "i=%d k=%d", i, k); ++k; }
    }
}
// bit pointer read/write histories against a bool vector; buffer sized exactly so that a write or read past the
// last touched word is a heap overflow
VF_SUITE("bitptr", 300, 4000)
{
    uint64_t nw = c.rng.range(1, 6);
    c.desc("buffer of %lu words, 60 random read/write ops", nw);
    uint64_t* buf = (uint64_t*)malloc(nw * 8);
    std::unique_ptr<uint64_t, void (*)(void*)> guard(buf, free);
    B ref(nw * 64);
    for (uint64_t i = 0; i < nw; ++i) { buf[i] = c.rng.word(); for (int j = 0; j < 64; ++j) ref[64 * i + j] = buf[i] >> j & 1; c.mixfp(buf[i]); }
    auto rd = [&](uint64_t p, int len) { uint64_t v = 0; for (int j = 0; j < len; ++j) if (ref[p + j]) v |= 1ULL << j; return v; };
    for (int op = 0; op < 60; ++op) {
        int len = c.rng.chance(1, 4) ? (int)c.rng.range(63, 64) : (int)c.rng.range(0, 64);
        if ((uint64_t)len > nw * 64) len = nw * 64;
        uint64_t p = c.rng.chance(1, 3) ? nw * 64 - len : c.rng.range(0, nw * 64 - len);
        if (p == nw * 64) continue; // len 0 at the end: no word to point at
        uint8_t off = p & 63;
        uint64_t* w = buf + p / 64;
        uint64_t x = c.rng.word();
        switch (c.rng.below(9)) {
            case 0: VF_EQ("read_int", bits::read_int(w, off, len), rd(p, len), "pos=%lu len=%d", p, len); break;
            case 1: case 2: {
                if (op & 1) bits::write_int(w, x, off, len);
                else {
                    uint64_t* w2 = w; uint8_t o2 = off;
                    bits::write_int_and_move(w2, x, o2, len);
                    VF_EQ("write_int_and_move pos", (uint64_t)(w2 - buf) * 64 + o2, p + len, "pos=%lu len=%d", p, len);
                    VF_TRUE("write_int_and_move off", o2 < 64, "offset %d", o2);
                }
                for (int j = 0; j < len; ++j) ref[p + j] = x >> j & 1;
                for (uint64_t i = 0; i < nw; ++i) VF_EQ("write_int", buf[i], rd(64 * i, 64), "after write pos=%lu len=%d x=%lx word %lu", p, len, x, i);
                break;
            }
            case 3: {
                const uint64_t* w2 = w; uint8_t o2 = off;
                VF_EQ("read_int_and_move", bits::read_int_and_move(w2, o2, len), rd(p, len), "pos=%lu len=%d", p, len);
                VF_EQ("read_int_and_move pos", (uint64_t)(w2 - buf) * 64 + o2, p + len, "pos=%lu len=%d", p, len);
                break;
            }
            case 4: {
                uint64_t q = p; while (q < nw * 64 && !ref[q]) ++q;
                if (q == nw * 64) break;
                VF_EQ("read_unary", bits::read_unary(w, off), q - p, "pos=%lu", p);
                const uint64_t* w2 = w; uint8_t o2 = off;
                VF_EQ("read_unary_and_move", bits::read_unary_and_move(w2, o2), q - p, "pos=%lu", p);
                VF_EQ("read_unary_and_move pos", (uint64_t)(w2 - buf) * 64 + o2, q + 1, "pos=%lu", p);
                VF_EQ("next", bits::next(buf, p), q, "pos=%lu", p);
                break;
            }
            case 5: {
                int64_t q = p; while (q >= 0 && !ref[q]) --q;
                if (q < 0) break;
                VF_EQ("prev", bits::prev(buf, p), (uint64_t)q, "pos=%lu", p);
                break;
            }
            case 6: {
                const uint64_t* w2 = w; uint8_t o2 = off;
                bits::move_right(w2, o2, len);
                VF_EQ("move_right", (uint64_t)(w2 - buf) * 64 + o2, p + len, "pos=%lu len=%d", p, len);
                break;
            }
            case 7: {
                if ((uint64_t)len > p) len = p;
                const uint64_t* w2 = w; uint8_t o2 = off;
                bits::move_left(w2, o2, len);
                VF_EQ("move_left", (uint64_t)(w2 - buf) * 64 + o2, p - len, "pos=%lu len=%d", p, len);
                break;
            }
            default: { // sparse buffer for long unary runs
                for (uint64_t i = 0; i < nw; ++i) { buf[i] = 0; }
                uint64_t bpos = c.rng.below(nw * 64);
                buf[bpos / 64] |= 1ULL << (bpos % 64);
                for (uint64_t i = 0; i < nw * 64; ++i) ref[i] = i == bpos;
            }
        }
    }
}
