// 128/256 bit unsigned arithmetic against a limb-wise schoolbook model
#include "vf.hpp"
#include <sdsl/uint256_t.hpp>
#include <array>
using namespace sdsl;
template <int W> struct Big {
    std::array<uint64_t, W> a{};
    bool bit(int i) const { return i >= 0 && i < 64 * W && (a[i / 64] >> (i % 64) & 1); }
    void set(int i) { a[i / 64] |= 1ULL << (i % 64); }
    bool operator==(const Big& o) const { return a == o.a; }
    int cmp(const Big& o) const { for (int i = W - 1; i >= 0; --i) if (a[i] != o.a[i]) return a[i] < o.a[i] ? -1 : 1; return 0; }
    Big add(const Big& o) const { Big r; int c = 0; for (int i = 0; i < 64 * W; ++i) { int s = bit(i) + o.bit(i) + c; if (s & 1) r.set(i); c = s >> 1; } return r; }
    Big sub(const Big& o) const { Big r; int c = 0; for (int i = 0; i < 64 * W; ++i) { int s = (int)bit(i) - (int)o.bit(i) - c; if (s & 1) r.set(i); c = s < 0; } return r; }
    Big shl(int s) const { Big r; for (int i = 0; i < 64 * W; ++i) if (i - s >= 0 && bit(i - s)) r.set(i); return r; }
    Big shr(int s) const { Big r; for (int i = 0; i < 64 * W; ++i) if (i + s < 64 * W && bit(i + s)) r.set(i); return r; }
    std::string hex() const { std::string s; for (int i = W - 1; i >= 0; --i) { char b[20]; snprintf(b, 20, "%016lx", a[i]); s += b; } return s; }
};
template <int W> Big<W> rnd(vf::Rng& r) { Big<W> b; for (auto& x : b.a) x = r.word(); return b; }
static uint128_t mk(const Big<2>& b) { uint128_t h((uint64_t)b.a[1]); return (h << 64) | uint128_t((uint64_t)b.a[0]); }
static uint256_t mk(const Big<4>& b) { Big<2> h; h.a = {b.a[2], b.a[3]}; return uint256_t(b.a[0], b.a[1], mk(h)); }
static std::string str(const uint128_t& x) { std::ostringstream o; o << x; return o.str(); }
static std::string str(const uint256_t& x) { std::ostringstream o; o << x; return o.str(); }

template <class T, int W> static void arith(vf::Case& c)
{
    for (int rep = 0; rep < 40; ++rep) {
        Big<W> A = rnd<W>(c.rng), Bb = c.rng.chance(1, 6) ? A : rnd<W>(c.rng);
        if (c.rng.chance(1, 6)) { Bb = A; Bb.a[c.rng.below(W)] ^= 1ULL << c.rng.below(64); }
        for (auto x : A.a) c.mixfp(x);
        const T a0 = mk(A), b0 = mk(Bb);
        T a = a0, b = b0;
        if (rep == 0) c.desc("a=%s b=%s (+39 more pairs)", A.hex().c_str(), Bb.hex().c_str());
#define EQ(k, e, w) VF_EQ(k, str(e), (w).hex(), "a=%s b=%s", A.hex().c_str(), Bb.hex().c_str())
        EQ("id", a, A);
        EQ("+", a + b, A.add(Bb));
        EQ("-", a - b, A.sub(Bb));
        { T t = a; t += b; EQ("+=", t, A.add(Bb)); }
        { T t = a; t -= b; EQ("-=", t, A.sub(Bb)); }
        { Big<W> o; for (int i = 0; i < W; ++i) o.a[i] = A.a[i] | Bb.a[i]; EQ("|", a | b, o); T t = a; t |= b; EQ("|=", t, o); }
        { Big<W> o; for (int i = 0; i < W; ++i) o.a[i] = A.a[i] & Bb.a[i]; EQ("&", a & b, o); }
        for (int k = 0; k < 6; ++k) {
            int s = k == 0 ? 0 : (int)c.rng.below(64 * W);
            if (k == 1) s = 64 * (int)c.rng.below(W);
            VF_EQ("<<", str(a << s), A.shl(s).hex(), "a=%s shift %d", A.hex().c_str(), s);
            VF_EQ(">>", str(a >> s), A.shr(s).hex(), "a=%s shift %d", A.hex().c_str(), s);
        }
        int cm = A.cmp(Bb);
        VF_EQ("==", a == b, cm == 0, "a=%s b=%s", A.hex().c_str(), Bb.hex().c_str());
        VF_EQ("!=", a != b, cm != 0, "a=%s b=%s", A.hex().c_str(), Bb.hex().c_str());
        VF_EQ("<", a < b, cm < 0, "a=%s b=%s", A.hex().c_str(), Bb.hex().c_str());
        VF_EQ("<=", a <= b, cm <= 0, "a=%s b=%s", A.hex().c_str(), Bb.hex().c_str());
        VF_EQ(">", a > b, cm > 0, "a=%s b=%s", A.hex().c_str(), Bb.hex().c_str());
        VF_EQ(">=", a >= b, cm >= 0, "a=%s b=%s", A.hex().c_str(), Bb.hex().c_str());
        VF_EQ("lo", (uint64_t)a, A.a[0], "a=%s", A.hex().c_str());
    }
}
template <class T, int W> static void bitops(vf::Case& c)
{
    for (int rep = 0; rep < 20; ++rep) {
        Big<W> A = rnd<W>(c.rng);
        if (c.rng.chance(1, 3)) A.a[c.rng.below(W)] = 0;
        if (c.rng.chance(1, 5)) { A.a.fill(0); A.set(c.rng.below(64 * W)); }
        for (auto x : A.a) c.mixfp(x);
        if (rep == 0) c.desc("a=%s", A.hex().c_str());
        T a = mk(A);
        int cnt = 0, hi = 0;
        for (int i = 0; i < 64 * W; ++i) if (A.bit(i)) hi = i;
        VF_EQ("hi", (int)a.hi(), hi, "a=%s", A.hex().c_str());
        for (int i = 0; i < 64 * W; ++i) if (A.bit(i)) { ++cnt; VF_EQ("select", (int)a.select(cnt), i, "a=%s k=%d", A.hex().c_str(), cnt); }
        VF_EQ("popcount", (int)a.popcount(), cnt, "a=%s", A.hex().c_str());
        T z; z = (uint64_t)A.a[0];
        VF_EQ("=u64", (uint64_t)z, A.a[0], "a");
    }
}
static vf::Reg r1("u128", 150, 2000, arith<uint128_t, 2>);
static vf::Reg r2("u256", 150, 2000, arith<uint256_t, 4>);
static vf::Reg r3("u256bits", 100, 1000, bitops<uint256_t, 4>);
#ifndef MODE_TI
static vf::Reg r4("u128bits", 100, 1000, bitops<uint128_t, 2>);
static void cl(vf::Case& c)
{
    c.desc("class uint128_t mixed operators");
    for (int rep = 0; rep < 50; ++rep) {
        Big<2> A = rnd<2>(c.rng), S; S.a = {c.rng.word(), 0};
        uint128_t a = mk(A);
        c.mixfp(A.a[0]); c.mixfp(A.a[1]);
        VF_EQ("+u64", str(a + (uint64_t)S.a[0]), A.add(S).hex(), "a=%s", A.hex().c_str());
        uint128_t t = a; t += (uint64_t)S.a[0];
        VF_EQ("+=u64", str(t), A.add(S).hex(), "a=%s", A.hex().c_str());
        VF_EQ("~", str(~a), ([&] { Big<2> n; n.a = {~A.a[0], ~A.a[1]}; return n; }()).hex(), "a=%s", A.hex().c_str());
        VF_EQ("==u64", a == (uint64_t)S.a[0], A.cmp(S) == 0, "a");
        VF_EQ(">u64", a > (uint64_t)S.a[0], A.cmp(S) > 0, "a");
    }
}
static vf::Reg r5("u128class", 50, 500, cl);
#endif
