// C09: universal codes round-trip, lengths, prefix sums
#include "vf.hpp"
#include <sdsl/coder.hpp>
#include <sdsl/int_vector.hpp>
#include <memory>
using namespace sdsl;
// values a code can carry.  Zero stands for 2^64 in the self-delimiting codes (single values) and is 0 again modulo 2^64.
static std::vector<uint64_t> gen_vals(vf::Case& c, bool zero, unsigned maxbits)
{
    std::vector<uint64_t> v(c.rng.chance(1, 12) ? 0 : 1 + c.rng.size(c.rng.chance(1, 5) ? 1500 : 200));
    unsigned kind = c.rng.below(9);
    uint64_t m = maxbits >= 64 ? ~0ULL : (1ULL << maxbits) - 1;
    for (size_t i = 0; i < v.size(); ++i) {
        uint64_t x;
        switch (kind) {
            case 0: x = 1; break;
            case 1: x = 1 + c.rng.below(3); break;
            case 2: x = 1 + c.rng.below(20); break;
            case 3: x = c.rng.chance(1, 15) ? c.rng.word() : 1; break;
            case 4: x = c.rng.next() >> c.rng.below(64); break;
            case 5: { uint64_t b = 1ULL << c.rng.below(64); x = b - 1 + c.rng.below(3); break; }
            case 6: x = c.rng.word(); break;
            case 7: x = (i / 30) % 2 ? c.rng.next() >> (20 + c.rng.below(40)) : 1 + c.rng.below(2); break;
            default: x = bits::lt_fib[c.rng.below(sizeof(bits::lt_fib) / 8)] - 1 + c.rng.below(3);
        }
        x &= m;
        if (!x && !(zero && c.rng.chance(1, 2))) x = 1 + c.rng.below(std::min<uint64_t>(m, 6));
        v[i] = x;
    }
    c.mixv(v);
    c.mixfp(kind);
    return v;
}
template <class C> static bool zero_native() { return false; }
#define CZ(w) template <> bool zero_native<coder::comma<w>>() { return true; }
CZ(2) CZ(4) CZ(8) CZ(16) CZ(5) CZ(31) CZ(32)
template <class C> void run(vf::Case& c)
{
    auto v = gen_vals(c, true, 64);
    c.trivial_if(v.empty());
    // encode value by value at a random bit offset inside a buffer with known content, exactly as long as needed
    uint64_t off0 = c.rng.below(130), bitsN = off0;
    std::vector<uint64_t> pos;
    for (auto x : v) {
        pos.push_back(bitsN);
        uint64_t l = C::encoding_length(x);
        VF_TRUE("length", l >= C::min_codeword_length && l <= 255, "length %lu of %lx", l, x);
        bitsN += l;
    }
    pos.push_back(bitsN);
    size_t words = (bitsN + 64) / 64;
    // heap block of the size an int_vector of bitsN bits has: accesses behind it are caught by the address sanitizer
    std::unique_ptr<uint64_t[]> buf(new uint64_t[words + (words == 0)]);
    std::unique_ptr<uint64_t[]> ref(new uint64_t[words + (words == 0)]);
    for (size_t i = 0; i < words; ++i) ref[i] = buf[i] = c.rng.word();
    c.desc("n=%zu off=%lu bits=%lu", v.size(), off0, bitsN);
    uint64_t* p = buf.get() + off0 / 64;
    uint8_t o = off0 % 64;
    for (size_t i = 0; i < v.size(); ++i) {
        if (pos[i + 1] % 64 == 0 && i + 1 == v.size()) { /* pointer may legally point one behind the end afterwards */ }
        C::encode(v[i], p, o);
        VF_EQ("encode-advance", (uint64_t)(p - buf.get()) * 64 + o, pos[i + 1], "value %lx", v[i]);
    }
    for (uint64_t b = 0; b < off0; ++b) VF_TRUE("encode-clobber", ((buf[b / 64] ^ ref[b / 64]) >> (b % 64) & 1) == 0, "bit %lu before the code changed", b);
    for (uint64_t b = bitsN; b < words * 64; ++b) VF_TRUE("encode-clobber", ((buf[b / 64] ^ ref[b / 64]) >> (b % 64) & 1) == 0, "bit %lu behind the code changed", b);
    // decode from every (or a sample of) start, all n
    const uint64_t* d = buf.get();
    for (size_t q = 0; q < std::min<size_t>(v.size(), 60); ++q) {
        size_t s = v.size() <= 60 ? q : c.rng.below(v.size());
        uint64_t x = C::template decode<false, false, uint64_t*>(d, pos[s], 1);
        VF_EQ("decode1", x, v[s], "value #%zu", s);
        size_t n = c.rng.chance(1, 3) ? v.size() - s : 1 + c.rng.below(std::min<size_t>(v.size() - s, 140));
        std::vector<uint64_t> out(n);
        uint64_t last = C::template decode<false, true>(d, pos[s], n, out.begin());
        VF_EQ("decode-last", last, v[s + n - 1], "start %zu n %zu", s, n);
        uint64_t sum = 0;
        bool z = false;
        for (size_t i = 0; i < n; ++i) {
            VF_EQ("decode-n", out[i], v[s + i], "start %zu n %zu i %zu", s, n, i);
            sum += v[s + i];
            z |= !v[s + i];
        }
        last = C::template decode<true, true>(d, pos[s], n, out.begin());
        VF_EQ("decode-sum", last, sum, "start %zu n %zu", s, n);
        uint64_t run = 0;
        for (size_t i = 0; i < n; ++i) { run += v[s + i]; VF_EQ("decode-sums", out[i], run, "start %zu n %zu i %zu", s, n, i); }
        last = C::template decode<true, false, uint64_t*>(d, pos[s], n);
        VF_EQ("decode-sum2", last, sum, "start %zu n %zu", s, n);
        (void)z;
        VF_EQ("prefix-sum", C::decode_prefix_sum(d, pos[s], n), sum, "start %zu n %zu", s, n);
        VF_EQ("prefix-sum-end", C::decode_prefix_sum(d, pos[s], pos[s + n], n), sum, "start %zu n %zu", s, n);
        VF_EQ("prefix-sum-0", C::decode_prefix_sum(d, pos[s], 0), 0ULL, "start %zu", s);
    }
    // whole vectors of any width: encode and decode invert each other
    unsigned w = c.rng.chance(1, 4) ? 64 : c.rng.range(1, 64);
    auto u = gen_vals(c, true, w);
    int_vector<> a(u.size(), 0, w), z(c.rng.below(5), 1, 7), b(c.rng.below(5), 1, 9);
    for (size_t i = 0; i < u.size(); ++i) a[i] = u[i];
    VF_TRUE("vec-encode", C::encode(a, z), "refused");
    uint64_t tot = 0;
    for (auto x : u) tot += (x || zero_native<C>()) ? C::encoding_length(x) : w < 64 ? C::encoding_length(1ULL << w) : C::encoding_length(0);
    VF_EQ("vec-bits", z.bit_size(), tot, "w %u n %zu", w, u.size());
    C::decode(z, b);
    VF_EQ("vec-size", b.size(), u.size(), "w %u", w);
    VF_EQ("vec-width", (unsigned)b.width(), w, " ");
    for (size_t i = 0; i < u.size(); ++i) VF_EQ("vec-value", (uint64_t)b[i], u[i], "w %u i %zu", w, i);
}
// all short codewords
template <class C> void exhaustive(vf::Case& c)
{
    uint64_t base = (zero_native<C>() ? 0 : 1) + c.idx * 4096;
    c.mixfp(c.idx);
    c.desc("values %lu..%lu", base, base + 4095);
    for (uint64_t x = base; x < base + 4096; ++x) {
        uint64_t buf[3] = {0, 0, 0};
        uint64_t* p = buf;
        uint8_t o = x % 64;
        C::encode(x, p, o);
        VF_EQ("len", (uint64_t)(p - buf) * 64 + o, x % 64 + C::encoding_length(x), "%lu", x);
        uint64_t y = C::template decode<false, false, uint64_t*>(buf, x % 64, 1);
        VF_EQ("dec", y, x, "offset %lu", x % 64);
        VF_EQ("ps", C::decode_prefix_sum(buf, x % 64, 1), x, "offset %lu", x % 64);
    }
}
// independent definition of the code words (bit strings, low bit first)
static std::string bin(uint64_t x, unsigned n) { std::string s; for (unsigned i = 0; i < n; ++i) s += '0' + (x >> i & 1); return s; }
template <class C> struct word;
template <> struct word<coder::elias_gamma> { static std::string s(uint64_t x) { unsigned l = bits::hi(x); return std::string(l, '0') + "1" + bin(x, l); } };
template <> struct word<coder::elias_delta> { static std::string s(uint64_t x) { unsigned L = bits::hi(x) + 1, l = bits::hi(L); return std::string(l, '0') + "1" + bin(L, l) + bin(x, L - 1); } };
template <> struct word<coder::fibonacci> {
    static std::string s(uint64_t x)
    { // Zeckendorf, least significant first, closing 1
        std::vector<unsigned __int128> f{1, 2};
        while (f.back() <= x) f.push_back(f[f.size() - 1] + f[f.size() - 2]);
        std::string r;
        bool on = false;
        for (size_t i = f.size(); i--;) { if (f[i] <= x) { x -= f[i]; r += '1'; on = true; } else if (on) r += '0'; }
        std::reverse(r.begin(), r.end());
        return r + "1";
    }
};
template <uint8_t W> struct word<coder::comma<W>> {
    static std::string s(uint64_t x)
    {
        uint64_t b = (1ULL << W) - 1;
        std::vector<uint64_t> d;
        while (x) { d.push_back(x % b); x /= b; }
        std::string r;
        for (size_t i = d.size(); i--;) r += bin(d[i], W);
        return r + bin(b, W);
    }
};
template <class C> void words(vf::Case& c)
{
    auto v = gen_vals(c, zero_native<C>(), 64);
    c.trivial_if(v.empty());
    for (auto x : v) {
        std::string w = word<C>::s(x);
        uint64_t buf[6] = {0}, *p = buf;
        uint8_t o = 0;
        VF_EQ("word-length", (size_t)C::encoding_length(x), w.size(), "%lx", x);
        C::encode(x, p, o);
        std::string g;
        for (size_t i = 0; i < w.size(); ++i) g += '0' + (buf[i / 64] >> (i % 64) & 1);
        VF_EQ("word", g, w, "%lx", x);
    }
}
template <class C> struct add {
    add(const std::string& n)
    {
        static vf::Reg r1("roundtrip-" + n, 150, 6000, run<C>), r2("small-" + n, 8, 256, exhaustive<C>), r3("codeword-" + n, 40, 2000, words<C>);
    }
};
static add<coder::elias_delta> a1("delta");
static add<coder::elias_gamma> a2("gamma");
static add<coder::fibonacci> a3("fibonacci");
static add<coder::comma<2>> a4("comma2");
static add<coder::comma<4>> a5("comma4");
static add<coder::comma<8>> a6("comma8");
static add<coder::comma<16>> a7("comma16");
static add<coder::comma<5>> a8("comma5");
static add<coder::comma<31>> a9("comma31");
static add<coder::comma<32>> a10("comma32");
