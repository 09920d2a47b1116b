// int_vector histories against a bit-string model
#include "vf.hpp"
#include <sdsl/int_vector.hpp>
#include <sdsl/util.hpp>
#include <sstream>
#ifndef VW
#define VW 0
#endif
using namespace sdsl;
namespace
{
typedef int_vector<VW> V;
static const unsigned LMAX = (VW == 8 || VW == 16 || VW == 32) ? VW : 64; // get_int/set_int exchange value_type
struct M {
    std::vector<bool> b;
    unsigned w = VW ? VW : 64;
    size_t n() const { return b.size() / w; }
    uint64_t bitsat(size_t p, unsigned l) const { uint64_t r = 0; for (unsigned j = 0; j < l; ++j) if (b[p + j]) r |= 1ULL << j; return r; }
    void setbits(size_t p, unsigned l, uint64_t x) { for (unsigned j = 0; j < l; ++j) b[p + j] = x >> j & 1; }
    uint64_t get(size_t i) const { return bitsat(i * w, w); }
    void set(size_t i, uint64_t x) { setbits(i * w, w, x); }
    uint64_t mask() const { return w == 64 ? ~0ULL : (1ULL << w) - 1; }
};
static std::string hist;
static void H(const std::string& s) { hist += s; hist += ' '; if (hist.size() > 700) hist = "..." + hist.substr(hist.size() - 600); }

static void same(const V& v, const M& m, const char* after)
{
    VF_EQ("width", (unsigned)v.width(), m.w, "after %s: %s", after, hist.c_str());
    VF_EQ("bit_size", v.bit_size(), m.b.size(), "after %s: %s", after, hist.c_str());
    VF_EQ("size", v.size(), m.n(), "after %s: %s", after, hist.c_str());
    VF_EQ("empty", v.empty(), m.b.empty(), "after %s", after);
    VF_TRUE("capacity", v.capacity() >= v.bit_size() && v.capacity() % 64 == 0, "capacity %lu", v.capacity());
    size_t i = 0;
    for (; i < m.n(); ++i) VF_EQ("operator[]", (uint64_t)v[i], m.get(i), "i=%zu n=%zu w=%u after %s: %s", i, m.n(), m.w, after, hist.c_str());
    i = 0;
    if (m.n()) {
        for (auto x : v) { VF_EQ("const iteration", (uint64_t)x, m.get(i), "i=%zu after %s: %s", i, after, hist.c_str()); ++i; }
        VF_EQ("iteration length", i, m.n(), "after %s", after);
    }
    for (size_t p = m.n() * m.w; p < m.b.size(); ++p) VF_EQ("tail bits", v.get_int(p, 1), (uint64_t)m.b[p], "bit %zu after %s: %s", p, after, hist.c_str());
}
static M mk_model(const V& v, unsigned w) { M m; m.w = w; (void)v; return m; }

template <class R> struct refops { // arithmetic proxies
    template <class X> static void go(X& v, M& m, vf::Case& c)
    {
        size_t i = c.rng.below(m.n());
        uint64_t x = c.rng.word() & m.mask();
        switch (c.rng.below(6)) {
            case 0: ++v[i]; m.set(i, m.get(i) + 1); break;
            case 1: --v[i]; m.set(i, m.get(i) - 1); break;
            case 2: { uint64_t o = v[i]++; VF_EQ("postinc", o, m.get(i), "i=%zu", i); m.set(i, m.get(i) + 1); break; }
            case 3: { uint64_t o = v[i]--; VF_EQ("postdec", o, m.get(i), "i=%zu", i); m.set(i, m.get(i) - 1); break; }
            case 4: v[i] += x; m.set(i, m.get(i) + x); break;
            default: v[i] -= x; m.set(i, m.get(i) - x); break;
        }
        H("refarith@" + std::to_string(i));
    }
};
template <> struct refops<int_vector_reference<bit_vector>> {
    template <class X> static void go(X& v, M& m, vf::Case& c)
    {
        size_t i = c.rng.below(m.n()), j = c.rng.below(m.n());
        VF_EQ("ref==", v[i] == v[j], m.get(i) == m.get(j), "i=%zu j=%zu", i, j);
        VF_EQ("ref<", v[i] < v[j], m.get(i) < m.get(j), "i=%zu j=%zu", i, j);
        v[i] = v[j];
        m.set(i, m.get(j));
    }
};
template <class X> static void flip(X& v, M& m, std::integral_constant<bool, true>) { v.flip(); m.b.flip(); H("flip"); }
template <class X> static void flip(X&, M&, std::integral_constant<bool, false>) {}
static void shuffle_ops(V& v, M& m, vf::Case& c)
{
    std::vector<uint64_t> a;
    for (size_t i = 0; i < m.n(); ++i) a.push_back(m.get(i));
    switch (c.rng.below(5)) {
        case 0: std::sort(v.begin(), v.end()); std::sort(a.begin(), a.end()); H("sort"); break;
        case 1: std::reverse(v.begin(), v.end()); std::reverse(a.begin(), a.end()); H("reverse"); break;
        case 2: { size_t k = c.rng.below(a.size() + 1); std::copy(v.begin() + k, v.end(), v.begin()); std::copy(a.begin() + k, a.end(), a.begin()); H("copy"); break; }
        case 3: { uint64_t x = c.rng.word() & m.mask(); std::fill(v.begin(), v.end(), x); std::fill(a.begin(), a.end(), x); H("fill"); break; }
        default: { size_t i = c.rng.below(a.size()), j = c.rng.below(a.size()); std::iter_swap(v.begin() + i, v.begin() + j); std::swap(a[i], a[j]); H("swap el"); }
    }
    for (size_t i = 0; i < a.size(); ++i) m.set(i, a[i]);
}
static void iter_ops(V& v, M& m, vf::Case& c)
{
    const V& cv = v;
    size_t n = m.n();
    size_t i = c.rng.below(n + 1), j = c.rng.below(n + 1);
    auto a = v.begin() + i, b = v.begin() + j;
    auto ca = cv.begin() + i, cb = cv.begin() + j;
    VF_EQ("it diff", (int64_t)(a - b), (int64_t)i - (int64_t)j, "i=%zu j=%zu w=%u", i, j, m.w);
    VF_EQ("cit diff", (int64_t)(ca - cb), (int64_t)i - (int64_t)j, "i=%zu j=%zu", i, j);
    VF_EQ("it <", a < b, i < j, "i=%zu j=%zu", i, j);
    VF_EQ("it >", a > b, i > j, "i=%zu j=%zu", i, j);
    VF_EQ("it <=", a <= b, i <= j, "i=%zu j=%zu", i, j);
    VF_EQ("it >=", a >= b, i >= j, "i=%zu j=%zu", i, j);
    VF_EQ("it ==", a == b, i == j, "i=%zu j=%zu", i, j);
    VF_EQ("cit <", ca < cb, i < j, "i=%zu j=%zu", i, j);
    VF_EQ("cit !=", ca != cb, i != j, "i=%zu j=%zu", i, j);
    VF_EQ("cit <=", ca <= cb, i <= j, "i=%zu j=%zu", i, j);
    auto ve = v.end();
    VF_EQ("end-begin", (int64_t)(ve - v.begin()), (int64_t)n, "n=%zu", n);
    a += (int64_t)j - (int64_t)i;
    VF_TRUE("it +=", a == b, "i=%zu j=%zu", i, j);
    a -= (int64_t)j - (int64_t)i;
    VF_TRUE("it -=", a == v.begin() + i, "i=%zu j=%zu", i, j);
    ca += (int64_t)j - (int64_t)i;
    VF_TRUE("cit +=", ca == cb, "i=%zu j=%zu", i, j);
    ca -= (int64_t)j - (int64_t)i; VF_TRUE("cit -=", ca == cv.begin() + i, "i=%zu j=%zu", i, j);
    ca = cv.begin() + i;
    if (i < n) {
        VF_EQ("*it", (uint64_t)*a, m.get(i), "i=%zu", i);
        VF_EQ("*cit", (uint64_t)*ca, m.get(i), "i=%zu", i);
        VF_EQ("it[]", (uint64_t)v.begin()[i], m.get(i), "i=%zu", i);
        auto p = a++;
        VF_TRUE("it++", p == v.begin() + i && a == v.begin() + (i + 1), "i=%zu", i);
        auto q = ca++;
        VF_TRUE("cit++", q == cv.begin() + i && ca == cv.begin() + (i + 1), "i=%zu", i);
        --a;
        VF_EQ("--it", (uint64_t)*a, m.get(i), "i=%zu", i);
        ca--;
        VF_EQ("cit--", (uint64_t)*ca, m.get(i), "i=%zu", i);
    }
    // walking back from the end
    size_t k = n;
    for (auto it = cv.end(); k > 0 && n - k < 70;) { --it; --k; VF_EQ("backward", (uint64_t)*it, m.get(k), "k=%zu", k); }
}
static void history(vf::Case& c)
{
    hist.clear();
    const int NV = 3;
    V v[NV];
    M m[NV];
    uint64_t maxn = c.rng.chance(1, 8) ? 3000 : 300;
    for (int i = 0; i < NV; ++i) {
        unsigned w = VW ? VW : c.rng.range(1, 64);
        size_t n = c.rng.size(maxn);
        uint64_t x = c.rng.word();
        if (c.rng.chance(1, 2)) x &= (w == 64 ? ~0ULL : (1ULL << w) - 1);
        v[i] = V(n, x, w);
        m[i].w = w;
        m[i].b.resize(n * w);
        for (size_t k = 0; k < n; ++k) m[i].set(k, x);
        H("V" + std::to_string(i) + "(n=" + std::to_string(n) + ",x=" + std::to_string(x) + ",w=" + std::to_string(w) + ")");
        c.mixfp(n * 1000003 + x * 64 + w);
        same(v[i], m[i], "construction");
    }
    c.desc("%s + %d ops", hist.c_str(), 40);
    for (int op = 0; op < 40; ++op) {
        int a = c.rng.below(NV), b = c.rng.below(NV);
        V& A = v[a];
        M& MA = m[a];
        std::string who = "V" + std::to_string(a);
        switch (c.rng.below(22)) {
            case 0: case 1: // resize
            {
                size_t n = c.rng.size(maxn), old = MA.b.size();
                A.resize(n);
                MA.b.resize(n * MA.w);
                H(who + ".resize(" + std::to_string(n) + ")");
                // elements (also partial ones) beyond the old size have unspecified content: define them
                for (size_t p = old; p < MA.b.size();) { unsigned l = std::min<size_t>(LMAX, MA.b.size() - p); uint64_t x = c.rng.word(); A.set_int(p, x, l); MA.setbits(p, l, x); p += l; }
                break;
            }
            case 2: {
                size_t n = c.rng.size(maxn * 8), old = MA.b.size();
                A.bit_resize(n);
                MA.b.resize(n);
                H(who + ".bit_resize(" + std::to_string(n) + ")");
                for (size_t p = old; p < MA.b.size();) { unsigned l = std::min<size_t>(LMAX, MA.b.size() - p); uint64_t x = c.rng.next(); A.set_int(p, x, l); MA.setbits(p, l, x); p += l; }
                break;
            }
            case 3: case 4: case 5:
                for (int k = 0; k < 20 && MA.n(); ++k) {
                    size_t i = c.rng.chance(1, 3) ? MA.n() - 1 - c.rng.below(std::min<size_t>(MA.n(), 3)) : c.rng.below(MA.n());
                    uint64_t x = c.rng.word();
                    if (VW == 1) x &= 1; // bool reference: any nonzero means true
                    A[i] = x;
                    MA.set(i, x);
                }
                H(who + ".writes");
                break;
            case 6: case 7:
                if (!MA.b.empty()) {
                    unsigned l = c.rng.range(0, std::min<size_t>(LMAX, MA.b.size()));
                    size_t p = c.rng.chance(1, 3) ? MA.b.size() - l : c.rng.range(0, MA.b.size() - l);
                    if (p == MA.b.size()) break;
                    uint64_t x = c.rng.word();
                    VF_EQ("get_int", A.get_int(p, l), MA.bitsat(p, l), "pos=%zu len=%u", p, l);
                    A.set_int(p, x, l);
                    MA.setbits(p, l, x);
                    H(who + ".set_int(" + std::to_string(p) + "," + std::to_string(l) + ")");
                }
                break;
            case 8: flip(A, MA, std::integral_constant<bool, VW == 1>()); break;
            case 9: { // bit operations need equal bit sizes
                V B(A);
                M MB = MA;
                for (size_t p = 0; p < MB.b.size();) { unsigned l = std::min<size_t>(LMAX, MB.b.size() - p); uint64_t x = c.rng.word(); B.set_int(p, x, l); MB.setbits(p, l, x); p += l; }
                int o = c.rng.below(3);
                if (o == 0) A &= B; else if (o == 1) A |= B; else A ^= B;
                for (size_t p = 0; p < MB.b.size(); ++p) MA.b[p] = o == 0 ? (MA.b[p] && MB.b[p]) : o == 1 ? (MA.b[p] || MB.b[p]) : (MA.b[p] != MB.b[p]);
                H(who + (o == 0 ? "&=" : o == 1 ? "|=" : "^="));
                same(B, MB, "right operand of a bit operation");
                break;
            }
            case 10: A = v[b]; MA = m[b]; H(who + "=V" + std::to_string(b)); break;
            case 11: { V t(std::move(v[b])); M tm = m[b]; same(t, tm, "move ctor"); v[b] = std::move(t); H("move V" + std::to_string(b)); break; }
            case 12: A.swap(v[b]); std::swap(m[a], m[b]); H(who + ".swap V" + std::to_string(b)); break;
            case 13:
                if (MA.n()) refops<typename std::conditional<VW == 1, int_vector_reference<bit_vector>, int>::type>::go(A, MA, c);
                break;
            case 14: if (MA.n()) shuffle_ops(A, MA, c); break;
            case 15: if (MA.n()) iter_ops(A, MA, c); break;
            case 16: { // ordering
                const V& B = v[b];
                const M& MB = m[b];
                std::vector<uint64_t> x, y;
                for (size_t i = 0; i < MA.n(); ++i) x.push_back(MA.get(i));
                for (size_t i = 0; i < MB.n(); ++i) y.push_back(MB.get(i));
                bool eq = MA.b == MB.b && MA.w == MB.w;
                VF_EQ("==", A == B, eq, "%s", hist.c_str());
                VF_EQ("!=", A != B, !eq, "%s", hist.c_str());
                if (x.size() && y.size()) {
                    VF_EQ("<", A < B, x < y, "%s", hist.c_str());
                    VF_EQ(">", A > B, x > y, "%s", hist.c_str());
                    if (MA.w == MB.w && MA.b.size() % MA.w == 0 && MB.b.size() % MB.w == 0) {
                        VF_EQ("<=", A <= B, x <= y, "%s", hist.c_str());
                        VF_EQ(">=", A >= B, x >= y, "%s", hist.c_str());
                    }
                }
                V C(A);
                VF_EQ("== copy", A == C, true, "%s", hist.c_str());
                if (MA.n()) { // one differing bit, also in the last word
                    size_t p = c.rng.chance(1, 2) ? MA.b.size() - 1 : c.rng.below(MA.b.size());
                    C.set_int(p, !MA.b[p], 1);
                    VF_EQ("== one bit", A == C, false, "bit %zu of %zu: %s", p, MA.b.size(), hist.c_str());
                }
                break;
            }
            case 17: if (VW == 0) { unsigned w = c.rng.range(1, 64); A.width(w); MA.w = w; H(who + ".width(" + std::to_string(w) + ")"); } break;
            case 18: { // values over the whole vector
                uint64_t x = c.rng.word() & MA.mask();
                if (c.rng.chance(1, 2)) { util::set_to_value(A, x); for (size_t i = 0; i < MA.n(); ++i) MA.set(i, x); H(who + " set_to_value(" + std::to_string(x) + ")"); }
                else if (c.rng.chance(1, 2)) { util::_set_zero_bits(A); std::fill(MA.b.begin(), MA.b.end(), false); H(who + " zero"); }
                else { util::_set_one_bits(A); std::fill(MA.b.begin(), MA.b.end(), true); H(who + " ones"); }
                // bits behind the last element are not elements
                for (size_t p = MA.n() * MA.w; p < MA.b.size(); ++p) { A.set_int(p, 0, 1); MA.b[p] = 0; }
                break;
            }
            case 19: { // bit statistics
                size_t one = 0, oz = 0, zo = 0;
                for (size_t p = 0; p < MA.b.size(); ++p) { one += MA.b[p]; if (p) { oz += MA.b[p - 1] && !MA.b[p]; zo += !MA.b[p - 1] && MA.b[p]; } }
                VF_EQ("cnt_one_bits", util::cnt_one_bits(A), one, "n=%zu %s", MA.b.size(), hist.c_str());
                VF_EQ("cnt_onezero_bits", util::cnt_onezero_bits(A), oz, "n=%zu %s", MA.b.size(), hist.c_str());
                VF_EQ("cnt_zeroone_bits", util::cnt_zeroone_bits(A), zo, "n=%zu %s", MA.b.size(), hist.c_str());
                for (int k = 0; k < 6 && !MA.b.empty(); ++k) {
                    size_t p = c.rng.chance(1, 3) ? MA.b.size() - 1 - c.rng.below(std::min<size_t>(3, MA.b.size())) : c.rng.below(MA.b.size());
                    size_t q = p; while (q < MA.b.size() && !MA.b[q]) ++q;
                    VF_EQ("next_bit", util::next_bit(A, p), q, "idx=%zu n=%zu %s", p, MA.b.size(), hist.c_str());
                    int64_t r = p; while (r >= 0 && !MA.b[r]) --r;
                    VF_EQ("prev_bit", util::prev_bit(A, p), r < 0 ? MA.b.size() : (size_t)r, "idx=%zu n=%zu %s", p, MA.b.size(), hist.c_str());
                }
                break;
            }
            case 20: { // width changes that keep the values
                if (VW != 0 || MA.b.size() % MA.w) break;
                std::vector<uint64_t> x;
                uint64_t mx = 0;
                for (size_t i = 0; i < MA.n(); ++i) { x.push_back(MA.get(i)); mx = std::max(mx, x.back()); }
                int o = c.rng.below(3);
                if (o == 0) { util::bit_compress(A); unsigned w = mx ? 64 - __builtin_clzll(mx) : 1; MA.w = std::min(MA.w, w); H(who + " bit_compress"); }
                else if (o == 1) { unsigned w = c.rng.range(1, 64); util::expand_width(A, w); MA.w = std::max(MA.w, w); H(who + " expand_width " + std::to_string(w)); }
                else { uint64_t md = c.rng.range(1, 1 + (c.rng.word() & MA.mask())); if (!md) md = 1; util::mod(A, md); for (auto& e : x) e %= md; H(who + " mod " + std::to_string(md)); }
                size_t n = x.size();
                MA.b.assign(n * MA.w, false);
                for (size_t i = 0; i < n; ++i) MA.set(i, x[i]);
                break;
            }
            default: { // stream round trip into an arbitrary other vector
                std::stringstream ss;
                size_t wr = A.serialize(ss);
                VF_EQ("serialize bytes", wr, ss.str().size(), "%s", hist.c_str());
                V t = V(c.rng.below(100), 1, VW ? VW : 7);
                t.load(ss);
                same(t, MA, "load");
                VF_TRUE("load ==", t == A, "%s", hist.c_str());
                v[b] = t;
                m[b] = MA;
                H("V" + std::to_string(b) + "=load(store(" + who + "))");
            }
        }
        same(A, MA, "op");
        if (a != b) same(v[b], m[b], "op (other vector)");
    }
}
static vf::Reg r1("history/w" + std::to_string(VW), VW == 0 ? 700 : 200, VW == 0 ? 12000 : 4000, history);
static void il(vf::Case& c)
{
    V v = {5, 2, 1, 0, 3};
    c.desc("initializer list, set_to_id");
    uint64_t w[5] = {5, 2, 1, 0, 3};
    VF_EQ("il size", v.size(), 5u, "il");
    for (int i = 0; i < 5; ++i) VF_EQ("il", (uint64_t)v[i], VW == 1 ? (uint64_t)(w[i] != 0) : VW ? (w[i] & ((VW == 64 ? 0ULL : (1ULL << (VW & 63))) - 1)) : w[i], "i=%d", i);
    size_t n = c.rng.range(1, VW == 1 ? 2 : VW == 3 ? 8 : 200);
    V t(n, 0, VW ? VW : 8);
    util::set_to_id(t);
    for (size_t i = 0; i < n; ++i) VF_EQ("set_to_id", (uint64_t)t[i], i, "i=%zu", i);
}
static vf::Reg r2("init/w" + std::to_string(VW), 20, 50, il);
} // namespace
