// WHAT=32: printed text and plain files show exactly the object; WHAT=33: the construction cache keeps resources apart
#include "gen_text.hpp"
#include "gen_bv.hpp"
#include <sdsl/suffix_arrays.hpp>
#include <sdsl/suffix_trees.hpp>
#include <sdsl/wavelet_trees.hpp>
#include <sdsl/bit_vectors.hpp>
#include <sdsl/vectors.hpp>
#include <fstream>
#include <iomanip>
#include <set>
#include <memory>
#include <sys/stat.h>
using namespace sdsl;
using vf::Case;
typedef std::string S;
namespace
{
S slurp(const S& f) { isfstream in(f, std::ios::in | std::ios::binary); S r; char b[4096]; while (in.read(b, sizeof b) || in.gcount()) { r.append(b, in.gcount()); if (!in) break; } return r; }
bool exists(const S& f) { if (f[0] == '@') return ram_fs::exists(f); struct stat st; return stat(f.c_str(), &st) == 0; }
#if WHAT == 32
template <class T> S out(const T& t) { std::ostringstream o; o << t; return o.str(); }
S dec(const std::vector<uint64_t>& v, const char* sep) { S r; for (size_t i = 0; i < v.size(); ++i) { if (i) r += sep; r += std::to_string(v[i]); } return r; }
S chars(const std::vector<uint64_t>& v) { S r; for (auto x : v) r += (char)x; return r; }
template <class V> void put(Case& c, const char* name, const V& v, const std::vector<uint64_t>& want, bool as_chars = false)
{
    (void)c;
    VF_EQ(S("print ") + name, out(v), as_chars ? chars(want) : dec(want, " "), "%zu elements", want.size());
}
VF_SUITE("print vectors", 600, 12000)
{
    std::vector<uint64_t> v(c.rng.size(200)); unsigned w = 1 + c.rng.below(64), k = 1 + c.rng.below(w);
    for (auto& x : v) { x = c.rng.chance(1, 5) ? c.rng.word() : c.rng.next(); x &= k == 64 ? ~0ULL : (1ULL << k) - 1; c.mixfp(x); }
    c.trivial_if(v.empty());
    int_vector<> iv(v.size(), 0, w); for (size_t i = 0; i < v.size(); ++i) iv[i] = v[i];
    put(c, "int_vector<>", iv, v);
    auto low = [&](unsigned b) { std::vector<uint64_t> r(v); for (auto& x : r) x &= b == 64 ? ~0ULL : (1ULL << b) - 1; return r; };
    { int_vector<64> x(v.size()); for (size_t i = 0; i < v.size(); ++i) x[i] = v[i]; put(c, "int_vector<64>", x, v); }
    { int_vector<5> x(v.size()); for (size_t i = 0; i < v.size(); ++i) x[i] = v[i]; put(c, "int_vector<5>", x, low(5)); }
    { int_vector<16> x(v.size()); for (size_t i = 0; i < v.size(); ++i) x[i] = v[i]; put(c, "int_vector<16>", x, low(16)); }
    { int_vector<32> x(v.size()); for (size_t i = 0; i < v.size(); ++i) x[i] = v[i]; put(c, "int_vector<32>", x, low(32)); }
    { enc_vector<> x(iv); put(c, "enc_vector", x, v); }
    { auto l = low(62); vlc_vector<> x(l); put(c, "vlc_vector", x, l); }
    { dac_vector<> x(iv); put(c, "dac_vector", x, v); }
    { std::vector<uint64_t> x(v); put(c, "std::vector", x, v); std::vector<int> y; S s; for (auto z : v) { y.push_back((int)z); s += (s.empty() ? "" : " ") + std::to_string((int)z); } std::ostringstream o; sdsl::operator<<(o, y); VF_EQ("print std::vector<int>", o.str(), s, " "); }
    c.desc("n=%zu width=%u", v.size(), w);
}
VF_SUITE("print bit vectors", 400, 8000)
{
    const char* kind; std::vector<bool> b = gen_bits(c, 3000, &kind); S want; for (bool x : b) want += x ? '1' : '0';
    bit_vector bv = to_bv(b, c.rng.chance(1, 2)); c.trivial_if(b.empty());
    VF_EQ("print bit_vector", out(bv), want, "%s", kind);
    VF_EQ("print bit_vector_il", out(bit_vector_il<64>(bv)), want, "%s", kind);
    VF_EQ("print rrr_vector", out(rrr_vector<63>(bv)), want, "%s", kind);
    VF_EQ("print rrr_vector<15>", out(rrr_vector<15>(bv)), want, "%s", kind);
    VF_EQ("print sd_vector", out(sd_vector<>(bv)), want, "%s", kind);
    c.desc("n=%zu %s", b.size(), kind);
}
VF_SUITE("print wavelet trees", 300, 6000)
{
    Seq s = gen_seq(c, 300, 255, 1); int_vector<8> v(s.size()); for (size_t i = 0; i < s.size(); ++i) v[i] = s[i];
    c.trivial_if(s.empty());
    { wt_huff<> w; construct_im(w, v); put(c, "wt_huff", w, s, true); }
    { wt_blcd<> w; construct_im(w, v); put(c, "wt_blcd", w, s, true); }
    { wt_rlmn<> w; construct_im(w, v); put(c, "wt_rlmn", w, s, true); }
    Seq u = gen_seq(c, 200, c.rng.chance(1, 2) ? 1 << 20 : 300, 0); int_vector<> x(u.size(), 0, 32); for (size_t i = 0; i < u.size(); ++i) x[i] = u[i];
    { wt_int<> w; construct_im(w, x); put(c, "wt_int", w, u); }
    { wm_int<> w; construct_im(w, x); put(c, "wm_int", w, u); }
    { wt_huff_int<> w; construct_im(w, x); put(c, "wt_huff_int", w, u); }
    c.desc("n=%zu and %zu", s.size(), u.size());
}
// ---- printf for suffix arrays and trees ----
S pad(const S& s, uint64_t w) { return s.size() >= w ? s : S(w - s.size(), ' ') + s; }
struct Fmt { char tok; uint64_t w, W; bool two; S lit; };
template <class T> const TextModel& dummy(const TextModel& m) { return m; }
template <class X> void rows(Case& c, const X& x, const TextModel& m, bool bytes, bool cst, const char* name)
{
    for (unsigned q = 0; q < 6; ++q) {
        std::vector<Fmt> fs; S f; unsigned nt = c.rng.below(7);
        auto lit = [&](unsigned mx) { static const char al[] = "abz 0123456789|\t-:ISTBL,.;"; S r; for (uint64_t k = c.rng.below(mx); k--;) r += al[c.rng.below(sizeof al - 1)]; return r; };
        for (unsigned k = 0; k < nt; ++k) {
            Fmt y; y.tok = "IsSPpLBTT%"[c.rng.below(10)]; y.two = false; y.w = c.rng.chance(1, 2) ? 0 : 1 + c.rng.below(c.rng.chance(1, 4) ? 40 : 9); y.W = 0; y.lit = lit(4);
            if (y.tok == 'L' && !cst) y.tok = 'S';
            f += y.lit + "%";
            if (y.w) f += (c.rng.chance(1, 8) ? "0" : "") + std::to_string(y.w);
            if (y.tok == 'T') { if (c.rng.chance(1, 2)) { y.W = c.rng.below(6); y.two = true; f += ":" + (y.W ? std::to_string(y.W) : S()); } if (y.w == 0 && m.n > 60) { y.w = 1 + c.rng.below(20); f += "?"; f.resize(f.size() - 1); size_t at = f.rfind('%'); f.insert(at + 1, std::to_string(y.w)); } }
            f += y.tok; fs.push_back(y);
        }
        S tail = lit(4); f += tail;
        bool own = c.rng.chance(1, 2); char sent = own ? "#$0~"[c.rng.below(4)] : bytes ? '$' : '0';
        std::ostringstream o; if (own) csXprintf(o, f, x, sent); else csXprintf(o, f, x);
        S want; uint64_t n = m.n;
        auto sym = [&](uint64_t y, uint64_t w) { return y == 0 ? pad(S(1, sent), w) : bytes ? pad(S(1, (char)y), w) : pad(std::to_string(y), w); };
        for (uint64_t i = 0; i < n; ++i) {
            for (auto& y : fs) {
                want += y.lit;
                auto num = [&](uint64_t z) { want += pad(std::to_string(z), y.w); };
                switch (y.tok) {
                    case 'I': num(i); break;
                    case 'S': num(m.sa[i]); break;
                    case 's': num(m.isa[i]); break;
                    case 'P': num(m.isa[(m.sa[i] + 1) % n]); break;
                    case 'p': num(m.isa[(m.sa[i] + n - 1) % n]); break;
                    case 'L': num(m.lcp[i]); break;
                    case 'B': want += sym(m.bwt[i], y.w); break;
                    case 'T': for (uint64_t k = 0, e = y.w ? std::min(y.w, n) : n; k < e; ++k) want += sym(m.t[(m.sa[i] + k) % n], y.W); break;
                    default: want += '%';
                }
            }
            want += tail + "\n";
        }
        VF_EQ(S("csXprintf ") + name, o.str(), want, "format %s, %zu rows", vf::show(f).c_str(), (size_t)n);
    }
}
template <class X> void members(Case& c, const X& a, const TextModel& m, bool bytes)
{
    uint64_t n = m.n; std::vector<uint64_t> psi(n), lf(n), F(n);
    for (uint64_t i = 0; i < n; ++i) { psi[i] = m.isa[(m.sa[i] + 1) % n]; lf[i] = m.isa[(m.sa[i] + n - 1) % n]; F[i] = m.t[m.sa[i]]; }
    put(c, "csa", a, m.sa); put(c, "isa", a.isa, m.isa); put(c, "psi", a.psi, psi); put(c, "lf", a.lf, lf);
    put(c, "bwt", a.bwt, m.bwt, bytes); put(c, "text", a.text, m.t, bytes); put(c, "F", a.F, F, bytes);
}
template <class X> void prt(Case& c, const char* name, bool cst, uint64_t lim)
{
    const unsigned W = X::alphabet_category::WIDTH; Seq s = gen_text(c, 120, lim); TextModel m(s); X x;
    c.trivial_if(s.size() < 2); c.desc("%s n=%zu", name, (size_t)m.n);
    if (W == 8) { int_vector<8> v(s.size()); for (size_t i = 0; i < s.size(); ++i) v[i] = s[i]; construct_im(x, v); }
    else { int_vector<> v(s.size(), 0, 32); for (size_t i = 0; i < s.size(); ++i) v[i] = s[i]; construct_im(x, v); }
    rows(c, x, m, W == 8, cst, name);
}
template <class X> void csa(Case& c, const char* name, uint64_t lim) { prt<X>(c, name, false, lim); const unsigned W = X::alphabet_category::WIDTH; Seq s = gen_text(c, 120, lim); TextModel m(s); X x; if (W == 8) { int_vector<8> v(s.size()); for (size_t i = 0; i < s.size(); ++i) v[i] = s[i]; construct_im(x, v); } else { int_vector<> v(s.size(), 0, 32); for (size_t i = 0; i < s.size(); ++i) v[i] = s[i]; construct_im(x, v); } members(c, x, m, W == 8); }
VF_SUITE("print csa_wt", 150, 3000) { csa<csa_wt<wt_huff<>, 4, 6>>(c, "csa_wt", 255); }
VF_SUITE("print csa_sada", 150, 3000) { csa<csa_sada<enc_vector<>, 3, 5>>(c, "csa_sada", 255); }
VF_SUITE("print csa_bitcompressed", 150, 3000) { csa<csa_bitcompressed<>>(c, "csa_bitcompressed", 255); }
VF_SUITE("print csa_wt_int", 150, 3000) { csa<csa_wt<wt_int<>, 4, 6>>(c, "csa_wt_int", 5000); }
template <class X> void cst(Case& c, const char* name, uint64_t lim)
{
    prt<X>(c, name, true, lim);
    const unsigned W = X::alphabet_category::WIDTH; Seq s = gen_text(c, 120, lim); TextModel m(s); X x; if (W == 8) { int_vector<8> v(s.size()); for (size_t i = 0; i < s.size(); ++i) v[i] = s[i]; construct_im(x, v); } else { int_vector<> v(s.size(), 0, 32); for (size_t i = 0; i < s.size(); ++i) v[i] = s[i]; construct_im(x, v); }
    put(c, "lcp", x.lcp, m.lcp);
}
VF_SUITE("print cst_sct3", 120, 2500) { cst<cst_sct3<csa_wt<wt_huff<>, 4, 6>, lcp_bitcompressed<>>>(c, "cst_sct3", 255); }
VF_SUITE("print cst_sada", 120, 2500) { cst<cst_sada<csa_sada<enc_vector<>, 3, 5>, lcp_dac<>>>(c, "cst_sada", 255); }
VF_SUITE("print cst_sct3_int", 120, 2500) { cst<cst_sct3<csa_wt<wt_int<>, 4, 6>, lcp_bitcompressed<>>>(c, "cst_sct3_int", 5000); }
VF_SUITE("strings", 300, 5000)
{
    uint64_t x = c.rng.word(); unsigned w = c.rng.below(30); c.mixfp(x + w);
    VF_EQ("to_string", util::to_string(x, w), pad(std::to_string(x), w), "w=%u", w);
    VF_EQ("to_string", util::to_string((int64_t)x), std::to_string((int64_t)x), " ");
    VF_EQ("to_latex_string", util::to_latex_string(x), std::to_string(x), " ");
    unsigned char ch = x; VF_EQ("to_latex_string", util::to_latex_string(ch), ch == '_' ? S("\\_") : ch == 0 ? S("\\$") : S(1, (char)ch), "%u", ch);
    for (unsigned k = 0; k < 256; k += 5) { unsigned char d = k ^ (x & 3); VF_EQ("to_latex_string", util::to_latex_string(d), d == '_' ? S("\\_") : d == 0 ? S("\\$") : S(1, (char)d), "%u", d); }
    c.desc("%llu", (unsigned long long)x);
}
// ---- plain arrays ----
template <class I> void plain(Case& c, const std::vector<uint64_t>& v, const int_vector<>& iv, const S& f)
{
    int_vector<> cp(iv); VF_TRUE("store_to_plain_array", store_to_plain_array<I>(cp, f), "%s", f.c_str());
    S b = slurp(f), want; for (auto x : v) { I y = (I)x; want.append((char*)&y, sizeof y); }
    VF_TRUE("plain bytes", b == want, "%zu bytes, expected %zu, element of %zu bytes", b.size(), want.size(), sizeof(I));
    VF_TRUE("store changed vector", cp == iv, " ");
    auto eq = [&](const char* t, uint64_t i, uint64_t got, uint64_t w) { if (got != w || i < 50) VF_EQ(S("load_vector_from_file ") + t, got, w, "element %zu, %zu bytes each", (size_t)i, sizeof(I)); };
    { int_vector<> r(c.rng.below(9), 7, 13); VF_TRUE("load", load_vector_from_file(r, f, sizeof(I)), "%s", f.c_str()); VF_EQ("loaded size", r.size(), v.size(), " "); if (v.size()) VF_EQ("loaded width", (unsigned)r.width(), 8 * (unsigned)sizeof(I), " "); for (size_t i = 0; i < v.size(); ++i) eq("<>", i, r[i], (I)v[i]); }
    { unsigned mw = 1 + c.rng.below(64); int_vector<> r; VF_TRUE("load", load_vector_from_file(r, f, sizeof(I), mw), "%s", f.c_str()); unsigned w = std::min<unsigned>(mw, 8 * sizeof(I)); VF_EQ("loaded size", r.size(), v.size(), "max %u", mw); if (v.size()) VF_EQ("loaded width", (unsigned)r.width(), w, " "); for (size_t i = 0; i < v.size(); ++i) eq("max width", i, r[i], (I)v[i] & (w == 64 ? ~0ULL : (1ULL << w) - 1)); }
    { int_vector<8 * sizeof(I)> r; VF_TRUE("load", load_vector_from_file(r, f, sizeof(I)), "%s", f.c_str()); VF_EQ("loaded size", r.size(), v.size(), " "); for (size_t i = 0; i < v.size(); ++i) eq("fixed", i, r[i], (I)v[i]); }
    if (sizeof(I) > 1 && want.size()) { // a file that is no array of such integers
        { osfstream o(f, std::ios::out | std::ios::binary | std::ios::trunc); o.write(want.data(), want.size() - 1); }
        bool t = false; int_vector<> r; try { load_vector_from_file(r, f, sizeof(I)); } catch (std::logic_error&) { t = true; } VF_TRUE("load of an incomplete array", t, "%zu bytes", want.size() - 1);
    }
}
void plain_all(Case& c, size_t n)
{
    std::vector<uint64_t> v(n); unsigned w = 1 + c.rng.below(64);
    for (auto& x : v) { x = c.rng.word() & (w == 64 ? ~0ULL : (1ULL << w) - 1); } c.mixfp(n * 64 + w); if (n) c.mixfp(v[0]);
    c.trivial_if(!n);
    int_vector<> iv(n, 0, w); for (size_t i = 0; i < n; ++i) iv[i] = v[i];
    S f = (c.rng.chance(1, 2) ? S("@plain") : vf::scratch_dir() + "/plain") + std::to_string(c.idx);
    c.desc("n=%zu width=%u %s", n, w, f[0] == '@' ? "memory" : "disk");
    if (n > 100000) { switch (c.rng.below(4)) { case 0: plain<uint8_t>(c, v, iv, f); break; case 1: plain<uint16_t>(c, v, iv, f); break; case 2: plain<uint32_t>(c, v, iv, f); break; default: plain<uint64_t>(c, v, iv, f); } }
    else {
        plain<uint8_t>(c, v, iv, f); plain<uint16_t>(c, v, iv, f); plain<uint32_t>(c, v, iv, f); plain<uint64_t>(c, v, iv, f);
        // decimal numbers separated by white space
        S txt; uint64_t mx = 0; for (auto x : v) { txt += std::to_string(x); mx = std::max(mx, x); for (uint64_t k = 1 + c.rng.below(2); k--;) txt += " \n\t"[c.rng.below(3)]; } if (c.rng.chance(1, 2) && !txt.empty()) while (!txt.empty() && isspace((unsigned char)txt.back())) txt.pop_back();
        VF_TRUE("store", store_to_file(txt, f), "%s", f.c_str()); VF_TRUE("string bytes", slurp(f) == txt, " ");
        int_vector<> r; VF_TRUE("load decimal", load_vector_from_file(r, f, 'd'), "%s", f.c_str()); VF_EQ("decimal size", r.size(), v.size(), " "); VF_EQ("decimal width", (unsigned)r.width(), (unsigned)bits::hi(mx) + 1, " "); for (size_t i = 0; i < v.size(); ++i) VF_EQ("decimal", (uint64_t)r[i], v[i], "i=%zu", i);
        // serialized
        VF_TRUE("store", store_to_file(iv, f), "%s", f.c_str()); int_vector<> q; VF_TRUE("load 0", load_vector_from_file(q, f, 0), "%s", f.c_str()); VF_TRUE("serialized", q == iv && q.width() == iv.width(), "n=%zu", n);
    }
    sdsl::remove(f);
}
VF_SUITE("plain arrays", 500, 8000) { plain_all(c, c.rng.size(700)); }
VF_SUITE("plain arrays, large", 4, 40) { plain_all(c, (1 << 22) + c.rng.below(3) - 1 + (c.rng.chance(1, 2) ? c.rng.below(300000) : 0)); }
#else
// ---- construction cache ----
struct Obj { int kind; int_vector<> v; };                 // contents of a resource: kind 0 int_vector<>, 1 int_vector<8>, 2 bit_vector, 3 vlc_vector, 4 enc_vector
typedef vlc_vector<> Vlc;
template <class T> T mk(const int_vector<>& v) { return T(v); }
template <> int_vector<8> mk<int_vector<8>>(const int_vector<>& v) { int_vector<8> r(v.size()); for (size_t i = 0; i < v.size(); ++i) r[i] = v[i]; return r; }
template <> bit_vector mk<bit_vector>(const int_vector<>& v) { bit_vector r(v.size()); for (size_t i = 0; i < v.size(); ++i) r[i] = v[i] & 1; return r; }
template <class T> bool same(const T& t, const int_vector<>& v, uint64_t mask) { if (t.size() != v.size()) return false; for (size_t i = 0; i < v.size(); ++i) if ((uint64_t)t[i] != (v[i] & mask)) return false; return true; }
struct Cache { cache_config cfg; std::map<S, S> reg; bool own_id; };  // model of the file map: key (with type) -> file
struct World {
    Case& c; std::map<S, Obj> files; std::vector<std::unique_ptr<Cache>> cs; std::set<S> tmp; uint64_t ops = 0, loads = 0;
    explicit World(Case& x) : c(x) {}
    template <class T> static S hkey(const S& key) { return key + "_" + util::class_to_hash(T()); }
    S where(Cache& k, const S& key) { auto it = k.reg.find(key); return it != k.reg.end() ? it->second : k.cfg.dir + "/" + key + "_" + k.cfg.id + ".sdsl"; }
    template <class T> void store(Cache& k, const S& key, int kind, bool typed)
    {
        int_vector<> v(c.rng.size(60), 0, 8); for (auto x : v) x = c.rng.below(kind == 2 ? 2 : 250);
        S f = where(k, typed ? hkey<T>(key) : key);
        VF_TRUE("store_to_cache", store_to_cache(mk<T>(v), key, k.cfg, typed), "%s", f.c_str());
        files[f] = Obj{kind, v}; k.reg[typed ? hkey<T>(key) : key] = f;
        VF_TRUE("stored file", exists(f), "%s", f.c_str());
    }
    template <class T> void load(Cache& k, const S& key, int kind, bool typed, uint64_t mask)
    {
        S f = where(k, typed ? hkey<T>(key) : key); auto it = files.find(f);
        if (it != files.end() && it->second.kind != kind) return; // another type under the plain key
        int_vector<> old(c.rng.below(20), c.rng.below(100), 8); T t = mk<T>(old);
        bool r = load_from_cache(t, key, k.cfg, typed);
        VF_EQ("load_from_cache", r, it != files.end(), "%s of %s", key.c_str(), f.c_str());
        if (r) { VF_TRUE("loaded value", same(t, it->second.v, mask), "%s from %s: %zu elements, %zu expected", key.c_str(), f.c_str(), (size_t)t.size(), (size_t)it->second.v.size()); ++loads; }
        else VF_TRUE("failed load keeps the object", same(t, old, mask), "%s", key.c_str());
    }
    template <class T> void exist(Cache& k, const S& key)
    {
        S f = where(k, hkey<T>(key)), g = where(k, key);
        VF_EQ("cache_file_name<T>", cache_file_name<T>(key, k.cfg), f, "%s", key.c_str());
        VF_EQ("cache_file_name", cache_file_name(key, k.cfg), g, "%s", key.c_str());
        VF_EQ("cache_file_exists<T>", cache_file_exists<T>(key, k.cfg), files.count(f) > 0, "%s", f.c_str());
        VF_EQ("cache_file_exists", cache_file_exists(key, k.cfg), files.count(g) > 0, "%s", g.c_str());
    }
    template <class T> void op(Cache& k, const S& key, int kind, uint64_t mask)
    {
        bool typed = c.rng.chance(1, 2);
        switch (c.rng.below(8)) {
            case 0: case 1: case 2: store<T>(k, key, kind, typed); break;
            case 3: case 4: case 5: load<T>(k, key, kind, typed, mask); break;
            default: exist<T>(k, key);
        }
    }
    void map_ok(Cache& k)
    {
        for (auto& e : k.reg) { auto it = k.cfg.file_map.find(e.first); VF_TRUE("registered", it != k.cfg.file_map.end() && it->second == e.second, "%s -> %s", e.first.c_str(), e.second.c_str()); }
        VF_EQ("registered files", k.cfg.file_map.size(), k.reg.size(), "id %s", k.cfg.id.c_str());
    }
};
void history(Case& c, unsigned steps)
{
    World w(c); S disk = vf::scratch_dir() + "/cache" + std::to_string(c.idx); mkdir(disk.c_str(), 0700); S disk2 = disk + "/sub"; mkdir(disk2.c_str(), 0700);
    std::vector<S> keys = {"text", "sa", "sa_x", "x", "lcp"}; std::set<S> ids; unsigned fresh = 0;
    auto add = [&]() {
        S mem = "@m" + std::to_string(c.idx), dir = c.rng.pick(std::vector<S>{disk, disk2, mem, mem + "/sub"}), id;
        if (w.cs.size() && c.rng.chance(1, 3)) { auto& o = *c.rng.pick(std::vector<Cache*>{w.cs[0].get(), w.cs.back().get()}); dir = o.cfg.dir; id = o.cfg.id; } // a later session on the same cache
        else if (c.rng.chance(1, 2)) id = "id" + std::to_string(c.rng.below(3));
        std::unique_ptr<Cache> k(new Cache()); k->own_id = id.empty();
        if (c.rng.chance(1, 4)) { S f = disk + "/elsewhere" + std::to_string(fresh++); k->reg["given"] = f; }
        tMSS m(k->reg.begin(), k->reg.end());
        k->cfg = cache_config(c.rng.chance(1, 2), dir, id, m);
        VF_EQ("dir", k->cfg.dir, dir, " "); if (id.empty()) VF_TRUE("id", !k->cfg.id.empty() && ids.insert(k->cfg.id).second, "identifier %s used before", k->cfg.id.c_str()); else VF_EQ("id", k->cfg.id, id, " ");
        w.cs.push_back(std::move(k));
    };
    add();
    for (unsigned s = 0; s < steps; ++s, ++w.ops) {
        if (w.cs.size() < 4 && c.rng.chance(1, 8)) add();
        Cache& k = *w.cs[c.rng.below(w.cs.size())]; S key = c.rng.chance(1, 10) && k.reg.count("given") ? S("given") : c.rng.pick(keys); c.mixfp(c.rng.s);
        switch (c.rng.below(14)) {
            case 0: case 1: case 2: w.op<int_vector<>>(k, key, 0, ~0ULL); break;
            case 3: case 4: w.op<int_vector<8>>(k, key, 1, 255); break;
            case 5: case 6: w.op<bit_vector>(k, key, 2, 1); break;
            case 7: case 8: w.op<Vlc>(k, key, 3, ~0ULL); break;
            case 9: { register_cache_file(key, k.cfg); S f = w.where(k, key); if (w.files.count(f)) k.reg[key] = f; break; }
            case 10: { // remove one resource behind the back of the cache
                S f = w.where(k, key); int r = sdsl::remove(f); VF_EQ("remove", r == 0, w.files.erase(f) > 0, "%s", f.c_str()); break; }
            case 11: { // temporary names
                S t = c.rng.chance(1, 2) ? tmp_file(k.cfg, "_p" + key) : tmp_file(k.cfg.dir + "/some_file", "_p" + key);
                VF_TRUE("tmp_file", !exists(t) && w.tmp.insert(t).second && !w.files.count(t), "%s was used before", t.c_str());
                VF_TRUE("tmp_file", t.compare(0, k.cfg.dir.size() + 1, k.cfg.dir + "/") == 0 && t.find('/', k.cfg.dir.size() + 1) == S::npos && t.find("_p" + key) != S::npos, "%s in %s", t.c_str(), k.cfg.dir.c_str());
                if (c.rng.chance(1, 2)) { store_to_file(S("x"), t); w.files[t] = Obj{9, int_vector<>()}; }
                break; }
            case 12: if (c.rng.chance(1, 2)) { util::delete_all_files(k.cfg.file_map); VF_TRUE("delete_all_files", k.cfg.file_map.empty(), " "); for (auto& e : k.reg) w.files.erase(e.second); k.reg.clear(); } break;
            default: w.map_ok(k); for (auto& f : w.files) VF_TRUE("file", exists(f.first), "%s is gone", f.first.c_str());
        }
    }
    for (auto& k : w.cs) w.map_ok(*k);
    for (auto& f : w.files) { VF_TRUE("file", exists(f.first), "%s is gone", f.first.c_str()); sdsl::remove(f.first); }
    c.desc("%llu operations, %llu loads, %zu configurations", (unsigned long long)w.ops, (unsigned long long)w.loads, w.cs.size());
    c.trivial_if(!w.loads);
}
VF_SUITE("cache/short", 600, 10000) { history(c, 60 + c.rng.below(100)); }
VF_SUITE("cache/long", 100, 2000) { history(c, 200); }
#endif
}
