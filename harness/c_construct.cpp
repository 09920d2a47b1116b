// C13: suffix array, BWT, inverse suffix array and LCP array construction
#include "gen_text.hpp"
#include "util_model.hpp"
#include <sdsl/suffix_arrays.hpp>
#include <sdsl/construct_lcp.hpp>
#include <sdsl/construct_isa.hpp>
#include <sdsl/construct_bwt.hpp>
#include <sdsl/construct.hpp>
#include <dirent.h>
using namespace sdsl;

template <class V> static void cmp(const char* key, const V& got, const std::vector<uint64_t>& want, const char* what)
{
    VF_EQ(key, (uint64_t)got.size(), (uint64_t)want.size(), "%s size", what);
    for (uint64_t i = 0; i < want.size(); ++i) VF_EQ(key, (uint64_t)got[i], want[i], "%s at %zu of %zu", what, (size_t)i, want.size());
}
template <class V> static void from_cache(V& v, const std::string& key, cache_config& cfg)
{
    VF_TRUE("cached", cfg.file_map.count(key) == 1, "%s not registered", key.c_str());
    VF_TRUE("cached", load_from_file(v, cfg.file_map[key]), "%s", key.c_str());
}
static void drop(const std::string& key, cache_config& cfg)
{
    sdsl::remove(cfg.file_map[key]);
    cfg.file_map.erase(key);
}
static std::vector<std::string> stray(const cache_config& cfg)
{
    std::vector<std::string> r;
    if (cfg.dir[0] == '@') return r;
    DIR* d = opendir(cfg.dir.c_str());
    while (auto e = readdir(d)) {
        std::string f = e->d_name;
        if (f.find(cfg.id) == std::string::npos) continue;
        bool known = false;
        for (auto& p : cfg.file_map) known |= p.second == cfg.dir + "/" + f;
        if (!known) r.push_back(f);
    }
    closedir(d);
    return r;
}

template <uint8_t W> static void build(vf::Case& c, uint64_t maxn, uint64_t lim)
{
    auto& r = c.rng;
    Seq s = gen_text(c, maxn, lim, false);
    bool ram = r.chance(1, 2);
    TextModel m(s);
    uint64_t maxlcp = *std::max_element(m.lcp.begin(), m.lcp.end());
    uint64_t mx = 0; for (auto x : s) mx = std::max(mx, x);
    c.desc("W=%d n=%zu max=%zu maxlcp=%zu %s %s", W, (size_t)m.n, (size_t)mx, (size_t)maxlcp, ram ? "ram" : "disk", s.size() < 60 ? vf::show(s).c_str() : "");
    c.trivial_if(m.n < 3);
    std::string id = "c13_" + std::to_string(c.idx) + (W ? "b_" : "i_");
    cache_config cfg(false, ram ? r.chance(1, 2) ? "@" : "@mem/cache" : vf::scratch_dir(), id);
    const char* KT = key_text_trait<W>::KEY_TEXT;
    const char* KB = key_bwt_trait<W>::KEY_BWT;
    int_vector<W> text(s.size());
    if (W == 0) text.width(r.chance(1, 2) ? 64 : bits::hi(mx) + 1);
    text.resize(s.size());
    for (size_t i = 0; i < s.size(); ++i) text[i] = s[i];
    VF_TRUE("no-zero", contains_no_zero_symbol(text, "x"), " ");
    append_zero_symbol(text);
    VF_TRUE("append", text.size() == m.n && text[m.n - 1] == 0, " ");
    store_to_cache(text, KT, cfg);

    // suffix array
    if (W == 8) {
        for (auto algo : {LIBDIVSUFSORT, SE_SAIS}) {
            construct_config::byte_algo_sa = algo;
            if (cfg.file_map.count(conf::KEY_SA)) drop(conf::KEY_SA, cfg);
            construct_sa<8>(cfg);
            int_vector<> sa;
            from_cache(sa, conf::KEY_SA, cfg);
            cmp(algo == SE_SAIS ? "sa-sais" : "sa-divsufsort", sa, m.sa, "sa");
        }
        construct_config::byte_algo_sa = LIBDIVSUFSORT;
        // calculate_sa into other widths
        unsigned w = bits::hi(m.n) + 1 + r.below(64 - bits::hi(m.n));
        int_vector<> sa(m.n, 0, w);
        algorithm::calculate_sa((const unsigned char*)text.data(), text.size(), sa);
        if (m.n > 1) VF_EQ("calc-sa", (unsigned)sa.width(), w, " ");
        cmp("calc-sa", sa, m.sa, "sa");
        int_vector<32> s32(m.n); algorithm::calculate_sa((const unsigned char*)text.data(), text.size(), s32); cmp("calc-sa32", s32, m.sa, "sa");
        int_vector<64> s64(m.n); algorithm::calculate_sa((const unsigned char*)text.data(), text.size(), s64); cmp("calc-sa64", s64, m.sa, "sa");
    } else {
        construct_sa<W>(cfg);
        int_vector<> sa;
        from_cache(sa, conf::KEY_SA, cfg);
        cmp("sa-qsufsort", sa, m.sa, "sa");
    }
    construct_bwt<W>(cfg);
    { int_vector<W> b; from_cache(b, KB, cfg); cmp("bwt", b, m.bwt, "bwt"); }
    construct_isa(cfg);
    { int_vector<> v; from_cache(v, conf::KEY_ISA, cfg); cmp("isa", v, m.isa, "isa"); }

    // LCP arrays
    typedef void (*Fn)(cache_config&);
    std::vector<std::pair<const char*, Fn>> algos = {{"kasai", &construct_lcp_kasai<W>}, {"PHI", &construct_lcp_PHI<W>}};
    if (W == 8) {
        algos.push_back({"semi_extern_PHI", &construct_lcp_semi_extern_PHI});
        algos.push_back({"go", &construct_lcp_go});
        algos.push_back({"goPHI", &construct_lcp_goPHI});
        algos.push_back({"bwt_based", &construct_lcp_bwt_based});
        algos.push_back({"bwt_based2", &construct_lcp_bwt_based2});
    }
    for (auto& a : algos) {
        a.second(cfg);
        int_vector<> v;
        from_cache(v, conf::KEY_LCP, cfg);
        cmp((std::string("lcp-") + a.first).c_str(), v, m.lcp, a.first);
        drop(conf::KEY_LCP, cfg);
    }
    // inputs untouched
    { int_vector<W> b; from_cache(b, KT, cfg); cmp("inputs", b, m.t, "text"); from_cache(b, KB, cfg); cmp("inputs", b, m.bwt, "bwt"); }
    { int_vector<> b; from_cache(b, conf::KEY_SA, cfg); cmp("inputs", b, m.sa, "sa"); }
    auto left = stray(cfg);
    VF_EQ("files", left, std::vector<std::string>(), "files neither registered nor removed");
    util::delete_all_files(cfg.file_map);
}
template <uint8_t W> static void sizes(vf::Case& c)
{
    uint64_t lim = W == 8 ? 255 : c.rng.chance(1, 3) ? 300 : c.rng.chance(1, 4) ? ~0ULL - 1 : (2ULL << c.rng.below(62)) - 1;
    uint64_t mx = c.rng.chance(1, 12) ? (c.thorough ? 120000 : 22000) : c.rng.chance(1, 2) ? 300 : 4000;
    build<W>(c, mx, lim);
}
VF_SUITE("byte", 260, 4000) { sizes<8>(c); }
VF_SUITE("int", 160, 3000) { sizes<0>(c); }
VF_SUITE("tiny-byte", 120, 1500) { build<8>(c, 1 + c.idx % 14, 1 + c.idx % 3); }
// texts with more than 2^16 different LMS substrings: SA-IS takes another path to rename them
VF_SUITE("large-byte", 2, 10)
{
    auto& r = c.rng; uint64_t n = 330000 + r.below(120000), sig = 60 + r.below(190); std::vector<uint64_t> s(n);
    bool rep = c.idx % 2; for (uint64_t i = 0; i < n; ++i) s[i] = 1 + r.below(sig);
    if (rep) for (int k = 0; k < 3; ++k) { uint64_t l = 500 + r.below(4000), a = r.below(n - l), b = r.below(n - l); for (uint64_t i = 0; i < l; ++i) s[b + i] = s[a + i]; }
    TextModel m(s); c.desc("n=%zu sigma=%zu%s", (size_t)n, (size_t)sig, rep ? " with repeated stretches" : ""); c.mixfp(c.seed);
    cache_config cfg(false, r.chance(1, 2) ? r.chance(1, 2) ? "@" : "@mem/cache" : vf::scratch_dir(), "c13l");
    { int_vector<8> t(n); for (uint64_t i = 0; i < n; ++i) t[i] = s[i]; append_zero_symbol(t); store_to_cache(t, conf::KEY_TEXT, cfg); }
    for (auto algo : {SE_SAIS, LIBDIVSUFSORT}) {
        construct_config::byte_algo_sa = algo; if (cfg.file_map.count(conf::KEY_SA)) drop(conf::KEY_SA, cfg);
        construct_sa<8>(cfg); int_vector<> sa; from_cache(sa, conf::KEY_SA, cfg); cmp(algo == SE_SAIS ? "sa-sais" : "sa-divsufsort", sa, m.sa, "sa");
    }
    construct_bwt<8>(cfg); { int_vector<8> b; from_cache(b, conf::KEY_BWT, cfg); cmp("bwt", b, m.bwt, "bwt"); }
    construct_isa(cfg); { int_vector<> v; from_cache(v, conf::KEY_ISA, cfg); cmp("isa", v, m.isa, "isa"); }
    typedef void (*Fn)(cache_config&); static const std::pair<const char*, Fn> algos[] = {{"kasai", &construct_lcp_kasai<8>}, {"PHI", &construct_lcp_PHI<8>}, {"semi_extern_PHI", &construct_lcp_semi_extern_PHI}, {"go", &construct_lcp_go}, {"goPHI", &construct_lcp_goPHI}, {"bwt_based", &construct_lcp_bwt_based}, {"bwt_based2", &construct_lcp_bwt_based2}};
    for (auto& a : algos) { a.second(cfg); int_vector<> v; from_cache(v, conf::KEY_LCP, cfg); cmp((std::string("lcp-") + a.first).c_str(), v, m.lcp, a.first); drop(conf::KEY_LCP, cfg); }
    VF_EQ("files", stray(cfg), std::vector<std::string>(), "files neither registered nor removed");
    util::delete_all_files(cfg.file_map);
}
// zero symbols are refused
VF_SUITE("zero", 40, 200)
{
    Seq s = gen_text(c, 200, 255);
    size_t p = c.rng.below(s.size());
    s[p] = 0;
    int_vector<8> t(s.size()); for (size_t i = 0; i < s.size(); ++i) t[i] = s[i];
    int_vector<> u(s.size()); for (size_t i = 0; i < s.size(); ++i) u[i] = s[i];
    bool thr = false;
    try { contains_no_zero_symbol(t, "x"); } catch (std::logic_error&) { thr = true; }
    VF_TRUE("zero", thr, "byte %zu", p);
    thr = false;
    try { contains_no_zero_symbol(u, "x"); } catch (std::logic_error&) { thr = true; }
    VF_TRUE("zero", thr, "int %zu", p);
    csa_wt<> csa; thr = false;
    std::string f = vf::scratch_dir() + "/zero";
    { std::ofstream o(f, std::ios::binary); for (auto b : s) o.put((char)b); }
    try { construct(csa, f, 1); } catch (std::logic_error&) { thr = true; }
    VF_TRUE("zero-construct", thr, "construct accepted a text with a 0 byte at %zu", p);
}
