// C31: construction over files: the same structure from every source and cache state, and no file left but those asked for.
#include "gen_text.hpp"
#include <dirent.h>
#include <fstream>
#include <set>
#include <sys/stat.h>
#include <unistd.h>
#include <sdsl/suffix_trees.hpp>
#include <sdsl/wavelet_trees.hpp>
#include <sdsl/lcp.hpp>
#include <sdsl/k2_treap.hpp>
#include <sdsl/k2_treap_algorithm.hpp>
using namespace sdsl;
using vf::Case;

// every RAM file the library ever creates goes through ram_fs::store
static std::set<std::string> g_ram;
void real_store(const std::string&, ram_fs::content_type) asm("__real__ZN4sdsl6ram_fs5storeERKNSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEEESt6vectorIcS5_E");
void wrap_store(const std::string&, ram_fs::content_type) asm("__wrap__ZN4sdsl6ram_fs5storeERKNSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEEESt6vectorIcS5_E");
void wrap_store(const std::string& n, ram_fs::content_type d) { g_ram.insert(n); real_store(n, std::move(d)); }

static std::string ramdir(Case& c) { return c.rng.chance(1, 2) ? "@" : "@mem/cache"; }
typedef std::map<std::string, std::string> Files; // name -> content
static std::string slurp(const std::string& f) { std::ifstream i(f, std::ios::binary); return std::string((std::istreambuf_iterator<char>(i)), std::istreambuf_iterator<char>()); }
struct Place { // directories that are watched
    std::string in, dir, cwd;
    explicit Place(Case& c)
    {
        std::string b = vf::scratch_dir() + "/fl" + std::to_string(c.idx); in = b + "/in"; dir = b + "/cache"; cwd = b + "/cwd";
        for (auto& d : {b, in, dir, cwd}) mkdir(d.c_str(), 0755);
        if (chdir(cwd.c_str())) abort();
        // files of somebody else, with names close to those the library uses
        for (auto& d : {in, dir, cwd}) for (const char* n : {"text_other.sdsl", "sa_other.sdsl", "note", "1_1.sdsl"}) std::ofstream(d + "/" + n) << "keep " << n;
        g_ram.clear();
        for (const char* n : {"@/text_other.sdsl", "@keep", "@/sa_.sdsl"}) store_to_file("keep", n);
    }
    Files list() const
    {
        Files r;
        for (auto& d : {in, dir, cwd}) { DIR* D = opendir(d.c_str()); while (auto e = readdir(D)) { std::string n = e->d_name; if (n != "." && n != "..") r[d + "/" + n] = slurp(d + "/" + n); } closedir(D); }
        { std::string own = std::to_string(getpid()) + "_"; DIR* D = opendir("/"); while (auto e = readdir(D)) { std::string n = e->d_name; if (n.compare(0, own.size(), own) == 0) r["/" + n] = "temporary file of this process"; } closedir(D); }
        for (auto& n : g_ram) if (ram_fs::exists(n)) r[n] = std::string(ram_fs::content(n).begin(), ram_fs::content(n).end());
        return r;
    }
    ~Place() { if (chdir("/")) abort(); for (auto& f : list()) sdsl::remove(f.first); for (auto& d : {in, dir, cwd}) rmdir(d.c_str()); }
};
static std::string base(const std::string& s) { return s.substr(s.rfind('/') + 1); }
static std::string norm(std::string f) { if (f.compare(0, 2, "./") == 0) { char b[4096]; if (getcwd(b, sizeof b)) f = std::string(b) + f.substr(1); } std::string r; for (char ch : f) if (!(ch == '/' && !r.empty() && r.back() == '/')) r += ch; return r; }
static void same(const Files& before, const Files& after, const std::set<std::string>& extra, const char* what, bool all = true)
{
    for (auto& f : before) { auto it = after.find(f.first); VF_TRUE("kept", it != after.end(), "%s: file %s disappeared", what, base(f.first).c_str()); VF_TRUE("kept", it->second == f.second, "%s: file %s changed", what, base(f.first).c_str()); }
    for (auto& f : after) if (!before.count(f.first) && !extra.count(norm(f.first))) VF_TRUE("left", false, "%s: file %s was left (%zu bytes)", what, base(f.first).c_str(), f.second.size());
    if (all) for (auto& e : extra) VF_TRUE("registered", after.count(e) || std::any_of(after.begin(), after.end(), [&](const Files::value_type& f) { return norm(f.first) == e; }), "%s: registered file %s does not exist", what, e.c_str());
}
template <class T> static std::string bytes(const T& t) { std::ostringstream o; t.serialize(o); return o.str(); }
static std::set<std::string> reg(const cache_config& g) { std::set<std::string> r; for (auto& p : g.file_map) r.insert(norm(p.second)); return r; }

// a source of the text in some format; returns num_bytes
static uint8_t write_source(Case& c, const Seq& s, const std::string& f, bool byte, int wt)
{
    uint64_t mx = 1; for (auto x : s) mx = std::max(mx, x);
    if (byte) {
        if (wt != 2 && c.rng.chance(1, 3) && !s.empty()) { int_vector<8> v(s.size()); for (size_t i = 0; i < s.size(); ++i) v[i] = s[i]; store_to_file(v, f); return 0; }
        std::string t(s.begin(), s.end()); store_to_file(t, f); return 1;
    }
    unsigned k = c.rng.below(7); if (k == 5 && mx >= (1ULL << 62)) k = 0; (void)wt;
    if (k == 5) { std::string t; for (auto x : s) t += std::to_string(x) + (c.rng.chance(1, 3) ? "\n" : " "); store_to_file(t, f); return 'd'; }
    if (k > 5) k = 0;
    unsigned nb = k == 0 ? 0 : 1 << (k - 1); while (nb && nb < 8 && (mx >> (8 * nb))) nb *= 2;
    if (nb == 0) { int_vector<> v(s.size(), 0, bits::hi(mx) + 1 + c.rng.below(64 - bits::hi(mx))); for (size_t i = 0; i < s.size(); ++i) v[i] = s[i]; store_to_file(v, f); return 0; }
    std::string t; for (auto x : s) for (unsigned b = 0; b < nb; ++b) t += (char)(x >> (8 * b)); store_to_file(t, f); return nb;
}
// reference structure: from a plain vector in memory, in one go
template <class T> static void direct(T& x, const Seq& s, bool byte, bool raw = false)
{
    if (byte && raw) { construct_im(x, std::string(s.begin(), s.end()), 1); return; }
    uint64_t mx = 1; for (auto v : s) mx = std::max(mx, v);
    if (byte) { int_vector<8> v(s.size()); for (size_t i = 0; i < s.size(); ++i) v[i] = s[i]; construct_im(x, v, 0); }
    else { int_vector<> v(s.size(), 0, bits::hi(mx) + 1); for (size_t i = 0; i < s.size(); ++i) v[i] = s[i]; construct_im(x, v, 0); }
}
static Seq make_text(Case& c, bool byte, bool wt, uint64_t maxn)
{
    uint64_t lim = byte ? 255 : c.rng.chance(1, 2) ? 200 : 60000;
    Seq s = gen_text(c, maxn, lim, true); (void)wt;
    return s;
}
template <class T> static void one(Case& c, bool byte, int kind)
{
    bool wt = kind == 1;
    Seq s = make_text(c, byte, wt, c.thorough ? 3000 : 900);
    Place pl(c);
    construct_config::byte_algo_sa = c.rng.chance(1, 2) ? LIBDIVSUFSORT : SE_SAIS;
    bool ram_in = c.rng.chance(1, 3); std::string f = ram_in ? (c.rng.chance(1, 2) ? "@in_" : "@src/dir/in_") + std::to_string(c.idx) : pl.in + "/input"; 
    unsigned dk = c.rng.below(4); std::string dir = dk == 0 ? ramdir(c) : dk == 1 ? pl.dir : dk == 2 ? pl.dir + "/" : "./";
    uint8_t nb = write_source(c, s, f, byte, kind);
    std::string want; { T x; Files b = pl.list(); direct(x, s, byte, kind == 2); want = bytes(x); same(b, pl.list(), {}, "construct_im"); }
    Files before = pl.list();
    c.desc("n=%zu format %d input %s cache %s", s.size(), (int)nb, ram_in ? "ram" : "disk", dir == "./" || dk == 0 ? dir.c_str() : "dir");
    { T x; construct(x, f, nb); VF_TRUE("equal", bytes(x) == want, "built from the file (format %d) differs from the one built from memory", (int)nb); same(before, pl.list(), {}, "construct without config"); }
    if (c.rng.chance(1, 2)) { T x; cache_config g(true, dir, c.rng.chance(1, 2) ? "" : "id" + std::to_string(c.idx)); construct(x, f, g, nb); VF_TRUE("equal", bytes(x) == want, "built with a cache directory and delete_files differs"); same(before, pl.list(), {}, "construct with delete_files"); VF_TRUE("map", wt || g.file_map.empty(), "%zu files are registered after deletion", g.file_map.size()); }
    T y; cache_config g(false, dir, "k" + std::to_string(c.idx)); construct(y, f, g, nb); VF_TRUE("equal", bytes(y) == want, "built with a cache differs"); Files kept = pl.list(); same(before, kept, reg(g), "construct that keeps the files");
    if (!wt) VF_TRUE("map", !g.file_map.empty(), "%s", "no file registered");
    // again: over the files of the first run, with and without the map; into an object that holds something
    { T z; if (c.rng.chance(1, 2)) { z = y; } cache_config h(false, dir, "k" + std::to_string(c.idx)); if (c.rng.chance(1, 2)) h.file_map = g.file_map; construct(z, f, h, nb); VF_TRUE("equal", bytes(z) == want, "built from cached files differs"); same(kept, pl.list(), reg(h), "construct over cached files"); }
    { cache_config h(true, dir, "k" + std::to_string(c.idx), g.file_map); T z; construct(z, f, h, nb); VF_TRUE("equal", bytes(z) == want, "built from cached files differs (delete_files)"); 
      if (wt) util::delete_all_files(g.file_map); same(before, pl.list(), {}, "construct over cached files with delete_files"); }
    c.trivial_if(s.size() < 2);
}
#define ONE(name, q, byte, wt, ...) static vf::Reg VF_CAT(rf, __LINE__)(name, q, q * 8, [](Case& c) { one<__VA_ARGS__>(c, byte, wt); });
#ifndef VF_CAT
#define VF_CAT2(a, b) a##b
#define VF_CAT(a, b) VF_CAT2(a, b)
#endif
typedef csa_wt<wt_huff<>, 8, 8, fuzzy_sa_sampling<>, fuzzy_isa_sampling_support<>> csa_fuzzy;
typedef csa_wt<wt_int<>, 8, 16, text_order_sa_sampling<>, isa_sampling<>, int_alphabet<>> csa_int_to;
#if PART == 1
ONE("csa_wt", 12, true, 0, csa_wt<>)
ONE("csa_wt rlmn", 10, true, 0, csa_wt<wt_rlmn<>>)
ONE("csa_wt fuzzy", 12, true, 0, csa_fuzzy)
ONE("csa_wt text order", 10, true, 0, csa_wt<wt_hutu<rrr_vector<63>>, 8, 8, text_order_sa_sampling<>, text_order_isa_sampling_support<>>)
ONE("csa_sada", 12, true, 0, csa_sada<>)
ONE("csa_bitcompressed", 10, true, 0, csa_bitcompressed<>)
ONE("csa_wt int", 12, false, 0, csa_wt_int<>)
ONE("csa_sada int", 10, false, 0, csa_sada_int<>)
ONE("csa_bitcompressed int", 10, false, 0, csa_bitcompressed<int_alphabet<>>)
ONE("csa_wt int text order", 10, false, 0, csa_int_to)
ONE("lcp_dac", 10, true, 2, lcp_dac<>)
ONE("lcp_bitcompressed", 10, true, 2, lcp_bitcompressed<>)
ONE("lcp_wt", 10, true, 2, lcp_wt<>)
ONE("lcp_byte", 10, true, 2, lcp_byte<>)
ONE("lcp_vlc", 10, true, 2, lcp_vlc<>)
ONE("lcp_dac int", 10, false, 2, lcp_dac<>)
#elif PART == 2
ONE("cst_sct3", 10, true, 0, cst_sct3<>)
ONE("cst_sct3 tree2", 10, true, 0, cst_sct3<csa_wt<>, lcp_support_tree2<>>)
ONE("cst_sct3 tree", 10, true, 0, cst_sct3<csa_wt<>, lcp_support_tree<>>)
ONE("cst_sct3 sada", 10, true, 0, cst_sct3<csa_sada<>, lcp_support_sada<>>)
ONE("cst_sada", 10, true, 0, cst_sada<>)
ONE("cst_sada wt", 10, true, 0, cst_sada<csa_wt<>, lcp_wt<>>)
ONE("cst_sct3 int", 10, false, 0, cst_sct3<csa_wt_int<>>)
ONE("cst_sct3 int tree2", 10, false, 0, cst_sct3<csa_sada_int<>, lcp_support_tree2<>>)
ONE("cst_sada int", 10, false, 0, cst_sada<csa_sada_int<>>)
#else
ONE("wt_huff", 10, true, 1, wt_huff<>)
ONE("wt_hutu", 10, true, 1, wt_hutu<>)
ONE("wt_blcd", 10, true, 1, wt_blcd<>)
ONE("wt_rlmn", 10, true, 1, wt_rlmn<>)
ONE("wt_int", 10, false, 1, wt_int<>)
ONE("wm_int", 10, false, 1, wm_int<>)
ONE("wt_huff_int", 10, false, 1, wt_huff_int<>)
ONE("wt_hutu_int", 10, false, 1, wt_hutu_int<>)
ONE("wt_rlmn int", 10, false, 1, wt_rlmn<sd_vector<>, rank_support_sd<>, select_support_sd<>, wt_int<>>)
ONE("wt_ap", 10, false, 1, wt_ap<>)
ONE("wt_gmr", 10, false, 1, wt_gmr<>)
ONE("wt_gmr_rs", 10, false, 1, wt_gmr_rs<>)
// several structures over one cache, in any order: each is what it is alone
static vf::Reg shr("shared cache", 30, 400, [](Case& c) {
    Seq s = make_text(c, true, false, c.thorough ? 2000 : 600); Place pl(c); std::string f = pl.in + "/input"; uint8_t nb = write_source(c, s, f, true, 0); construct_config::byte_algo_sa = c.rng.chance(1, 2) ? LIBDIVSUFSORT : SE_SAIS;
    std::string dir = c.rng.chance(1, 2) ? ramdir(c) : pl.dir; Files before = pl.list(); cache_config g(false, dir, "sh" + std::to_string(c.idx)); std::vector<int> o{0, 1, 2, 3, 4, 5, 6, 7}; for (size_t i = o.size(); i > 1; --i) std::swap(o[i - 1], o[c.rng.below(i)]); std::string seen;
#define SH(k, ...) if (w == k) { typedef __VA_ARGS__ T; T x, y; construct(x, f, h, nb); direct(y, s, true, w == 6); VF_TRUE("shared", bytes(x) == bytes(y), "%s after %s differs from the one built alone", #__VA_ARGS__, seen.c_str()); }
    for (int w : o) { cache_config h(false, dir, g.id); bool fresh = c.rng.chance(1, 2); if (!fresh) h.file_map = g.file_map;
        SH(0, csa_wt<>) SH(1, csa_sada<>) SH(2, cst_sct3<>) SH(3, cst_sada<csa_sada<>, lcp_wt<>>) SH(4, csa_bitcompressed<>) SH(5, csa_fuzzy) if (nb == 1) { SH(6, lcp_dac<>) } SH(7, cst_sct3<csa_wt<>, lcp_support_tree2<>>)
        for (auto& p : h.file_map) g.file_map[p.first] = p.second; seen += std::to_string(w); same(before, pl.list(), reg(g), "shared cache"); }
    // the cached arrays are the arrays
    TextModel m(s); { int_vector<> sa; VF_TRUE("cached", load_from_cache(sa, conf::KEY_SA, g) && sa.size() == m.n, "%s", "SA"); for (size_t i = 0; i < m.n; ++i) VF_EQ("cached", (uint64_t)sa[i], m.sa[i], "SA[%zu]", i); int_vector<> lcp; VF_TRUE("cached", load_from_cache(lcp, conf::KEY_LCP, g) && lcp.size() == m.n, "%s", "LCP"); for (size_t i = 0; i < m.n; ++i) VF_EQ("cached", (uint64_t)lcp[i], m.lcp[i], "LCP[%zu]", i); int_vector<8> b; VF_TRUE("cached", load_from_cache(b, conf::KEY_BWT, g) && b.size() == m.n, "%s", "BWT"); for (size_t i = 0; i < m.n; ++i) VF_EQ("cached", (uint64_t)b[i], m.bwt[i], "BWT[%zu]", i); }
    util::delete_all_files(g.file_map); VF_TRUE("map", g.file_map.empty(), "map not cleared"); same(before, pl.list(), {}, "delete_all_files"); c.desc("n=%zu order %s", s.size(), seen.c_str()); c.trivial_if(s.size() < 2);
});
// every LCP algorithm: the files that stay are registered ones
static vf::Reg lcps("lcp algorithms", 40, 500, [](Case& c) {
    Seq s = make_text(c, true, false, c.thorough ? 3000 : 800); Place pl(c); std::string dir = c.rng.chance(1, 2) ? ramdir(c) : pl.dir; cache_config g(false, dir, "l" + std::to_string(c.idx)); int_vector<8> t(s.size() + 1, 0); for (size_t i = 0; i < s.size(); ++i) t[i] = s[i]; Files before = pl.list(); store_to_cache(t, conf::KEY_TEXT, g); construct_sa<8>(g); construct_bwt<8>(g); construct_isa(g);
    TextModel m(s); unsigned k = c.rng.below(7); const char* nm[] = {"kasai", "PHI", "semi_extern_PHI", "go", "goPHI", "bwt_based", "bwt_based2"}; 
    switch (k) { case 0: construct_lcp_kasai<8>(g); break; case 1: construct_lcp_PHI<8>(g); break; case 2: construct_lcp_semi_extern_PHI(g); break; case 3: construct_lcp_go(g); break; case 4: construct_lcp_goPHI(g); break; case 5: construct_lcp_bwt_based(g); break; default: construct_lcp_bwt_based2(g); }
    int_vector<> lcp; VF_TRUE("cached", load_from_cache(lcp, conf::KEY_LCP, g) && lcp.size() == m.n, "%s: %zu values", nm[k], lcp.size()); for (size_t i = 0; i < m.n; ++i) VF_EQ("cached", (uint64_t)lcp[i], m.lcp[i], "%s LCP[%zu]", nm[k], i);
    same(before, pl.list(), reg(g), nm[k], false); util::delete_all_files(g.file_map); same(before, pl.list(), {}, "delete_all_files"); c.desc("%s n=%zu", nm[k], s.size()); c.trivial_if(s.size() < 2);
});
// input that is refused leaves nothing
static vf::Reg refu("refused", 40, 400, [](Case& c) {
    Seq s = make_text(c, true, false, 300); Seq z = s; z[c.rng.below(z.size())] = 0; Place pl(c); std::string f = c.rng.chance(1, 2) ? c.rng.chance(1, 2) ? "@bad" : "@src/bad" : pl.in + "/bad", dir = c.rng.chance(1, 2) ? ramdir(c) : pl.dir; bool byte = c.rng.chance(1, 2); unsigned k = c.rng.below(4);
    if (byte) store_to_file(std::string(z.begin(), z.end()), f); else { int_vector<> v(z.size(), 0, 20); for (size_t i = 0; i < z.size(); ++i) v[i] = z[i]; store_to_file(v, f); }
    Files before = pl.list(); auto t = [&](bool ok) { VF_TRUE("refused", ok, "text with a zero symbol accepted"); }; bool th = false;
#define TRY(...) try { __VA_ARGS__; } catch (std::logic_error&) { th = true; }
    cache_config g(c.rng.chance(1, 2), dir, "z" + std::to_string(c.idx));
    if (byte) { if (k == 0) { csa_wt<> x; TRY(construct(x, f, g, 1)) } else if (k == 1) { cst_sct3<> x; TRY(construct(x, f, g, 1)) } else if (k == 2) { csa_sada<> x; std::string zs(z.begin(), z.end()); TRY(construct_im(x, zs, 1)) } else { lcp_dac<> x; TRY(construct(x, f, g, 1)) } }
    else { int_vector<> v(z.size(), 0, 20); for (size_t i = 0; i < z.size(); ++i) v[i] = z[i]; if (k == 0) { csa_wt_int<> x; TRY(construct(x, f, g, 0)) } else if (k == 1) { cst_sada<csa_sada_int<>> x; TRY(construct(x, f, g, 0)) } else if (k == 2) { csa_sada_int<> x; TRY(construct_im(x, v, 0)) } else { csa_bitcompressed<int_alphabet<>> x; TRY(construct(x, f, g, 0)) } }
    t(th); same(before, pl.list(), {}, "refused construction"); c.desc("n=%zu kind %u", z.size(), k);
});
// point structures: temporary files next to the input or where asked
static vf::Reg trp("k2_treap", 30, 400, [](Case& c) {
    Place pl(c); std::vector<std::tuple<uint64_t, uint64_t, uint64_t>> v; std::set<std::pair<uint64_t, uint64_t>> u; uint64_t lim = 1 + c.rng.size(5000); for (unsigned i = 0, e = 1 + c.rng.below(200); i < e; ++i) { uint64_t x = c.rng.below(lim), y = c.rng.below(lim); if (u.insert({x, y}).second) v.emplace_back(x, y, 1 + c.rng.below(1000)); c.mixfp(x * lim + y); }
    typedef k2_treap<2, rrr_vector<63>> K; Files b0 = pl.list(); std::vector<std::array<uint64_t, 3>> a; for (auto& p : v) a.push_back({{std::get<0>(p), std::get<1>(p), std::get<2>(p)}}); std::string want; { K x; construct_im(x, a); want = bytes(x); } same(b0, pl.list(), {}, "construct_im(k2_treap)");
    std::string pre = c.rng.chance(1, 2) ? c.rng.chance(1, 2) ? "@pts" : "@src/dir/pts" : pl.in + "/pts"; { int_vector<> x(v.size(), 0, 32), y(v.size(), 0, 40), w(v.size(), 0, 20); for (size_t i = 0; i < v.size(); ++i) { x[i] = std::get<0>(v[i]); y[i] = std::get<1>(v[i]); w[i] = std::get<2>(v[i]); } store_to_file(x, pre + ".x"); store_to_file(y, pre + ".y"); store_to_file(w, pre + ".w"); }
    Files before = pl.list(); { K x; construct(x, pre); VF_TRUE("equal", bytes(x) == want, "k2_treap built from files differs"); } same(before, pl.list(), {}, "construct(k2_treap)");
    { auto z = v; K x(z, c.rng.chance(1, 2) ? pl.dir + "/pre" : "@pre"); VF_TRUE("equal", bytes(x) == want, "k2_treap built with a prefix differs"); } same(before, pl.list(), {}, "k2_treap with a prefix"); { auto z = v; K x(z); VF_TRUE("equal", bytes(x) == want, "k2_treap built without prefix differs"); } same(before, pl.list(), {}, "k2_treap without prefix");
    c.desc("%zu points", v.size());
});
#endif
