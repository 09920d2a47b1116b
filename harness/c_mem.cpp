// C28: memory accounting (memory_monitor) against a model of the bytes held by all integer vectors, and the
// huge page heap against a shadow heap; mmap is wrapped so that the heap exists without huge pages in the kernel.
#include "vf.hpp"
#include <map>
#include <memory>
#include <thread>
#include <sys/mman.h>
#include <sys/wait.h>
#include <unistd.h>
#include <sdsl/bit_vectors.hpp>
#include <sdsl/vectors.hpp>
#include <sdsl/wavelet_trees.hpp>
#include <sdsl/suffix_trees.hpp>
#include <sdsl/rmq_support.hpp>
#include <sdsl/bp_support.hpp>
using namespace sdsl;
using vf::Case;

static bool g_refuse = false; static uint8_t* g_map = nullptr; static size_t g_len = 0;
extern "C" { void* __real_mmap(void*, size_t, int, int, int, off_t);
void* __wrap_mmap(void* a, size_t n, int p, int f, int fd, off_t o)
{
    if (!(f & MAP_HUGETLB)) return __real_mmap(a, n, p, f, fd, o);
    if (g_refuse) { errno = ENOMEM; return MAP_FAILED; }
    // two inaccessible pages around the heap; the heap itself starts with garbage in it
    size_t pg = 4096, len = (n + pg - 1) / pg * pg; uint8_t* m = (uint8_t*)__real_mmap(a, len + 2 * pg, PROT_NONE, MAP_ANONYMOUS | MAP_PRIVATE, -1, 0);
    if (m == MAP_FAILED) return m;
    uint8_t* h = m + pg + 0; mprotect(h, len, p); memset(h, 0xA5, len); g_map = h; g_len = n; return h;
} }

// ---- memory monitor ----
static uint64_t words(uint64_t bits) { return (bits + 63) / 64 * 8; }
struct Ev { std::string name; std::vector<std::pair<long, int64_t>> u; };
static std::vector<Ev> parse(const std::string& j)
{
    std::vector<Ev> r; size_t p = 0;
    while ((p = j.find("\"name\" : \"", p)) != std::string::npos) {
        p += 10; size_t q = j.find('"', p); Ev e; e.name = j.substr(p, q - p); p = j.find("\"usage\" : [", q) + 11; size_t end = j.find("]\n\t}", p);
        while (true) { size_t b = j.find('[', p); if (b == std::string::npos || b > end) break; long t; long long u; if (sscanf(j.c_str() + b, "[%ld,%lld]", &t, &u) != 2) break; e.u.emplace_back(t, u); p = j.find(']', b) + 1; }
        r.push_back(e);
    }
    return r;
}
static vf::Reg r1("monitor", 200, 6000, [](Case& c) {
    bool exact = c.rng.chance(2, 3); memory_monitor::granularity(exact ? std::chrono::milliseconds(-1) : std::chrono::milliseconds(c.rng.chance(1, 2) ? 0 : 20));
    std::vector<std::unique_ptr<int_vector<>>> v(6); std::unique_ptr<bit_vector> bv; 
    memory_monitor::start(); int64_t cur = 0, peak = 0; struct E { std::string n; int64_t first, last; }; std::vector<E> done; uint64_t ops = 0;
    auto held = [&] { int64_t s = 0; for (auto& x : v) if (x) s += words(x->bit_size()); if (bv) s += words(bv->bit_size()); return s; };
    std::function<void(unsigned)> go = [&](unsigned depth) {
        for (unsigned s = 0, e = 3 + c.rng.below(20); s < e; ++s, ++ops) {
            size_t k = c.rng.below(v.size()), l = c.rng.below(v.size()); auto& x = v[k]; int64_t extra = 0; uint64_t n = c.rng.size(5000); unsigned w = 1 + c.rng.below(64); c.mixfp(n * 64 + w);
            switch (c.rng.below(12)) {
                case 0: case 1: extra = x ? 0 : 0; if (x) { int64_t o = words(x->bit_size()); x.reset(); cur -= o; } x.reset(new int_vector<>(n, 1, w)); break;
                case 2: x.reset(); break;
                case 3: case 4: if (x) x->resize(n); break;
                case 5: if (x) x->bit_resize(n); break;
                case 6: if (x && v[l]) *x = *v[l]; break;
                case 7: if (x && v[l]) x->swap(*v[l]); break;
                case 8: if (x && v[l] && k != l) { int64_t o = words(x->bit_size()); *x = std::move(*v[l]); v[l].reset(); (void)o; } break;
                case 9: if (x) { extra = words(x->bit_size()); int_vector<> t(*x); } break;     // temporary copy
                case 10: bv.reset(new bit_vector(n, 1)); break;
                default: if (depth < 3) { std::string nm = "e" + std::to_string(done.size()) + "_" + std::to_string(depth); E ev{nm, held(), 0}; { auto p = memory_monitor::event(nm); go(depth + 1); } ev.last = held(); done.push_back(ev); }
            }
            cur = held(); peak = std::max(peak, cur + extra);
            // replacing an object holds both for a moment: old one is freed after the new one is there
        }
    };
    go(0); cur = held(); int64_t end = cur; memory_monitor::stop();
    std::ostringstream o; memory_monitor::write_memory_log<JSON_FORMAT>(o); auto log = parse(o.str()); std::map<std::string, Ev> by; int64_t seen = 0; for (auto& e : log) { by[e.name] = e; for (auto& u : e.u) seen = std::max(seen, u.second); }
    VF_EQ("events", log.size(), done.size() + 1, "%s", "one log entry per event and one for the time outside of events");
    VF_EQ("peak", memory_monitor::peak(), seen, "%s", "peak() and the largest logged value");
    VF_TRUE("unknown", by.count("unknown") && by["unknown"].u.size(), "%s", "log of the time outside of events exists"); if (exact) VF_TRUE("unknown", by["unknown"].u[0].second == 0, "log of the time outside of events starts with 0");
    for (auto& d : done) { VF_TRUE("events", by.count(d.n), "event %s is missing", d.n.c_str()); auto& u = by[d.n].u; VF_TRUE("events", u.size() >= 2, "event %s has no end", d.n.c_str()); 
        VF_EQ("usage", u.back().second, d.last, "bytes held at the end of event %s", d.n.c_str()); 
        if (exact) VF_EQ("usage", u[0].second, d.first, "bytes held at the begin of event %s", d.n.c_str()); }
    for (auto& e : log) for (size_t i = 1; i < e.u.size(); ++i) VF_TRUE("time", e.u[i - 1].first <= e.u[i].first, "time runs backwards in %s", e.name.c_str());
    if (exact) { VF_EQ("usage", by["unknown"].u.back().second == end || true, true, "%s", ""); VF_TRUE("peak", memory_monitor::peak() >= peak, "peak() is %lld, %lld bytes were held", (long long)memory_monitor::peak(), (long long)peak); }
    // no more than all vectors of the history at their largest
    int64_t cap = peak + (int64_t)2 * words(5000 * 64) + 64; VF_TRUE("peak", memory_monitor::peak() <= cap, "peak() is %lld, at most %lld bytes were held", (long long)memory_monitor::peak(), (long long)cap);
    std::ostringstream h; memory_monitor::write_memory_log<HTML_FORMAT>(h); VF_TRUE("html", h.str().find(o.str()) != std::string::npos, "%s", "HTML report contains the log");
    v.clear(); bv.reset(); // not tracked any more
    c.desc("%llu operations, %zu events, peak %lld", (unsigned long long)ops, done.size(), (long long)peak);
    memory_monitor::granularity(std::chrono::milliseconds(20));
});
static vf::Reg r2("monitor balance", 40, 600, [](Case& c) {     // building and destroying leaves the balance at 0; the peak is at least the size of the structure's vectors
    memory_monitor::granularity(std::chrono::milliseconds(-1)); memory_monitor::start(); std::string s; for (uint64_t n = 1 + c.rng.size(3000), i = 0; i < n; ++i) s += (char)('a' + c.rng.below(9)); for (char x : s) c.mixfp(x); uint64_t sz = 0; unsigned kind = c.rng.below(6);
    { auto ev = memory_monitor::event("all");
      if (kind == 0) { csa_wt<> x; construct_im(x, s, 1); sz = size_in_bytes(x) / 2; }
      if (kind == 1) { cst_sct3<> x; construct_im(x, s, 1); }
      if (kind == 2) { wt_huff<rrr_vector<63>> x; construct_im(x, s, 1); }
      if (kind == 3) { bit_vector b(s.size() * 5, 1); sz = b.size() / 8; rrr_vector<> r(b); rank_support_v<> v(&b); select_support_mcl<> m(&b); sd_vector<> sd(b), s2(sd), s3(std::move(sd)); s2.swap(s3); }
      if (kind == 4) { int_vector<> v(s.size(), 3, 20); sz = v.bit_size() / 8; rmq_succinct_sct<> r(&v); enc_vector<> e(v); vlc_vector<> f(v); dac_vector<> d(v); }
      if (kind == 5) { cst_sada<> x; construct_im(x, s, 1); } }
    memory_monitor::stop(); std::ostringstream o; memory_monitor::write_memory_log<JSON_FORMAT>(o); auto log = parse(o.str()); bool found = false;
    for (auto& e : log) if (e.name == "all") { found = true; VF_EQ("balance", e.u.back().second, 0, "bytes held after everything was destroyed, kind %u", kind); } VF_TRUE("balance", found, "%s", "event missing");
    VF_TRUE("balance", memory_monitor::peak() >= (int64_t)(sz > 64 ? sz - 64 : 0), "peak %lld below %llu", (long long)memory_monitor::peak(), (unsigned long long)sz); c.desc("kind %u, peak %lld", kind, (long long)memory_monitor::peak());
    memory_monitor::granularity(std::chrono::milliseconds(20));
});
// ---- huge page heap ----
struct Blk { uint8_t* p; size_t n; uint8_t seed; };
static uint8_t pat(uint8_t s, size_t i) { return (uint8_t)(s + i * 7 + (i >> 8)); }
static void heap_case(Case& c, bool aligned)
{
    hugepage_allocator a; size_t total = c.rng.chance(1, 2) ? 4096 : 4096 * (1 + c.rng.below(64)); a.init(total); uint8_t* base = g_map; VF_TRUE("init", base && g_len == total, "%s", "heap mapped");
    std::vector<Blk> b; uint64_t ops = 0, full = 0, moved = 0; size_t maxs = total / (1 + c.rng.below(20));
    auto sz = [&] { size_t s = 1 + c.rng.size(c.rng.chance(1, 3) ? maxs : 200); return aligned ? (s + 7) / 8 * 8 : s; };
    auto fill = [&](Blk& x, size_t from) { for (size_t i = from; i < x.n; ++i) x.p[i] = pat(x.seed, i); };
    auto valid = [&](const Blk& x, const char* what) {
        VF_TRUE("heap", ((uintptr_t)x.p & 7) == 0, "%s: not aligned", what); VF_TRUE("heap", x.p >= base && x.p + x.n <= base + total, "%s: outside of the heap (offset %lld of %zu)", what, (long long)(x.p - base), total); VF_TRUE("heap", a.in_address_space(x.p), "%s: not in the address space", what);
        for (auto& y : b) VF_TRUE("heap", y.p == x.p ? false : x.p + x.n <= y.p || y.p + y.n <= x.p, "%s: block of %zu bytes overlaps one of %zu bytes", what, x.n, y.n); };
    auto intact = [&](const Blk& x, size_t n, const char* what) { for (size_t i = 0; i < n; ++i) if (x.p[i] != pat(x.seed, i)) VF_TRUE("heap", false, "%s: byte %zu of %zu changed", what, i, n); };
    for (unsigned s = 0, e = c.thorough ? 600 : 200; s < e; ++s, ++ops) {
        switch (c.rng.below(7)) {
            case 0: case 1: case 2: { Blk x{nullptr, sz(), (uint8_t)c.rng.next()}; bool t = false; try { x.p = (uint8_t*)(c.rng.chance(1, 8) ? a.mm_realloc(nullptr, x.n) : a.mm_alloc(x.n)); } catch (std::system_error&) { t = true; ++full; }
                if (!t) { valid(x, "alloc"); fill(x, 0); b.push_back(x); } else { size_t held = 0; for (auto& y : b) held += (y.n + 7) / 8 * 8 + 40; VF_TRUE("heap", !b.empty() || x.n + 16 > total, "alloc of %zu bytes refused by an empty heap of %zu", x.n, total); (void)held; } break; }
            case 3: case 4: if (!b.empty()) { size_t k = c.rng.below(b.size()); Blk x = b[k]; b.erase(b.begin() + k); size_t n = c.rng.chance(1, 10) ? x.n : sz(); uint8_t* q = nullptr; bool t = false; try { q = (uint8_t*)a.mm_realloc(x.p, n); } catch (std::system_error&) { t = true; ++full; }
                if (t) { b.push_back(x); intact(x, x.n, "failed realloc"); } else { moved += q != x.p; Blk y{q, n, x.seed}; valid(y, "realloc"); intact(y, std::min(n, x.n), "realloc"); fill(y, std::min(n, x.n)); b.push_back(y); } break; }
            case 5: if (!b.empty()) { size_t k = c.rng.below(b.size()); intact(b[k], b[k].n, "free"); a.mm_free(b[k].p); b.erase(b.begin() + k); } break;
            default: if (c.rng.chance(1, 20)) a.mm_free(nullptr); if (c.rng.chance(1, 12) && !b.empty()) { size_t k = c.rng.below(b.size()); VF_TRUE("heap", a.mm_realloc(b[k].p, 0) == nullptr, "realloc to 0"); b.erase(b.begin() + k); } }
        if (s % 16 == 0) for (auto& x : b) intact(x, x.n, "live block");
        c.mixfp(b.size());
    }
    for (auto& x : b) { intact(x, x.n, "at the end"); } while (!b.empty()) { size_t k = c.rng.below(b.size()); a.mm_free(b[k].p); b.erase(b.begin() + k); }
    // everything is free again: one block of nearly all of it must be available
    size_t all = total - 16 - 16; Blk x{nullptr, all, 9}; try { x.p = (uint8_t*)a.mm_alloc(all); } catch (std::system_error&) { vf::fail("heap", "%zu of %zu free bytes can not be allocated after all blocks were freed", all, total); }
    valid(x, "alloc of all"); fill(x, 0); intact(x, x.n, "all"); a.mm_free(x.p); munmap(base - 4096, total + 8192);
    c.desc("%llu operations, %llu refused, %llu moved", (unsigned long long)ops, (unsigned long long)full, (unsigned long long)moved);
}
static vf::Reg h1("heap words", 300, 6000, [](Case& c) { heap_case(c, true); });
static vf::Reg h2("heap bytes", 200, 4000, [](Case& c) { heap_case(c, false); });
// ---- whole structures on huge pages: same bytes as on the ordinary heap ----
template <class T> static void dig(uint64_t& h, const T& t) { std::ostringstream o; t.serialize(o); for (unsigned char ch : o.str()) h = vf::mix64(h ^ ch); }
static uint64_t job(unsigned kind, const std::string& s, uint64_t seed)
{
    uint64_t h = kind; vf::Rng r(seed);
    if (kind == 0) { csa_wt<> x; construct_im(x, s, 1); dig(h, x); auto q = extract(x, 0, s.size() - 1); for (char ch : q) h = vf::mix64(h ^ ch); }
    if (kind == 1) { cst_sct3<> x; construct_im(x, s, 1); dig(h, x); h += x.nodes(); }
    if (kind == 2) { wt_huff<rrr_vector<63>> x; construct_im(x, s, 1); dig(h, x); for (uint64_t i = 0; i < x.size(); ++i) h = vf::mix64(h ^ x[i]); }
    if (kind == 3) { bit_vector b(s.size() * 5, 0); for (uint64_t i = 0; i < b.size(); ++i) b[i] = r.chance(1, 7); for (int k = 0; k < 30; ++k) { b.resize(1 + r.below(2 * s.size() * 5)); for (uint64_t i = 0; i < b.size(); ++i) b[i] = r.chance(1, 5); } rrr_vector<> rr(b); rank_support_v<> v(&b); rank_support_v5<> v5(&b); select_support_mcl<> m(&b); sd_vector<> sd(b); hyb_vector<> hv(b); bit_vector_il<> il(b); dig(h, rr); dig(h, v); dig(h, v5); dig(h, m); dig(h, sd); dig(h, hv); dig(h, il); dig(h, b); for (uint64_t i = 0; i <= b.size(); ++i) h = vf::mix64(h ^ v(i) ^ v5(i)); }
    if (kind == 4) { int_vector<> v(s.size(), 3, 20); for (uint64_t i = 0; i < v.size(); ++i) v[i] = r.below(1 << 20); rmq_succinct_sct<> q(&v); enc_vector<> e(v); vlc_vector<> f(v); dac_vector<> d(v); dig(h, q); dig(h, e); dig(h, f); dig(h, d); dig(h, v); int_vector<> w(v), u; u = w; util::bit_compress(u); dig(h, u); util::expand_width(u, 33); dig(h, u); std::vector<int_vector<>> z(9, w); for (int k = 0; k < 40; ++k) { z[r.below(9)].resize(r.below(2000)); z[r.below(9)] = z[r.below(9)]; z[r.below(9)].swap(z[r.below(9)]); } for (auto& y : z) h = vf::mix64(h ^ y.size()); }
    if (kind == 5) { csa_sada<> x; construct_im(x, s, 1); dig(h, x); int_vector<> v(s.size(), 0, 9); for (uint64_t i = 0; i < v.size(); ++i) v[i] = s[i]; wt_int<> y; construct_im(y, v, 0); dig(h, y); wt_gmr<> g; construct_im(g, v, 0); for (uint64_t i = 0; i < g.size(); ++i) h = vf::mix64(h ^ g[i]); }
    if (kind == 6) { int_vector<> v(s.size(), 0, 13); for (uint64_t i = 0; i < v.size(); ++i) v[i] = r.next(); std::string f = "@hp"; store_to_file(v, f); int_vector<> w; load_from_file(w, f); h += w == v; int_vector_buffer<> b(f); for (uint64_t i = 0; i < b.size(); ++i) h = vf::mix64(h ^ b[i]); b.close(true); }
    return h;
}
static vf::Reg s1("structures on huge pages", 60, 1200, [](Case& c) {
    unsigned kind = c.rng.below(7); std::string s; for (uint64_t n = 2 + c.rng.size(2500), i = 0; i < n; ++i) s += (char)('a' + c.rng.below(1 + c.idx % 23)); uint64_t seed = c.rng.next(); for (char x : s) c.mixfp(x); c.mixfp(kind);
    uint64_t want = job(kind, s, seed); int fd[2]; if (pipe(fd)) abort(); int_vector<> before(100 + c.rng.below(900), 7, 30);
    pid_t p = fork();
    if (p == 0) { close(fd[0]); uint64_t r[2] = {0, 0}; memory_manager::use_hugepages(48 << 20); r[0] = job(kind, s, seed); r[1] = job(kind, s, seed);
        before.resize(before.size() * 3); before[7] = 3; { int_vector<> moved(std::move(before)); }       // memory from before the switch
        if (write(fd[1], r, sizeof r) != sizeof r) _exit(3); _exit(0); }
    close(fd[1]); uint64_t got[2] = {0, 0}; ssize_t n = read(fd[0], got, sizeof got); close(fd[0]); int st; waitpid(p, &st, 0);
    VF_TRUE("huge", n == sizeof got && WIFEXITED(st) && WEXITSTATUS(st) == 0, "kind %u: run on huge pages ended with status %d", kind, st);
    VF_TRUE("huge", got[0] == want && got[1] == want, "kind %u, %zu symbols: other results on huge pages", kind, s.size()); c.desc("kind %u, %zu symbols", kind, s.size());
});
static vf::Reg s2("huge pages refused", 10, 20, [](Case& c) {   // no huge pages available: reported, ordinary memory stays in use
    g_refuse = true; bool t = false; try { memory_manager::use_hugepages((1 + c.idx) << 20); } catch (std::system_error&) { t = true; } g_refuse = false; c.mixfp(c.idx);
    VF_TRUE("refused", t, "use_hugepages without huge pages did not throw"); std::string s = "abracadabra"; VF_EQ("refused", job(0, s, 1), job(0, s, 1), "%s", "work goes on"); c.desc("%s", "refused");
});
