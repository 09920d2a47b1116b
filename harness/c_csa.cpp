// C14 (WHAT==14): members of compressed suffix arrays; C15 (WHAT==15): searching and extracting
#include "csa_types.hpp"
#include "derive.hpp"
#include <memory>
typedef uint64_t u64;

template <class V> static void cmp(const char* key, const V& got, const std::vector<u64>& want, vf::Case& c)
{
    VF_EQ(key, (u64)got.size(), (u64)want.size(), "size");
    VF_EQ(key, (bool)got.empty(), want.empty(), "empty()");
    u64 n = want.size(), k = n <= 260 ? n : 260;
    for (u64 j = 0; j < k; ++j) {
        u64 i = n <= 260 ? j : c.rng.below(n);
        VF_EQ(key, (u64)got[i], want[i], "[%zu] of %zu", (size_t)i, (size_t)n);
    }
    u64 a = n ? c.rng.below(n) : 0, i = a;
    for (auto it = got.begin() + a; it != got.end() && i < a + 40; ++it, ++i) VF_EQ(key, (u64)*it, want[i], "iterator at %zu", (size_t)i);
    VF_EQ(key, (u64)(got.end() - got.begin()), n, "end-begin");
    vf::iter_algebra(c, got, n, [&](u64 x) { return want[x]; }, key);
}
template <class T> static std::unique_ptr<T> make(vf::Case& c, const char* name, u64 lim, Seq& s)
{
    auto& r = c.rng;
    u64 l = lim;
    if (lim > 255) l = r.chance(1, 3) ? 12 : r.chance(1, 2) ? 300 : r.chance(1, 8) ? lim : 5000;
    u64 maxn = r.chance(1, 10) ? (c.thorough ? 40000 : 9000) : r.chance(1, 2) ? 1500 : r.chance(1, 3) ? 5 : 120;
    s = gen_text(c, maxn, l, !r.chance(1, 20));
    bool ram = r.chance(1, 2);
    std::unique_ptr<T> a(new T());
    std::vector<u64> sc;
    if (strstr(name, "-bwt") && !s.empty() && r.chance(1, 2)) for (unsigned k = 1 + r.below(3); k--;) sc.push_back(r.chance(1, 5) ? 0 : s[r.below(s.size())]);
    build_csa(c, *a, s, ram, sc);
    const char* how;
    a = derive(c, std::move(a), &how);
    c.desc("%s n=%zu %s %s sc=%zu %s", name, s.size(), ram ? "ram" : "disk", how, sc.size(), s.size() < 60 ? vf::show(s).c_str() : "");
    c.trivial_if(s.size() < 2);
    return a;
}

#if WHAT == 14
template <class T> static void members(vf::Case& c, const char* name, u64 lim)
{
    auto& r = c.rng;
    Seq s;
    std::unique_ptr<T> p = make<T>(c, name, lim, s);
    const T& a = *p;
    TextModel m(s, false);
    typedef typename T::char_type ch;
    u64 n = m.n;
    VF_EQ("size", (u64)a.size(), n, " ");
    cmp("sa", a, m.sa, c);
    cmp("isa", a.isa, m.isa, c);
    std::vector<u64> psi(n), lf(n), F(n);
    for (u64 i = 0; i < n; ++i) { psi[i] = m.isa[(m.sa[i] + 1) % n]; lf[i] = m.isa[(m.sa[i] + n - 1) % n]; F[i] = m.t[m.sa[i]]; }
    cmp("psi", a.psi, psi, c);
    cmp("lf", a.lf, lf, c);
    cmp("bwt", a.bwt, m.bwt, c);
    cmp("L", a.L, m.bwt, c);
    cmp("F", a.F, F, c);
    cmp("text", a.text, m.t, c);
    // alphabet
    SeqModel b(m.bwt);
    VF_EQ("sigma", (u64)a.sigma, (u64)b.syms.size(), " ");
    u64 sum = 0;
    for (u64 k = 0; k < b.syms.size(); ++k) {
        if (k > 300 && !r.chance(1, 20)) { sum += b.occ[b.syms[k]].size(); continue; }
        VF_EQ("comp2char", (u64)a.comp2char[k], b.syms[k], "of %zu", (size_t)k);
        VF_EQ("char2comp", (u64)a.char2comp[(ch)b.syms[k]], k, "of %zu", (size_t)b.syms[k]);
        VF_EQ("C", (u64)a.C[k], sum, "of %zu", (size_t)k);
        sum += b.occ[b.syms[k]].size();
    }
    VF_EQ("C", (u64)a.C[b.syms.size()], n, "of sigma");
    // symbol queries on the BWT
    for (unsigned k = 0; k < 120; ++k) {
        u64 x = b.ask(c, lim > 255 ? ~0ULL : 255);
        u64 i = r.chance(1, 6) ? n : r.below(n + 1);
        u64 cc = b.occ.count(x) ? std::lower_bound(b.syms.begin(), b.syms.end(), x) - b.syms.begin() : 0;
        if (x != 0 || b.occ.count(x)) VF_EQ("char2comp", (u64)a.char2comp[(ch)x], cc, "of %zu", (size_t)x);
        VF_EQ("bwt-rank", (u64)a.bwt.rank(i, (ch)x), b.rank(i, x), "(%zu,%zu)", (size_t)i, (size_t)x);
        u64 tot = b.rank(n, x);
        u64 j = 1 + r.below(tot + 2);
        VF_EQ("bwt-select", (u64)a.bwt.select(j, (ch)x), j <= tot ? b.occ[x][j - 1] : n, "(%zu,%zu) of %zu", (size_t)j, (size_t)x, (size_t)tot);
    }
}
#define VF_FN members
#else
// ----- search
static int cmp_suffix(const TextModel& m, u64 i, const Seq& p) // suffix of rank i against p, first p.size() symbols
{
    u64 a = m.sa[i];
    for (u64 k = 0; k < p.size(); ++k) {
        if (a + k >= m.n) return -1;
        if (m.t[a + k] != p[k]) return m.t[a + k] < p[k] ? -1 : 1;
    }
    return 0;
}
static std::pair<u64, u64> interval(const TextModel& m, const Seq& p) // [first, second)
{
    u64 lo = 0, hi = m.n;
    while (lo < hi) { u64 k = (lo + hi) / 2; if (cmp_suffix(m, k, p) < 0) lo = k + 1; else hi = k; }
    u64 f = lo;
    hi = m.n;
    while (lo < hi) { u64 k = (lo + hi) / 2; if (cmp_suffix(m, k, p) <= 0) lo = k + 1; else hi = k; }
    return {f, lo};
}
static Seq pattern(vf::Case& c, const Seq& s, u64 lim)
{
    auto& r = c.rng;
    Seq p;
    switch (r.below(8)) {
        case 0: break;
        case 1: p = s; if (r.chance(1, 2)) p.push_back(s.empty() ? 1 : s[0]); break;
        case 2: for (unsigned k = 1 + r.below(4); k--;) p.push_back(1 + r.below(lim)); break;
        case 3: for (unsigned k = r.below(6); k--;) p.push_back(s.empty() ? 1 : s[r.below(s.size())]); break;
        default:
            if (!s.empty()) { u64 a = r.below(s.size()), l = 1 + r.below(std::min<u64>(s.size() - a, r.chance(1, 3) ? ~0ULL : 6)); p.assign(s.begin() + a, s.begin() + a + l); }
            if (!p.empty() && r.chance(1, 4)) p[r.below(p.size())] = r.chance(1, 2) ? 1 + r.below(lim) : s[r.below(s.size())];
    }
    return p;
}
template <class T, class P> static void one(vf::Case& c, const T& a, const TextModel& m, const Seq& pat, const P& p, const char* how)
{
    auto& r = c.rng;
    auto iv = interval(m, pat);
    u64 occ = iv.second - iv.first, n = m.n;
    std::string ps = pat.size() < 20 ? vf::show(pat) : "len " + std::to_string(pat.size());
    VF_EQ("count", (u64)count(a, p.begin(), p.end()), occ, "%s %s", how, ps.c_str());
    typedef typename T::size_type st;
    { st l = 77, h = 78;
      VF_EQ("backward", (u64)backward_search(a, 0, a.size() - 1, p.begin(), p.end(), l, h), occ, "%s %s", how, ps.c_str());
      if (occ) { VF_EQ("backward", (u64)l, iv.first, "l of %s", ps.c_str()); VF_EQ("backward", (u64)h, iv.second - 1, "r of %s", ps.c_str()); }
      auto li = lex_interval(a, p.begin(), p.end());
      VF_EQ("lex_interval", (u64)(li[1] + 1 - li[0]), occ, "%s", ps.c_str());
      if (occ) { VF_EQ("lex_interval", (u64)li[0], iv.first, "%s", ps.c_str()); }
      // split: extend the interval of a suffix of the pattern to the left
      if (!pat.empty()) {
          u64 k = r.below(pat.size() + 1);
          auto sub = interval(m, Seq(pat.begin() + k, pat.end()));
          if (sub.second > sub.first) {
              VF_EQ("backward-from", (u64)backward_search(a, sub.first, sub.second - 1, p.begin(), p.begin() + k, l, h), occ, "%s split %zu", ps.c_str(), (size_t)k);
              if (occ) VF_EQ("backward-from", (u64)l, iv.first, "%s", ps.c_str());
              if (k) {
                  auto s2 = interval(m, Seq(pat.begin() + k - 1, pat.end()));
                  VF_EQ("backward-char", (u64)backward_search(a, sub.first, sub.second - 1, (typename T::char_type)pat[k - 1], l, h), s2.second - s2.first, "%s at %zu", ps.c_str(), (size_t)k);
                  if (s2.second > s2.first) { VF_EQ("backward-char", (u64)l, s2.first, " "); VF_EQ("backward-char", (u64)h, s2.second - 1, " "); }
              }
          }
      }
    }
    // forward search inside an interval
    { u64 lo = r.chance(1, 2) ? 0 : r.below(n), hi = r.chance(1, 2) ? n - 1 : lo + r.below(n - lo);
      if (lo <= hi) {
        st l = 77, h = 78;
        u64 f = std::max(lo, iv.first), e = std::min(hi + 1, iv.second), want = e > f ? e - f : 0;
        VF_EQ("forward", (u64)forward_search(a, lo, hi, p.begin(), p.end(), l, h), want, "%s %s in [%zu,%zu]", how, ps.c_str(), (size_t)lo, (size_t)hi);
        if (want) { VF_EQ("forward", (u64)l, f, "l of %s", ps.c_str()); VF_EQ("forward", (u64)h, e - 1, "r of %s", ps.c_str()); }
        if (pat.size() == 1) VF_EQ("forward-char", (u64)forward_search(a, lo, hi, (typename T::char_type)pat[0], l, h), want, "%s", ps.c_str());
      } }
    // occurrences
    if (occ <= 3000) {
        auto loc = locate(a, p.begin(), p.end());
        std::vector<u64> got(loc.begin(), loc.end()), want(m.sa.begin() + iv.first, m.sa.begin() + iv.second);
        std::sort(got.begin(), got.end()); std::sort(want.begin(), want.end());
        VF_EQ("locate", got, want, "%s %s", how, ps.c_str());
    }
}
template <class T> static typename T::string_type as_string(const Seq& p) { typename T::string_type q; for (auto x : p) q.push_back(x); return q; }
template <class T> static void search(vf::Case& c, const char* name, u64 lim)
{
    auto& r = c.rng;
    Seq s;
    std::unique_ptr<T> pa = make<T>(c, name, lim, s);
    const T& a = *pa;
    TextModel m(s, false);
    u64 mx = 1; for (auto x : s) mx = std::max(mx, x);
    for (unsigned k = 0; k < 14; ++k) {
        Seq p = pattern(c, s, std::min<u64>(lim, mx + 2));
        auto q = as_string<T>(p);
        switch (r.below(3)) {
            case 0: one(c, a, m, p, q, "string"); break;
            case 1: one(c, a, m, p, p, "u64"); break;
            default:
                if (T::alphabet_category::WIDTH == 8) one(c, a, m, p, std::vector<unsigned char>(p.begin(), p.end()), "uchar");
                else { int_vector<> w(p.size(), 0, 64); for (size_t i = 0; i < p.size(); ++i) w[i] = p[i]; one(c, a, m, p, w, "int_vector"); }
        }
        auto iv = interval(m, p);
        VF_EQ("count-string", (u64)count(a, q), iv.second - iv.first, "%s", vf::show(p).c_str());
        if (iv.second - iv.first < 2000) {
            auto loc = locate(a, q);
            std::vector<u64> got(loc.begin(), loc.end()), want(m.sa.begin() + iv.first, m.sa.begin() + iv.second);
            std::sort(got.begin(), got.end()); std::sort(want.begin(), want.end());
            VF_EQ("locate-string", got, want, "%s", vf::show(p).c_str());
        }
        // extract
        u64 b = r.below(m.n), e = std::min(m.n - 1, b + (r.chance(1, 4) ? m.n : r.below(30)));
        if (e - b < 3000) {
            auto x = extract(a, b, e);
            std::vector<u64> got, want(m.t.begin() + b, m.t.begin() + e + 1);
            for (auto y : x) got.push_back((typename T::char_type)y);
            VF_EQ("extract", got, want, "[%zu,%zu]", (size_t)b, (size_t)e);
            std::vector<typename T::char_type> buf(e - b + 1);
            VF_EQ("extract-it", (u64)extract(a, b, e, buf.begin()), e - b + 1, " ");
            VF_EQ("extract-it", std::vector<u64>(buf.begin(), buf.end()), want, "[%zu,%zu]", (size_t)b, (size_t)e);
        }
    }
}
#define VF_FN search
// ----- bidirectional search: extend a random pattern in both directions
template <class T> static void bidi(vf::Case& c, u64 lim)
{
    auto& r = c.rng;
    Seq s = gen_text(c, r.chance(1, 3) ? 3000 : 200, lim, true), rs(s.rbegin(), s.rend());
    T f, b;
    build_csa(c, f, s, true); build_csa(c, b, rs, true);
    TextModel mf(s, false), mb(rs, false);
    c.desc("n=%zu %s", s.size(), s.size() < 60 ? vf::show(s).c_str() : "");
    c.trivial_if(s.size() < 3);
    u64 mx = 1; for (auto x : s) mx = std::max(mx, x);
    for (unsigned rep = 0; rep < 25; ++rep) {
        typedef typename T::size_type st;
        st lf = 0, rf = mf.n - 1, lb = 0, rb = mb.n - 1;
        u64 at = r.below(s.size()), en = at; // pattern = s[at..en) unless spoilt
        Seq p;
        bool alive = true;
        for (unsigned k = 0; k < 12 && alive; ++k) {
            Seq ext;
            bool fwd = r.chance(1, 2);
            u64 len = 1 + r.below(4);
            bool spoil = r.chance(1, 10);
            if (fwd) { for (u64 i = 0; i < len && en < s.size(); ++i) ext.push_back(s[en++]); }
            else { for (u64 i = 0; i < len && at > 0; ++i) ext.insert(ext.begin(), s[--at]); }
            if (ext.empty()) continue;
            if (spoil) ext[r.below(ext.size())] = std::min(lim, 1 + r.below(mx + 2));
            auto q = as_string<T>(ext);
            u64 got;
            if (fwd) { p.insert(p.end(), ext.begin(), ext.end()); got = bidirectional_search_forward(f, b, lf, rf, lb, rb, q.begin(), q.end(), lf, rf, lb, rb); }
            else { p.insert(p.begin(), ext.begin(), ext.end()); got = bidirectional_search_backward(f, b, lf, rf, lb, rb, q.begin(), q.end(), lf, rf, lb, rb); }
            auto wf = interval(mf, p), wb = interval(mb, Seq(p.rbegin(), p.rend()));
            VF_EQ("occ", got, wf.second - wf.first, "%s of %s", fwd ? "fwd" : "bwd", vf::show(p).c_str());
            if (!got) { alive = false; break; }
            VF_EQ("lf", (u64)lf, wf.first, "%s", vf::show(p).c_str()); VF_EQ("rf", (u64)rf, wf.second - 1, "%s", vf::show(p).c_str());
            VF_EQ("lb", (u64)lb, wb.first, "%s", vf::show(p).c_str()); VF_EQ("rb", (u64)rb, wb.second - 1, "%s", vf::show(p).c_str());
            if (spoil) break;
        }
    }
}
#if PART == 0
VF_SUITE("bidi-blcd", 60, 2000) { bidi<csa_wt<wt_blcd<>>>(c, 255); }
VF_SUITE("bidi-hutu", 60, 2000) { bidi<csa_wt<wt_hutu<>, 32, 64, sa_order_sa_sampling<>, isa_sampling<>, succinct_byte_alphabet<>>>(c, 255); }
VF_SUITE("bidi-hutu-rrr", 40, 1500) { bidi<csa_wt<wt_hutu<rrr_vector<63>>, 8, 8, text_order_sa_sampling<>>>(c, 255); }
#elif PART == 4
VF_SUITE("bidi-int", 60, 2000) { bidi<csa_wt<wt_int<>>>(c, c.rng.chance(1, 2) ? 5000 : 600); }
#endif
#endif
template <class> struct vf_t; template <class T> struct vf_t<void(T)> { static T* p; };
#define A_(T, N, W, L) static vf::Reg VF_CAT(r_, __COUNTER__)(N, 70, 2500, [](vf::Case& c) { VF_FN<typename std::decay<decltype(*(vf_t<void T>::p))>::type>(c, N, L); });
CSA_TYPES(A_)
