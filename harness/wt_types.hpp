#pragma once
#include "vf.hpp"
#include "gen_seq.hpp"
#include <sdsl/wavelet_trees.hpp>
#include <sdsl/wt_algorithm.hpp>
using namespace sdsl;
#define VF_Q (~0ULL)
// W(type, name, largest symbol, has node interface)
#if PART == 0 // byte, wt_pc
#define WT_TYPES(W) \
    W((wt_blcd<>), "blcd", 255) \
    W((wt_huff<bit_vector, rank_support_v5<>>), "huff-v5", 255) \
    W((wt_huff<bit_vector_il<>>), "huff-il", 255) \
    W((wt_hutu<>), "hutu", 255)
#elif PART == 1
#define WT_TYPES(W) \
    W((wt_huff<rrr_vector<63>>), "huff-rrr63", 255) \
    W((wt_hutu<bit_vector, rank_support_v<>, select_support_mcl<1>, select_support_mcl<0>, byte_tree<true>>), "hutu-dfs", 255) \
    W((wt_blcd<rrr_vector<15>, rrr_vector<15>::rank_1_type, rrr_vector<15>::select_1_type, rrr_vector<15>::select_0_type, byte_tree<true>>), "blcd-rrr-dfs", 255)
#elif PART == 2 // int, wt_pc
#define WT_TYPES(W) \
    W((wt_blcd<bit_vector, rank_support_v<>, select_support_mcl<1>, select_support_mcl<0>, int_tree<>>), "blcd-int", 1 << 16) \
    W((wt_huff<bit_vector, rank_support_v<>, select_support_mcl<1>, select_support_mcl<0>, int_tree<true>>), "huff-int-dfs", 1 << 16) \
    W((wt_huff<rrr_vector<63>, rrr_vector<63>::rank_1_type, rrr_vector<63>::select_1_type, rrr_vector<63>::select_0_type, int_tree<>>), "huff-int-rrr", 1 << 16) \
    W((wt_hutu<bit_vector, rank_support_v<>, select_support_mcl<1>, select_support_mcl<0>, int_tree<>>), "hutu-int", 1 << 14)
#elif PART == 3 // int
#define WT_TYPES(W) \
    W((wt_int<>), "wt_int", VF_Q) \
    W((wt_int<rrr_vector<15>>), "wt_int-rrr", VF_Q) \
    W((wm_int<>), "wm_int", VF_Q) \
    W((wm_int<bit_vector, rank_support_v5<>>), "wm_int-v5", VF_Q)
#elif PART == 4
#define WT_TYPES(W) \
    W((wm_int<rrr_vector<63>>), "wm_int-rrr", VF_Q) \
    W((wt_gmr<>), "gmr", 1 << 16) \
    W((wt_gmr<enc_vector<>, inv_multi_perm_support<4, enc_vector<>>, bit_vector_il<>>), "gmr-enc", 1 << 16) \
    W((wt_gmr_rs<>), "gmr_rs", 1 << 12)
#elif PART == 5
#define WT_TYPES(W) \
    W((wt_ap<>), "ap", 1 << 16) \
    W((wt_ap<wt_hutu<>, wt_int<>>), "ap-hutu", 1 << 16) \
    W((wt_rlmn<bit_vector, rank_support_v5<>, select_support_mcl<1>, wt_int<>>), "rlmn-int", 1 << 16) \
    W((wt_rlmn<>), "rlmn", 255) \
    W((wt_rlmn<bit_vector>), "rlmn-bv", 255)
#endif
template <class W> std::string seq_file(const Seq& s, uint8_t width, bool ram, uint64_t extra, uint64_t lim)
{
    const uint8_t aw = W::alphabet_category::WIDTH;
    int_vector<aw> iv(s.size() + extra, 0, aw ? aw : width);
    for (size_t i = 0; i < s.size(); ++i) iv[i] = s[i];
    for (size_t i = 0; i < extra; ++i) iv[s.size() + i] = lim;
    std::string f = (ram ? std::string(s.size() % 2 ? "@wtseq" : "@dir/wtseq") : vf::scratch_dir() + "/wtseq");
    store_to_file(iv, f);
    return f;
}
inline uint8_t seq_width(vf::Case& c, const Seq& s)
{
    uint64_t m = 0;
    for (auto x : s) m |= x;
    unsigned w = bits::hi(m) + 1;
    return c.rng.chance(1, 2) ? 64 : c.rng.chance(1, 2) ? w : c.rng.range(w, 64);
}
// builds through one of the public ways, from a disk or an in-memory file
template <class W> void build_wt(vf::Case& c, const Seq& s, W& wt, uint64_t lim)
{
    uint8_t w = seq_width(c, s);
    bool ram = c.rng.chance(3, 4);
    const uint8_t aw = W::alphabet_category::WIDTH;
    unsigned how = c.rng.below(3);
    c.desc(" width=%u how=%u ram=%d", w, how, ram);
    if (how == 0) { // whole file
        std::string f = seq_file<W>(s, w, ram, 0, lim);
        construct(wt, f, 0);
        sdsl::remove(f);
    } else if (how == 1) { // prefix of a buffer
        uint64_t extra = c.rng.below(4);
        std::string f = seq_file<W>(s, w, ram, extra, w == 64 ? lim : 0);
        {
            int_vector_buffer<aw> buf(f, std::ios::in, c.rng.chance(1, 2) ? 64 : 1 << 16);
            W t(buf, s.size());
            wt.swap(t);
        }
        sdsl::remove(f);
    } else {
        int_vector<aw> iv(s.size(), 0, aw ? aw : w);
        for (size_t i = 0; i < s.size(); ++i) iv[i] = s[i];
        construct_im(wt, iv, 0);
    }
}
