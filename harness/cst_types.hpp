// suffix tree types: A(type, name, largest symbol)
#pragma once
#include "gen_text.hpp"
#include <sdsl/suffix_trees.hpp>
#include <sdsl/suffix_array_algorithm.hpp>
#include <sdsl/suffix_tree_algorithm.hpp>
#include <sdsl/suffix_tree_helper.hpp>
using namespace sdsl;
#define WTI_W ((1ULL << 20) - 1)
typedef csa_wt<wt_huff<>, 4, 6, text_order_sa_sampling<>> cwt_dense;
typedef csa_wt<wt_huff<>, 32, 64> cwt_std;
typedef csa_sada<enc_vector<>, 8, 8> csada8;
typedef csa_wt<wt_int<>, 32, 32, text_order_sa_sampling<>, isa_sampling<>, int_alphabet<>> cint1;
typedef csa_sada<enc_vector<>, 4, 4, sa_order_sa_sampling<>, isa_sampling<>, int_alphabet<>> cint2;
typedef csa_bitcompressed<int_alphabet<>> cint3;
#if WHAT == 16
#if PART == 1
#define CST_TYPES(A) \
    A((cst_sct3<cwt_dense, lcp_support_sada<>>), "sct3-psada", 255) \
    A((cst_sct3<cwt_std, lcp_support_tree<>>), "sct3-tree", 255) \
    A((cst_sct3<cwt_dense, lcp_support_tree2<16>>), "sct3-tree2", 255) \
    A((cst_sada<csada8, lcp_support_tree2<3>>), "sada-tree2-3", 255)
#elif PART == 2
#define CST_TYPES(A) \
    A((cst_sada<csada8, lcp_support_tree<lcp_byte<>>>), "sada-tree-byte", 255) \
    A((cst_sct3<cwt_dense, lcp_support_tree<lcp_bitcompressed<>>>), "sct3-tree-bitc", 255) \
    A((cst_sada<cwt_dense, lcp_support_sada<rrr_vector<63>>>), "sada-psada-rrr", 255) \
    A((cst_fully<cwt_dense, 8>), "fully-8", 255)
#elif PART == 3
#define CST_TYPES(A) \
    A((cst_sada<cint1, lcp_support_tree2<5>>), "int-sada-tree2-5", WTI_W) \
    A((cst_sct3<cint2, lcp_support_sada<>>), "int-sct3-psada", WTI_W) \
    A((cst_sct3<cint3, lcp_support_tree<lcp_vlc<>>>), "int-sct3-tree-vlc", WTI_W) \
    A((cst_sct3<cint2, lcp_support_tree2<1>>), "int-sct3-tree2-1", WTI_W)
#endif
#else
#if PART == 0
#define CST_TYPES(A) \
    A((cst_sct3<>), "sct3", 255) \
    A((cst_sct3<csada8, lcp_bitcompressed<>, bp_support_gg<>>), "sct3-gg", 255) \
    A((cst_sct3<cwt_dense, lcp_support_tree2<>, bp_support_sada<16, 4, rank_support_v5<>, select_support_mcl<>>>), "sct3-tree2-sada16", 255)
#elif PART == 1
#define CST_TYPES(A) \
    A((cst_sada<>), "sada", 255) \
    A((cst_sada<cwt_dense, lcp_vlc<>, bp_support_gg<>>), "sada-vlc-gg", 255) \
    A((cst_sada<csa_bitcompressed<>, lcp_support_tree2<>>), "sada-tree2", 255)
#elif PART == 2
#define CST_TYPES(A) \
    A((cst_fully<>), "fully", 255) \
    A((cst_fully<csada8, 4>), "fully-4", 255) \
    A((cst_fully<cwt_dense, 7, bp_support_gg<>, bit_vector, dac_vector<>, true>), "fully-7-leaves", 255)
#elif PART == 3
#define CST_TYPES(A) \
    A((cst_sct3<csada8, lcp_support_sada<>, bp_support_g<>>), "sct3-g", 255) \
    A((cst_sct3<cint1, lcp_bitcompressed<>>), "int-sct3", WTI_W) \
    A((cst_sct3<cint3, lcp_wt<>, bp_support_gg<>>), "int-sct3-gg", WTI_W)
#elif PART == 4
#define CST_TYPES(A) \
    A((cst_sada<cint2, lcp_dac<>>), "int-sada", WTI_W) \
    A((cst_sada<cint1, lcp_support_tree<>, bp_support_gg<>>), "int-sada-tree-gg", WTI_W) \
    A((cst_fully<cint1>), "int-fully", WTI_W)
#endif
#endif
template <class T> inline void build_file(vf::Case& c, T& t, const Seq& s, bool ram, unsigned W)
{
    std::string dir = ram ? c.rng.chance(1, 2) ? "@" : "@mem/cache" : vf::scratch_dir();
    std::string file = ram ? std::string(c.rng.chance(1, 2) ? "@txt" : "@src/txt") : vf::scratch_dir() + "/txt", id = "cst" + std::to_string(c.idx);
    uint8_t nb = 0;
    uint64_t mx = 0;
    for (auto x : s) mx = std::max(mx, x);
    if (W == 8) {
        int_vector<8> iv(s.size());
        for (size_t i = 0; i < s.size(); ++i) iv[i] = s[i];
        nb = 1; // the generic constructor picks the byte construction by num_bytes for LCP arrays
        store_to_plain_array<uint8_t>(iv, file);
    } else {
        int_vector<> iv(s.size(), 0, c.rng.chance(1, 3) ? 64 : bits::hi(mx) + 1);
        for (size_t i = 0; i < s.size(); ++i) iv[i] = s[i];
        if (c.rng.chance(1, 2)) { nb = 8; store_to_plain_array<uint64_t>(iv, file); } else store_to_file(iv, file);
    }
    cache_config cfg(true, dir, id);
    construct(t, file, cfg, nb);
    sdsl::remove(file);
}
