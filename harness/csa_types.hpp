// compressed suffix array types: A(type, name, alphabet width 8/0, largest symbol)
#pragma once
#include "gen_text.hpp"
#include <sdsl/suffix_arrays.hpp>
#include <sdsl/suffix_array_algorithm.hpp>
using namespace sdsl;
typedef succinct_byte_alphabet<bit_vector, rank_support_v<>, select_support_mcl<>> sba_v;
typedef int_alphabet<bit_vector, rank_support_v<>, select_support_mcl<>> ia_bv;
#define WTI_W ((1ULL << 20) - 1)
#if PART == 0
#define CSA_TYPES(A) \
    A((csa_wt<>), "wt-huff", 8, 255) \
    A((csa_wt<wt_huff<>, 8, 16, text_order_sa_sampling<>>), "wt-huff-text", 8, 255) \
    A((csa_wt<wt_blcd<>, 3, 5, sa_bwt_sampling<>>), "wt-blcd-bwt", 8, 255) \
    A((csa_wt<wt_hutu<>, 4, 4, text_order_sa_sampling<>, text_order_isa_sampling_support<>>), "wt-hutu-textisa", 8, 255)
#elif PART == 1
#define CSA_TYPES(A) \
    A((csa_wt<wt_huff<>, 32, 32, fuzzy_sa_sampling<>>), "wt-huff-fuzzy", 8, 255) \
    A((csa_wt<wt_huff<>, 5, 5, fuzzy_sa_sampling<>, fuzzy_isa_sampling_support<>>), "wt-huff-fuzzyisa", 8, 255) \
    A((csa_wt<wt_rlmn<>, 7, 9, sa_order_sa_sampling<>, isa_sampling<>, succinct_byte_alphabet<>>), "wt-rlmn-sba", 8, 255) \
    A((csa_wt<wt_blcd<rrr_vector<63>>, 1, 1>), "wt-blcd-rrr", 8, 255)
#elif PART == 2
#define CSA_TYPES(A) \
    A((csa_sada<>), "sada", 8, 255) \
    A((csa_sada<enc_vector<coder::fibonacci, 128>, 6, 10, text_order_sa_sampling<>>), "sada-fib-text", 8, 255) \
    A((csa_sada<enc_vector<coder::elias_gamma, 3>, 4, 4, text_order_sa_sampling<>, text_order_isa_sampling_support<>>), "sada-gamma-textisa", 8, 255) \
    A((csa_sada<enc_vector<coder::elias_delta, 16>, 8, 8, fuzzy_sa_sampling<>, fuzzy_isa_sampling_support<>>), "sada-fuzzyisa", 8, 255)
#elif PART == 3
#define CSA_TYPES(A) \
    A((csa_bitcompressed<>), "bitcompressed", 8, 255) \
    A((csa_bitcompressed<succinct_byte_alphabet<>>), "bitcompressed-sba", 8, 255) \
    A((csa_sada<enc_vector<>, 5, 7, sa_bwt_sampling<>, isa_sampling<>, sba_v>), "sada-bwt-sbav", 8, 255) \
    A((csa_wt<wt_huff<bit_vector_il<>>, 2, 3, sa_order_sa_sampling<>, isa_sampling<>, sba_v>), "wt-huff-il-sbav", 8, 255)
#elif PART == 4
#define CSA_TYPES(A) \
    A((csa_wt<wt_int<>>), "wt-int", 0, WTI_W) \
    A((csa_wt<wt_int<rrr_vector<63>>, 4, 4, text_order_sa_sampling<>, text_order_isa_sampling_support<>>), "wt-int-rrr-textisa", 0, WTI_W) \
    A((csa_wt<wm_int<>, 3, 6, sa_bwt_sampling<>>), "wm-int-bwt", 0, WTI_W) \
    A((csa_wt<wt_ap<>, 6, 6, fuzzy_sa_sampling<>, fuzzy_isa_sampling_support<>>), "wt-ap-fuzzy", 0, WTI_W)
#elif PART == 5
#define CSA_TYPES(A) \
    A((csa_sada<enc_vector<>, 32, 32, sa_order_sa_sampling<>, isa_sampling<>, int_alphabet<>>), "sada-int", 0, WTI_W) \
    A((csa_sada<enc_vector<coder::fibonacci, 8>, 4, 4, fuzzy_sa_sampling<>, fuzzy_isa_sampling_support<>, ia_bv>), "sada-int-fuzzy", 0, WTI_W) \
    A((csa_bitcompressed<int_alphabet<>>), "bitcompressed-int", 0, WTI_W) \
    A((csa_wt<wt_int<>, 2, 5, sa_order_sa_sampling<>, isa_sampling<>, ia_bv>), "wt-int-iabv", 0, WTI_W)
#endif
// store the text and build T; returns false on a failed store
template <class T> inline void build_csa(vf::Case& c, T& t, const Seq& s, bool ram, const std::vector<uint64_t>& sample_chars = {})
{
    const uint8_t W = T::alphabet_category::WIDTH;
    std::string dir = ram ? c.rng.chance(1, 2) ? "@" : "@mem/cache" : vf::scratch_dir();
    std::string file = ram ? std::string(c.rng.chance(1, 2) ? "@txt" : "@src/txt") : vf::scratch_dir() + "/txt", id = "csa" + std::to_string(c.idx);
    uint8_t nb = 0;
    int_vector<W> iv(s.size());
    if (W == 0) { uint64_t mx = 0; for (auto x : s) mx = std::max(mx, x); iv.width(c.rng.chance(1, 3) ? 64 : bits::hi(mx) + 1); iv.resize(s.size()); }
    for (size_t i = 0; i < s.size(); ++i) iv[i] = s[i];
    if (c.rng.chance(1, 2)) { // raw bytes
        nb = W == 8 ? 1 : 8;
        if (W == 8) { store_to_plain_array<uint8_t>(iv, file); } else { store_to_plain_array<uint64_t>(iv, file); }
    } else store_to_file(iv, file);
    cache_config cfg(true, dir, id);
    if (!sample_chars.empty()) {
        int_vector<> sc(sample_chars.size(), 0, 64);
        for (size_t i = 0; i < sample_chars.size(); ++i) sc[i] = sample_chars[i];
        store_to_cache(sc, conf::KEY_SAMPLE_CHAR, cfg);
    }
    construct(t, file, cfg, nb);
    sdsl::remove(file);
}
