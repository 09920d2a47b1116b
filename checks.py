"""Which harness binaries decide which property."""
_UB = "-fno-sanitize=shift-base,null,alignment,vptr,object-size"
_SAN = ["-fsanitize=address,undefined", _UB, "-fno-sanitize-recover=all"]
VARIANTS = {
    # address + undefined-behaviour sanitizers, release configuration (what the test suite ships)
    "asan": {"cflags": ["-O1", "-DNDEBUG"] + _SAN, "ldflags": ["-fsanitize=address,undefined"]},
    # other code paths of the word primitives, selected at compile time
    "asan-sse": {"cflags": ["-O1", "-DNDEBUG", "-msse4.2", "-mpopcnt"] + _SAN, "ldflags": ["-fsanitize=address,undefined"], "cpu": ["sse4_2", "popcnt"]},
    "asan-bmi2": {"cflags": ["-O1", "-DNDEBUG", "-msse4.2", "-mpopcnt", "-mbmi2"] + _SAN, "ldflags": ["-fsanitize=address,undefined"], "cpu": ["sse4_2", "popcnt", "bmi2"]},
    "asan-tl": {"cflags": ["-O1", "-DNDEBUG", "-DPOPCOUNT_TL"] + _SAN, "ldflags": ["-fsanitize=address,undefined"]},
    "asan-noti": {"cflags": ["-O1", "-DNDEBUG", "-UMODE_TI"] + _SAN, "ldflags": ["-fsanitize=address,undefined"]},
    # uninstrumented, for the largest objects
    "opt": {"cflags": ["-O2", "-DNDEBUG"], "ldflags": []},
    # ThreadSanitizer
    "tsan": {"cflags": ["-O1", "-DNDEBUG", "-fsanitize=thread"], "ldflags": ["-fsanitize=thread"]},
    # uninstrumented code under valgrind memcheck (reads of uninitialised memory)
    "vg": {"cflags": ["-O1", "-DNDEBUG", "-DVF_VG"], "ldflags": [],
           "wrap": ["valgrind", "-q", "--tool=memcheck", "--leak-check=no", "--error-limit=no", "--num-callers=16"]},
}
CHECKS = {}
# objects of more than 2^32 bits; a case takes up to 2 GB
HUGE = {"C03": 3, "C04": 4, "C05": 5, "C06": 6, "C07": 7, "C08": 8, "C10": 10, "C11": 11, "C18": 18, "C19": 19, "C22": 22}


def check(pid, bins, rule, assumptions=()):
    if pid in HUGE:
        bins = bins + [dict(name="%s-huge" % pid, srcs=["c_huge.cpp -DWHAT=%d" % HUGE[pid]], jobs_max=6, args=["--cpu", "240" if pid in ("C11", "C18", "C19") else "120"], variant="opt" if pid in ("C03", "C10", "C11", "C18", "C19") else "asan")]
        rule += "; plus single objects that cross the 32 bit borders (more than 2^32 bits or set bits, 2^31 elements), sampled around the borders"
    for b in bins:
        b.setdefault("variant", "asan")
        b.setdefault("name", pid)
    CHECKS[pid] = {"bins": bins, "rule": rule, "assumptions": list(assumptions)}


check("C01", [dict(srcs=["c_bits.cpp"], variant=v) for v in ("asan", "asan-sse", "asan-bmi2", "asan-tl")],
      "words: boundary patterns and random words, every function compared with its bit-by-bit definition, plus read/write histories on exactly "
      "sized heap buffers; every case is non-trivial (>= 500 words or 60 operations)")
check("C02", [dict(srcs=["c_wide.cpp"], variant=v) for v in ("asan", "asan-noti")],
      "pairs of 128/256 bit numbers with boundary limbs; all operators compared with a bit-serial model")
check("C03", [dict(srcs=["c_intvec.cpp -DVW=%d" % w for w in (0, 1, 3, 8, 16, 32, 33, 64)])],
      "histories of 40 random operations on three vectors (random widths, sizes around word borders), compared bit by bit with a bit-string model "
      "after every operation; non-trivial: the history compared at least one element")
check("C04", [dict(srcs=["c_intbuf.cpp -DVW=%d" % w for w in (0, 1, 5, 8, 16, 32, 64)])],
      "histories of 60 operations (push_back, in-place and gap writes, reads, buffer size changes, reset, close/reopen, moves, swap, iterators) on two "
      "buffers over disk or in-memory files with buffers of a few bytes; compared with a vector model and with the exact bytes of the closed file")
check("C05", [dict(srcs=["c_mapper.cpp -DVW=%d" % w for w in (0, 1, 5, 8, 16, 32, 64)])],
      "histories of 40 operations on two mapped vectors (sdsl and plain files, delete-on-close, moves, reopen), compared with a bit-string model, the "
      "bytes of the closed file, the live mappings and the open descriptors")
check("C06", [dict(srcs=["c_rank.cpp -DWHAT=6"])],
      "bit vectors of ten shapes (uniform, densities 1/2..1/3000, runs, blocks, ...) with clean and dirty padding; all (small) or sampled (large) "
      "arguments 0..n of 3 supports x 6 patterns")
check("C07", [dict(srcs=["c_rank.cpp -DWHAT=7"])],
      "same bit vectors up to 2*10^6 bits, including stretches sparse enough for long superblocks and superblocks with one argument placed at a power of two; all or sampled arguments 1..#occurrences")
check("C08", [dict(srcs=["c_cbv.cpp -DPART=%d" % p for p in range(4)])],
      "same bit vectors for 24 compressed/interleaved types: access, get_int, iteration, rank_0/1, select_0/1, builder and iterator construction")
check("C09", [dict(srcs=["c_coder.cpp"])],
      "value sequences of nine shapes (ones, small, powers of two, Fibonacci neighbours, random words) encoded at every bit offset into exactly sized "
      "heap buffers; decode, prefix sums, code words and vector round trips compared with the textbook definition of the code")
check("C10", [dict(srcs=["c_compvec.cpp -DPART=%d" % p for p in range(3)])],
      "sequences of nine shapes and widths 1..64 built from int_vector, std::vector of four element types and file buffers into 21 compressed vector types "
      "and from five kinds of permutations into three inverse permutation supports; every element, samples, copies/moves/swaps/reload compared with the input")
check("C11", [dict(srcs=["c_wt.cpp -DPART=%d" % p for p in range(6)])],
      "symbol sequences (uniform, skewed, runs, repetitive, permutations, geometric, Fibonacci) over eight kinds of alphabets up to 64-bit symbols for 24 "
      "wavelet tree types built from disk/in-memory files, prefixes and vectors; access, rank, select, inverse_select, iteration compared with position lists")
check("C12", [dict(srcs=["c_wtalg.cpp -DPART=%d" % p for p in range(5)])],
      "same sequences for 17 wavelet trees with a range or node interface: interval_symbols (own and generic), lex_count, lex_smaller_count, range_search_2d, "
      "intersect, quantile_freq, symbol_gte/lte, restricted_unique_range_values and a walk of the tree, compared with brute force over the sequence")
check("C13", [dict(srcs=["c_construct.cpp"])],
      "texts (runs, periodic, block copies, all 255 bytes, monotone, Thue-Morse, Fibonacci, random; integer symbols up to 64 bits) in disk and in-memory "
      "caches; SA by 3 algorithms, BWT, ISA and LCP by 7 algorithms compared with an independent prefix-doubling / Kasai model")
check("C14", [dict(name="C14-%d" % p, srcs=["c_csa.cpp -DWHAT=14 -DPART=%d" % p]) for p in range(6)],  # one binary each: gcc+ASan misplaces key strings shared by two objects
     
      "texts of 17 shapes (as C13) for 24 compressed suffix array types (wavelet-tree, psi-based, plain; every SA/ISA sampling and alphabet strategy), built from raw "
      "or serialized, disk or in-memory files and possibly copied/moved/swapped/reloaded; SA, ISA, psi, LF, BWT, F, text, alphabet tables, BWT rank/select vs model")
check("C15", [dict(name="C15-%d" % p, srcs=["c_csa.cpp -DWHAT=15 -DPART=%d" % p]) for p in range(6)],  # one binary each: gcc+ASan misplaces key strings shared by two objects
     
      "same indexes; 14 patterns per text (substrings, edited, absent symbols, empty, whole text, longer than the text) in three pattern types; count, lex_interval, "
      "locate, backward/forward search incl. partial intervals, extract, bidirectional search compared with binary search over the model suffix array")

check("C16", [dict(name="C16-%d" % p, srcs=["c_lcp.cpp -DPART=%d" % p]) for p in range(4)],
      "texts of 17 shapes plus long near-repeats (LCP values around 254/255) and stored LCP arrays with values up to 2^33, built into 12 standalone and 12 suffix-tree "
      "LCP representations, possibly copied/moved/swapped/reloaded; every value and iterator compared with Kasai's algorithm on an independent suffix array")
check("C17", [dict(name="C17-%d" % p, srcs=["c_cst.cpp -DPART=%d" % p]) for p in range(5)],
      "texts of 17 shapes for 15 suffix tree types; whole-tree traversals (depth first, breadth first, bottom-up, pruned, subtrees), ids, walks of 400 navigation steps "
      "through handles obtained in different ways, tree algorithms; compared with the tree of lcp-intervals of the model")
check("C18", [dict(name="C18", srcs=["c_bp.cpp"])],
      "balanced sequences of ten shapes (random, deep, flat, caterpillars, forests, complete, block aligned, ...) of up to 120000 parentheses for 16 support types "
      "(three classes, block sizes 3..840), possibly copied/moved/swapped/reloaded/re-attached; every or sampled positions, ranges and pairs of nodes vs a stack model")
check("C19", [dict(name="C19", srcs=["c_rmq.cpp"])],
      "sequences of eleven shapes (random, few values, monotone, mountains, steps, saw teeth, ...) of eight element types; sparse tables, Super-Cartesian-tree and Sadakane "
      "supports for minima and maxima over five parentheses supports, possibly copied/moved/swapped/reloaded; all (small) or 150 sampled ranges vs a scan for the leftmost optimum")
check("C20", [dict(name="C20", srcs=["c_treap.cpp", "k2_second_tu.cpp"])],
      "sets of up to 700 (4000) distinct points of six shapes (random, diagonal, cluster, column, one per row, corners) with coordinates up to 2^62 for six k2_treap types, "
      "built from disk/in-memory files, vectors and construct_im, possibly copied/moved/swapped/reloaded; navigation, top_k, range_3d and count vs the point list")
check("C21", [dict(name="C21", srcs=["c_k2tree.cpp"])],
      "directed graphs (dense matrices, sparse, clusters, rows, corners; up to 2^50 nodes) for six k2_tree types from matrices, edge vectors and files, and ordered trees "
      "of five shapes and suffix trees for four louds_tree types; adjacency, neighbours, ranges and all tree links vs the explicit edge set / tree")
check("C22", [dict(name="C22", srcs=["c_dict.cpp"])],
      "bit vectors of six shapes for six sample densities of the nearest neighbour dictionary (every rank, select, next, prev); histories of 1000 (3000) updates, queries, copies "
      "and reloads on a dynamic dictionary of up to 300000 bits and histories of 1500 (4000) pushes, pops, copies and reloads on three succinct stacks vs ordered set / vector models")
_REG = ["c_reg.cpp -DPART=%d" % p for p in (4, 5, 9, 3, 8, 2, 7, 0, 1, 6)]
check("C23", [dict(name="reg-%d" % i, srcs=[s], args=["--suite", "C23:*"]) for i, s in enumerate(_REG)],
      "pairs of random objects of some 80 types and of a user defined structure composed of them; written to and loaded from streams (fresh, used and default targets, streams of several objects, streams delivering a few bytes), "
      "disk and in-memory files, checked files; bytes reported, bytes consumed, repeated serialization and the complete answers of the loaded object compared")
check("C24", [dict(name="reg-%d" % i, srcs=[s], args=["--suite", "C24:*"]) for i, s in enumerate(_REG)],
      "histories of 24 (60) value operations (copy/move construction and assignment, swap, self assignment, reload, destruction) on pools of four objects of some 80 types; "
      "complete answers of every touched object compared with those of the originals")
check("C28", [dict(srcs=["c_mem.cpp"], ld=["-Wl,--wrap=mmap"])],
      "histories of vector allocations, resizes, copies, moves inside nested monitor events, the JSON log and peak compared with the bytes really held; alloc/realloc/free histories of the huge page "
      "heap compared with a shadow heap (alignment, bounds, overlap, contents, recombination); structures built on huge pages compared with the ordinary heap")
check("C29", [dict(name="reg-%d" % i, srcs=[s], args=["--suite", "C29:*"]) for i, s in enumerate(_REG)],
      "random and default objects of some 80 types; size_in_bytes, the return value of serialize, structure tree totals and JSON compared with the bytes really written")
check("C25", [dict(name="reg-%d" % i, srcs=[x], args=["--suite", "C25:*"]) for i, x in enumerate(_REG)] +
      [dict(name="reg-%d" % i, srcs=[x], args=["--suite", "C25:*"], variant="vg") for i, x in enumerate(_REG)],
      "life cycles (construction, copies, moves, swaps, default objects, reload, containers, every query) of some 80 types, run under memcheck (no decision and no serialized byte "
      "may depend on uninitialised memory) and repeated under the address sanitizer with the bytes in use compared between repetitions (no leak)")
check("C26", [dict(srcs=["c_fs.cpp"])],
      "histories of creating, opening in every mode, writing, seeking (absolute, relative, from the end, beyond and before), reading, renaming, removing and sizing several files, run on "
      "in-memory and on disk files and compared step by step with a byte-vector model; the raw stream buffer; file name helpers")
check("C30", [dict(srcs=["c_fault.cpp -DSDSL_DEBUG"], ld=["-Wl,--wrap=realloc,--wrap=calloc"])],
      "storing objects of nine types under injected file errors (missing directories, full device, a file size limit at every byte), loading of missing and foreign files, the k-th allocation "
      "failing in int_vector histories and in the construction of structures, inputs documented as refused, file mappings under file size limits; the reported outcome compared with the real one")
check("C27", [dict(name="reg-%d" % i, srcs=[x], args=["--suite", "C27:*"], variant="tsan") for i, x in enumerate(_REG)] +
      [dict(name="C27", srcs=["c_conc.cpp"], variant="tsan")],
      "four threads query, copy and serialize one shared constant object of each of some 80 types under the thread sanitizer; answers compared with those of a single thread")
check("C31", [dict(name="files-%d" % i, srcs=["c_files.cpp -DPART=%d" % i], ld=["-Wl,--wrap=_ZN4sdsl6ram_fs5storeERKNSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEEESt6vectorIcS5_E"]) for i in (1, 2, 3)],
      "some 45 structure types built from files on disk and in memory in every input format, with default, named, existing and partly filled cache directories, over the cached files of an "
      "earlier run and of other structures, with and without deletion; bytes compared with the structure built from memory; all watched directories and all in-memory files ever created "
      "compared before and after with the registered file map; refused inputs; all LCP algorithms")
check("C32", [dict(srcs=["c_output.cpp -DWHAT=32"])],
      "vectors, bit vectors, wavelet trees, suffix arrays and their members, LCP arrays and std::vectors of random contents printed with <<, suffix arrays and trees printed with csXprintf under random "
      "format strings, plain integer arrays and decimal files written and read; every byte compared with text produced from the model")
check("C33", [dict(srcs=["c_output.cpp -DWHAT=33"])],
      "histories of storing, loading, asking, registering, removing and deleting resources of four types under five keys (with and without type) through up to four cache configurations on disk and in memory, "
      "sharing directories and identifiers; compared with a map from file name to contents; temporary names")
