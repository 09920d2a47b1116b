"""Property texts; tools/gen.py writes properties.jsonl and MANIFEST.json from them."""
I, H, C, S, F = "inputs", "histories", "configurations", "schedules", "fault_sequences"
D = "include/sdsl/"
PROPS = []
def P(id, title, statement, q, why, files, mech, **kw):
    assert len(title) <= 80, title
    PROPS.append(dict(id=id, title=title, statement=statement, q=q, why=why, files=files, mech=mech, **kw))

P("C01", "Word-level bit primitives equal their definitions",
  "Every 64-bit word primitive (population count, select, highest/lowest set bit, transition counts and masks, bit reversal, unary and integer reads and writes at a bit "
  "position) returns what a bit-by-bit definition of it returns, for every word and offset it accepts. Reads and writes touch no bit outside the addressed field and no "
  "memory outside the words holding that field. The result does not depend on which compile-time variant of the primitive is built in.",
  ([I, C], "every 64-bit word, offset, field length; builds with table look-up, SSE4.2 and BMI2 code paths"),
  "bits_test compares a few functions on random words in one build configuration; 2^64 words, 64x64 offset/length pairs and the other code paths are out of its reach.",
  [D + "bits.hpp", "lib/bits.cpp"], [("word primitives and tables", D + "bits.hpp")])
P("C02", "Wide integers compute modulo 2^128 and 2^256",
  "Arithmetic, shifts, comparisons, population count and conversions of the 128 and 256 bit integers agree with exact integer arithmetic modulo their width.",
  ([I, C], "all operand pairs and shift amounts 0..255; native and emulated 128-bit integers"),
  "No test of their own: they are only exercised through block sizes above 64 of one compressed bit vector.",
  [D + "uint128_t.hpp", D + "uint256_t.hpp", D + "uintx_t.hpp", "lib/uint128_t.cpp", "lib/uint256_t.cpp"], [("limb arithmetic with carries", D + "uint256_t.hpp")])
P("C03", "Integer vectors behave as sequences of w-bit integers",
  "After any history of element, bit-range, iterator, resize, width-change, copy/move/swap, comparison and bit-logic operations, an integer vector holds exactly the "
  "sequence of w-bit values (and bits) the history prescribes, for every width 1..64. The vector-wide helpers (set to a value, to identity, modulo, expand, compress, count "
  "bits, next/previous set bit) follow their definitions on it.",
  ([H, I], "all operation histories, widths 1..64, sizes around word borders"),
  "int_vector_test checks single operations on fixed sizes; interactions of width changes, partial last words, self assignment and proxies are not sampled.",
  [D + "int_vector.hpp", D + "util.hpp", D + "iterators.hpp", "lib/util.cpp"], [("int_vector and its references/iterators", D + "int_vector.hpp"), ("vector helpers", D + "util.hpp")])
P("C04", "Buffered file vectors equal an in-memory vector and persist it",
  "A disk- or memory-backed buffered integer vector answers every read as a plain vector would after the same writes, appends, gap writes, buffer-size changes and resets. "
  "After closing, the file holds exactly the serialized form of that vector, readable by the vector type and by a later buffer; older content never shines through.",
  ([H, C], "histories of operations, buffer sizes from one element up, all widths, plain and headed files, disk and RAM files"),
  "int_vector_buffer_test uses a few fixed patterns with large buffers; block boundaries, reopened files and buffer-size changes in mid-history are not sampled.",
  [D + "int_vector_buffer.hpp", D + "sfstream.hpp", D + "ram_filebuf.hpp"], [("block buffer with dirty flag", D + "int_vector_buffer.hpp")])
P("C05", "Mapped vectors equal an in-memory vector and persist it",
  "A memory-mapped integer vector behaves as the vector stored in its file under any history of writes, appends, resizes, width changes and moves; after it is closed the "
  "file holds exactly that vector. Every mapping, descriptor and temporary file it acquired is released exactly once, also across moves.",
  ([H, C], "histories on sdsl and plain files, all widths, delete-on-close, moves at any point"),
  "int_vector_mapper_test never moves a mapper, never maps a file whose length is no multiple of eight, and does not watch descriptors or mappings.",
  [D + "int_vector_mapper.hpp", D + "memory_management.hpp"], [("mapping, size write-back, truncation", D + "int_vector_mapper.hpp")],
  tech="runtime monitoring: seeded histories under ASan+UBSan, vector model, file bytes, live mappings and descriptors")
P("C06", "Rank counts pattern occurrences in every prefix",
  "For every bit vector v, pattern in {0,1,00,01,10,11} and i in 0..n, rank(i) is the number of occurrences of the pattern ending before position i, for every rank "
  "structure, whatever the unused bits of v's last word contain.",
  ([I], "all bit vectors and all arguments 0..n inclusive"),
  "Tests evaluate about 30 fixed vectors; block-boundary and size-dependent behaviour, dirty padding and most lengths are not sampled.",
  [D + "rank_support.hpp", D + "rank_support_v.hpp", D + "rank_support_v5.hpp", D + "rank_support_scan.hpp"], [("two-level counters plus in-word popcount", D + "rank_support_v.hpp")])
P("C07", "Select returns the position of the i-th pattern occurrence",
  "For every bit vector, pattern and i in 1..number of occurrences, select(i) is the end position of the i-th occurrence; in particular select inverts rank.",
  ([I], "all bit vectors and arguments, sparse to dense, including vectors long enough for every internal block representation"),
  "Tests evaluate about 30 fixed vectors; which internal representation a superblock takes depends on density and length.",
  [D + "select_support.hpp", D + "select_support_mcl.hpp", D + "select_support_scan.hpp"], [("superblock/miniblock directories", D + "select_support_mcl.hpp")])
P("C08", "Compressed bit vectors represent exactly the original bits",
  "Access, integer extraction, iteration, rank and select on every compressed or interleaved bit vector type give the answers of the plain bit vector it was built from. "
  "Building from sorted positions or with the incremental builder gives the same vector; unsorted or over-full input is refused.",
  ([I, C], "all bit vectors; block sizes 3..256, sampling rates, high-part representations, universes up to 2^60"),
  "The tests use about 30 fixed vectors and default sampling rates; encodings depend on local density, run structure and the last partial block.",
  [D + "rrr_vector.hpp", D + "rrr_vector_15.hpp", D + "rrr_helper.hpp", D + "sd_vector.hpp", D + "hyb_vector.hpp", D + "bit_vector_il.hpp", "lib/sd_vector.cpp"],
  [("block type + offset coding", D + "rrr_vector.hpp"), ("Elias-Fano coding", D + "sd_vector.hpp"), ("per-block best encoding", D + "hyb_vector.hpp")])
P("C09", "Universal codes are lossless, with correct lengths and prefix sums",
  "For every coder, every sequence of 64-bit values and every bit offset, decoding returns what was encoded, the announced code length is the number of bits written, no bit "
  "outside the code word changes, and summing decoders return the exact sum (modulo 2^64) of the next n values. Decoders never read beyond the memory of the encoded stream.",
  ([I], "all values 0..2^64-1, sequences of any mixture of short and long codes, all 64 offsets, digit widths 2..32"),
  "coder_test encodes a few fixed sequences at offset 0; table-driven prefix sums depend on how codes fall across 16-bit windows and word borders.",
  [D + "coder_elias_delta.hpp", D + "coder_elias_gamma.hpp", D + "coder_fibonacci.hpp", D + "coder_comma.hpp", "lib/coder_elias_delta.cpp", "lib/coder_elias_gamma.cpp", "lib/coder_fibonacci.cpp"],
  [("table-driven prefix sums", "lib/coder_elias_delta.cpp"), ("Zeckendorf encoding", D + "coder_fibonacci.hpp")])
P("C10", "Compressed integer vectors and inverse permutations are lossless",
  "A delta-, variable-length- or directly-addressable-coded vector built from any container or file buffer of unsigned integers returns exactly that sequence by index, "
  "iterator and sample access; a value it cannot code is refused. The inverse permutation support returns p^-1(i) for every permutation p. Copies, moves, swaps and reloaded "
  "objects answer alike.",
  ([I, C], "all sequences (any order, any width, any element type), coders, sampling densities, split widths, level limits; all permutations"),
  "The tests use a handful of files for two of the classes and random permutations; long codes, wrap-around deltas, narrow element types and odd densities are not sampled.",
  [D + "enc_vector.hpp", D + "vlc_vector.hpp", D + "dac_vector.hpp", D + "inv_perm_support.hpp"],
  [("samples + deltas", D + "enc_vector.hpp"), ("overflow levels", D + "dac_vector.hpp"), ("back pointers on cycles", D + "inv_perm_support.hpp")])
P("C11", "Wavelet trees answer access, rank and select of their sequence",
  "For every sequence s, symbol c and position, every wavelet tree (balanced, Huffman, Hu-Tucker, run-length, wavelet matrix, alphabet-partitioned, permutation-based) built "
  "from s returns s[i], the number of c in s[0..i), the position of the i-th c, and the pair (rank, symbol) of position i; absent symbols have rank 0, size and sigma are exact.",
  ([I, C], "all sequences incl. empty, one-symbol and prefix-only; byte and integer alphabets up to 64-bit symbols; tree shapes and bit vector types"),
  "Tests use about ten files; alphabets that are sparse, huge, one-symbol or skewed into deep codes, and most type combinations, are not sampled.",
  [D + "wt_pc.hpp", D + "wt_int.hpp", D + "wm_int.hpp", D + "wt_gmr.hpp", D + "wt_ap.hpp", D + "wt_rlmn.hpp", D + "wt_helper.hpp", D + "wt_huff.hpp", D + "wt_hutu.hpp", D + "wt_blcd.hpp"],
  [("prefix-code tree of bit vectors", D + "wt_pc.hpp"), ("level-wise tree", D + "wt_int.hpp"), ("blocks of permutations", D + "wt_gmr.hpp")])
P("C12", "Wavelet tree range queries and node navigation are exact",
  "interval_symbols, lex_count, lex_smaller_count, range_search_2d, intersect, quantile_freq, symbol_gte/lte, restricted_unique_range_values and the node interface (expand, "
  "size, bit_vec, seq, sym, path) return what a scan of the sequence returns, in ascending symbol order where the tree is lexicographically ordered.",
  ([I, C], "all sequences, ranges (empty, one, two, all positions), symbols present or absent, thresholds; tree layouts BFS and DFS"),
  "Few tests call them, on a few default types; empty children, absent bounds, the DFS layout and ranges of length 0..2 take separate code paths.",
  [D + "wt_algorithm.hpp", D + "wt_pc.hpp", D + "wt_int.hpp", D + "wm_int.hpp", D + "wt_helper.hpp"], [("generic range algorithms", D + "wt_algorithm.hpp"), ("tree layout", D + "wt_helper.hpp")])
P("C13", "Suffix array, BWT, ISA and LCP construction are exact",
  "For every text of positive symbols (bytes or integers up to 64 bits) every construction algorithm, on disk or in memory, produces the suffix array of text+0, its inverse, "
  "the Burrows-Wheeler transform and the array of longest common prefixes of adjacent suffixes; all algorithms agree. Texts containing the symbol 0 are refused.",
  ([I, C], "all texts incl. empty, one-symbol, periodic and highly repetitive; seven LCP and three suffix array algorithms, disk and in-memory caches"),
  "The construction tests use about ten files and mostly compare algorithms with each other; multi-phase LCP algorithms switch phase by text structure and size.",
  [D + "construct.hpp", D + "construct_sa.hpp", D + "construct_bwt.hpp", D + "construct_isa.hpp", D + "construct_lcp.hpp", D + "construct_sa_se.hpp", D + "qsufsort.hpp", "lib/construct_lcp.cpp", "lib/construct_lcp_helper.cpp", "lib/construct_sa_se.cpp", "lib/construct_sa.cpp"],
  [("LCP algorithms", "lib/construct_lcp.cpp"), ("semi-external suffix sorting", "lib/construct_sa_se.cpp"), ("integer suffix sorting", D + "qsufsort.hpp")])
P("C14", "Compressed suffix array members equal SA, ISA, psi, LF, BWT, text",
  "For every text, every compressed suffix array (wavelet-tree, psi-based or plain; any SA/ISA sampling strategy and rate; any alphabet strategy) returns, for every index, the exact "
  "suffix array, inverse, psi, LF, BWT, first-row and text values, and exact alphabet tables and rank/select on the BWT; copies, moved, swapped and reloaded indexes answer alike.",
  ([I, C], "all texts over byte and integer alphabets, all sampling strategies, rates and alphabet classes, disk and in-memory construction"),
  "csa_byte/int_test compare a few types on about ten files; sampling wrap-around, rare symbols, tiny texts and moved objects are not sampled.",
  [D + "csa_wt.hpp", D + "csa_sada.hpp", D + "csa_bitcompressed.hpp", D + "csa_sampling_strategy.hpp", D + "csa_alphabet_strategy.hpp", D + "suffix_array_helper.hpp", "lib/csa_alphabet_strategy.cpp"],
  [("SA/ISA sampling strategies", D + "csa_sampling_strategy.hpp"), ("psi/LF/BWT/ISA wrappers", D + "suffix_array_helper.hpp")])
P("C15", "Pattern search, locate and extract are exact",
  "For every text and pattern of positive symbols, count, lex_interval, backward and forward search (also inside an interval), bidirectional search and locate return exactly the occurrences of the "
  "pattern in the text, and extract returns exactly text[b..e], for every compressed suffix array and pattern container type.",
  ([I], "all texts, patterns (empty, absent symbols, whole text, longer than the text), split searches, byte symbols >= 128, integer symbols > 255"),
  "The tests search text substrings only, on a few files, and byte patterns below 128; absent patterns, partial intervals and integer bidirectional search are not sampled.",
  [D + "suffix_array_algorithm.hpp", D + "csa_wt.hpp", D + "csa_sada.hpp", D + "csa_bitcompressed.hpp"],
  [("search algorithms", D + "suffix_array_algorithm.hpp")])
P("C16", "LCP representations return the LCP array",
  "Every LCP representation (plain, byte/escape, wavelet tree, variable length, direct access, permuted, and the tree-compressed ones inside a suffix tree) returns for every "
  "position the length of the longest common prefix of the adjacent suffixes, by index and by iterator, also after copy, move, swap and reload.",
  ([I], "all texts, in particular LCP values around and above the 8-bit escapes; stored LCP arrays with values up to 2^33; 24 representations"),
  "Test files contain hardly any LCP value >= 254, never as last interval of the array, and standalone representations are not built at all.",
  [D + "lcp.hpp", D + "lcp_byte.hpp", D + "lcp_wt.hpp", D + "lcp_vlc.hpp", D + "lcp_dac.hpp", D + "lcp_bitcompressed.hpp", D + "lcp_support_sada.hpp", D + "lcp_support_tree.hpp", D + "lcp_support_tree2.hpp", D + "cst_fully.hpp"],
  [("first-child and LF-reduced LCP values", D + "lcp_support_tree2.hpp"), ("escape tables", D + "lcp_byte.hpp")])
P("C17", "Suffix tree navigation equals the suffix tree of the text",
  "For every suffix tree class, the nodes are exactly the lcp-intervals and suffixes of the text, and every operation (parent, children, sibling, child by symbol, lca, depth, "
  "node depth, edge symbols, suffix and Weiner links, ids, bounds, traversals, forward search, extract, entropy) returns what the suffix tree of the text prescribes, through "
  "any handle of a node.",
  ([I, H], "all texts, nodes, node pairs and symbols; node handles obtained by any sequence of operations"),
  "The tests compare structures with themselves on a few files; operations after other operations, ancestors in lca, iterator copies, or labels of inner nodes are not sampled.",
  [D + "cst_sct3.hpp", D + "cst_sada.hpp", D + "cst_fully.hpp", D + "cst_iterators.hpp", D + "suffix_tree_algorithm.hpp", D + "suffix_tree_helper.hpp"],
  [("interval navigation on the Super-Cartesian tree", D + "cst_sct3.hpp"), ("balanced parentheses suffix tree", D + "cst_sada.hpp"), ("sampled suffix tree", D + "cst_fully.hpp")])
P("C18", "Balanced parentheses supports return the matching structure",
  "For a balanced parentheses sequence every support class returns, at every position, the matching parenthesis, the enclosing pair, the double enclosing pair of two pairs, excess, "
  "rank, select, preceding parentheses, level ancestors and the position of minimum excess in a range, as the stack discipline defines them; also after copy, move, swap, "
  "reload and re-attachment. The near-excess primitives agree with a bit-by-bit scan.",
  ([I, H], "all balanced sequences, positions and position pairs; three classes, many block and superblock sizes"),
  "Tests use a handful of generated trees with one block size, so block/superblock boundary combinations, deep far-pioneer chains and closing borders of ranges are not sampled.",
  [D + "bp_support_g.hpp", D + "bp_support_gg.hpp", D + "bp_support_sada.hpp", D + "bp_support_algorithm.hpp", D + "nearest_neighbour_dictionary.hpp"],
  [("pioneer families", D + "bp_support_g.hpp"), ("min-max tree", D + "bp_support_sada.hpp"), ("word/block level search", D + "bp_support_algorithm.hpp")])
P("C19", "Range minimum/maximum queries return the leftmost optimum",
  "For every sequence and every range [l,r] each range minimum (maximum) structure returns the leftmost position of the minimum (maximum) of the range, as its documentation "
  "promises, for every element type, and also after copy, move, swap and reload.",
  ([I, H], "all sequences and ranges; sparse table, Sadakane and Super-Cartesian-tree structures, minimum and maximum, five parentheses supports"),
  "Tests run one file with minima only; duplicate values, maxima, ranges across block borders and lengths 0..2 are not sampled.",
  [D + "rmq_support.hpp", D + "rmq_support_sparse_table.hpp", D + "rmq_succinct_sada.hpp", D + "rmq_succinct_sct.hpp"],
  [("sparse table", D + "rmq_support_sparse_table.hpp"), ("succinct RMQ", D + "rmq_succinct_sct.hpp")])
P("C20", "k2_treap reports exactly the weighted points of a range",
  "A k2_treap built from any set of distinct weighted points by any constructor stores exactly these points; top_k reports the points of a rectangle once each in decreasing "
  "weight, range_3d exactly those with weight in the given interval, count their number, and navigation visits a heap-ordered tree of all points.",
  ([I, H], "all sets of distinct points with coordinates below 2^60, all rectangles and weight intervals; arities 2..16"),
  "Tests run on generated files of one shape and compare counts for a few rectangles; clusters, huge coordinates, a single point at the origin and object copies are not sampled.",
  [D + "k2_treap.hpp", D + "k2_treap_algorithm.hpp", D + "k2_treap_helper.hpp"],
  [("level-wise construction", D + "k2_treap.hpp"), ("priority queue iterators", D + "k2_treap_algorithm.hpp")])
P("C21", "k2_tree and louds_tree represent their graph or tree",
  "A k2_tree built from a matrix, edges or files answers adjacency, neighbours, reverse neighbours and rectangle queries exactly as the edge set; a louds_tree built from a "
  "traversal returns the degree, children, parent, leaf status and numbering of that tree. Both also after copy, move, swap and reload.",
  ([I, H], "all directed graphs up to 2^50 nodes, all ordered trees; six k2_tree and four louds_tree types"),
  "Tests build graphs of a few nodes; large node numbers, powers of k, and tree copies are not sampled; louds_tree has no test at all.",
  [D + "k2_tree.hpp", D + "k2_tree_helper.hpp", D + "louds_tree.hpp"],
  [("level-wise edge partitioning", D + "k2_tree.hpp"), ("LOUDS navigation", D + "louds_tree.hpp")])
P("C22", "Nearest-neighbour dictionaries, stacks and queues behave as their models",
  "The static and dynamic nearest-neighbour dictionaries answer access, rank, select, next and previous as the sorted set they hold, after every history of insertions and "
  "removals; the succinct stacks (sorted and sorted multi) answer top, size, empty after every push/pop history as a plain stack of the same values does; the linear-time "
  "range minimum builders and interval helpers that use them agree with their definitions.",
  ([H, I], "all push/pop and insert/erase histories; universes up to the size given to the constructor"),
  "Tests cover one static dictionary and one stack history; the dynamic dictionary's border words and multi stacks with many equal values are not sampled.",
  [D + "nearest_neighbour_dictionary.hpp", D + "nn_dict_dynamic.hpp", D + "sorted_stack_support.hpp", D + "sorted_multi_stack_support.hpp"],
  [("64-ary tree of summaries", D + "nn_dict_dynamic.hpp"), ("unary coded stack", D + "sorted_multi_stack_support.hpp")])
P("C23", "Serialization round-trips every data structure exactly",
  "For every serializable type and every object of it (default-constructed ones included), serialize followed by load into a fresh, used or default object gives an object with "
  "the same answers; load consumes exactly the bytes serialize wrote and reported, so several objects can share a stream, however few bytes the stream delivers at a time; "
  "serializing again gives the same bytes; disk, in-memory and checked files behave the same, and a checked file of another type is refused.",
  ([I, H], "all objects of some 80 types, all sequences of objects on a stream"),
  "Tests load single objects of test-file contents into fresh objects and do not look at consumed bytes, targets already in use, or default objects.",
  [D + "io.hpp", D + "int_vector.hpp", D + "construct.hpp", "lib/io.cpp"], [("write_member/read_member", D + "io.hpp"), ("load of support structures", D + "wt_pc.hpp")])
P("C24", "Copy, move, swap and assignment preserve every data structure's answers",
  "After any history of copy and move construction and assignment, swap, self-assignment, reload and destruction, every object of every data structure gives the answers of the "
  "object whose value it received, independent of what happened to that object since; no operation reads or writes memory of another object.",
  ([H, I], "all histories of value operations over pools of objects of some 80 types"),
  "Tests swap or move some structures once and keep the source alive, so internal pointers that still refer to the source go unnoticed.",
  [D + "csa_wt.hpp", D + "cst_sct3.hpp", D + "wt_pc.hpp", D + "util.hpp"], [("set_vector rewiring of supports", D + "util.hpp"), ("copy/move members", D + "wt_gmr.hpp")])
P("C25", "No uninitialised reads, leaks or invalid accesses over object life cycles",
  "Over the life cycle of every data structure (construction, queries, copies, moves, swaps, default objects, reload, storage in containers, destruction) no result and no "
  "serialized byte depends on uninitialised memory, no memory outside live objects is accessed, every block is freed exactly once and none is lost.",
  ([H, I], "all life cycles of objects of some 80 types"),
  "Unit tests compare values; a stale or uninitialised byte that happens to be right, an over-read of a padding word or a leak does not change what they compare.",
  [D + "memory_management.hpp", D + "int_vector.hpp", D + "dac_vector.hpp"], [("allocation and padding words", D + "memory_management.hpp")])
P("C27", "Constant objects and independent objects can be used by threads at once",
  "Any number of threads can query, copy and serialize one constant object of any data structure, and can construct, load, store and query objects of their own, including files "
  "on disk and in memory with names of their own: there is no data race, and every thread gets what it gets alone. Ids handed out to threads are distinct.",
  ([S, I], "all schedules of threads over shared constant objects and over the library's global state"),
  "Tests are single-threaded; a hidden mutable cache or a shared counter only shows under particular schedules.",
  [D + "csa_sada.hpp", D + "util.hpp", "lib/ram_fs.cpp", D + "rrr_helper.hpp", D + "memory_management.hpp"],
  [("RAM file system lock", "lib/ram_fs.cpp"), ("lazily built tables", D + "rrr_helper.hpp"), ("id counter", "lib/util.cpp")])
P("C29", "Reported sizes equal the bytes really written",
  "For every object of every data structure size_in_bytes, the value serialize returns, the size in the structure tree, and the JSON and HTML reports equal the number of bytes "
  "serialize writes; no node of the tree reports less than its children together; passing a structure tree changes no byte.",
  ([I, C], "all objects of some 80 types"),
  "No test compares the numbers; they are what users publish as the space of a structure.",
  [D + "structure_tree.hpp", D + "io.hpp", D + "int_vector.hpp"], [("structure tree", D + "structure_tree.hpp"), ("size_in_bytes", D + "io.hpp")])
P("C26", "Files in memory and on disk behave alike, and as a file model says",
  "Every history of opening (all modes), reading, writing, seeking, telling, flushing, closing, renaming, removing and asking for sizes, through isfstream, osfstream, ram_filebuf and "
  "the ram_fs functions, gives the bytes, positions, stream states and return values a model of a file gives; files named with @ behave like files on disk; a RAM file never touches the disk; "
  "names differ exactly when their strings differ.",
  ([H, I], "histories of stream and file-system operations over several files"),
  "The tests open a RAM file, write it once and read it once; relative seeks, append modes, reopening and growing files are where the implementation differs from a disk.",
  ["lib/ram_fs.cpp", "lib/ram_filebuf.cpp", "lib/sfstream.cpp", D + "sfstream.hpp", D + "ram_fs.hpp"],
  [("stream buffer over a RAM file", "lib/ram_filebuf.cpp"), ("dispatch of streams by file name", "lib/sfstream.cpp")])
P("C28", "Memory accounting balances and the huge page heap never hands out a byte twice",
  "The memory monitor's events record exactly the bytes held by all integer vectors, its peak is at least every amount held, and the balance is zero when everything is destroyed. "
  "On the huge page heap every block is aligned, inside the heap, disjoint from all live blocks and keeps its contents through realloc of neighbours; a failed request changes nothing; "
  "all freed memory becomes available as one block again; structures built on it are the same as on the ordinary heap, also when memory from before the switch is freed or grown after it.",
  ([H, I], "histories of alloc, realloc, free and of vector operations inside nested events"),
  "One test allocates a few blocks; coalescing, splitting and realloc depend on long histories and exact sizes.",
  [D + "memory_management.hpp", "lib/memory_management.cpp"], [("block heap with coalescing", "lib/memory_management.cpp"), ("event stack", D + "memory_management.hpp")])
P("C30", "Failures are reported and leave objects and files as they were or empty",
  "When a file is missing, can not be opened, or the disk refuses a write at any byte, store and load functions say so; success is only reported for a file with all bytes. When an "
  "allocation fails, resizing, copying or assigning a vector or support structure throws and leaves every object destructible and usable, holding its old or no value. Refused input "
  "(zero symbols, wrong widths, other element widths in a mapped file) raises the documented error. No descriptor or mapping leaks.",
  ([F, I], "every fault point: allocation, open, write, stat, map"),
  "No test injects a fault; every path of this kind is code that has never run.",
  [D + "io.hpp", D + "int_vector.hpp", D + "memory_management.hpp", D + "int_vector_mapper.hpp", "lib/util.cpp", D + "construct.hpp"],
  [("store/load return values", D + "io.hpp"), ("resize after failed allocation", D + "memory_management.hpp"), ("mapping of files", D + "int_vector_mapper.hpp")])
P("C31", "Construction is the same from every source and leaves only its own files",
  "A structure built from a file on disk, an in-memory file or a vector, in any input format, in any cache directory, with or without files cached by an earlier construction of it or "
  "of another structure, is the same. With delete_files no file remains but those there before; without it exactly the registered files remain, holding the arrays they are named after; "
  "a refused input leaves nothing; the input and files of others are never changed.",
  ([C, I, H], "sources, formats, cache states and orders of construction"),
  "Tests build each structure once from one kind of source; leftovers and stale caches only show over several constructions.",
  [D + "construct.hpp", "lib/io.cpp", D + "config.hpp", D + "csa_sampling_strategy.hpp", D + "wt_ap.hpp", D + "wt_rlmn.hpp", D + "wm_int.hpp", D + "wt_int.hpp", D + "lcp_support_tree.hpp", D + "lcp_support_tree2.hpp", D + "k2_treap.hpp", D + "construct_sa_se.hpp"],
  [("construction pipeline", D + "construct.hpp"), ("cache file map", "lib/io.cpp")])
P("C32", "Printed text and plain files show exactly the object's contents",
  "Printing vectors, bit vectors, wavelet trees, suffix arrays, their members (psi, LF, ISA, BWT, text, F) and LCP arrays with << gives their elements in order, numbers separated by one blank, symbols of "
  "byte alphabets and bits without separator. csXprintf replaces every documented token (index, SA, ISA, psi, LF, LCP, BWT, suffix characters, %%) of any format string in every row by the value with the "
  "width asked for, and copies everything else. Plain arrays of 1, 2, 4 and 8 byte integers and files of decimal numbers are written and read without loss; incomplete arrays are refused.",
  ([I, C], "contents, types, format strings, integer widths"),
  "No test looks at printed output; widths, terminators and tokens at the ends of a format depend on the input.",
  [D + "io.hpp", "lib/io.cpp", D + "int_vector.hpp", D + "suffix_array_helper.hpp", D + "util.hpp", "lib/util.cpp"],
  [("csXprintf", D + "io.hpp"), ("stream output", D + "io.hpp"), ("plain arrays", D + "io.hpp")])
P("C33", "Cached resources are kept apart by key, type, identifier and directory",
  "In every history over several cache configurations, load_from_cache returns exactly the object stored last under that key (and type, if asked for) in that directory and identifier, or fails and leaves "
  "its target unchanged; cache_file_exists, cache_file_name and register_cache_file agree with it; the file map names exactly the resources stored, registered or given; delete_all_files removes these and "
  "nothing else; names of temporary files and automatic identifiers are never used twice and lie in the directory asked for, on disk or in memory.",
  ([H, C], "histories over keys, types, directories, identifiers"),
  "Tests use one configuration with fixed keys; collisions only show when types, sessions and directories are mixed.",
  [D + "io.hpp", "lib/io.cpp", D + "config.hpp", "lib/config.cpp", "lib/util.cpp"],
  [("cache of resources", D + "io.hpp"), ("names of files", "lib/io.cpp"), ("directory of a file", "lib/util.cpp")])
