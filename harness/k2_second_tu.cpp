// a second translation unit using the k2 headers: the binary must link
#include <sdsl/k2_treap.hpp>
#include <sdsl/k2_treap_algorithm.hpp>
#include <sdsl/k2_tree.hpp>
#include <sdsl/wavelet_trees.hpp>
uint64_t vf_second_tu()
{
    sdsl::k2_treap<2, sdsl::bit_vector> t;
    std::vector<std::vector<int>> m{{1,0},{0,1}};
    sdsl::k2_tree<2> g(m);
    return t.size() + sdsl::count(t, {0,0}, {1,1}) + g.adj(0,0);
}
