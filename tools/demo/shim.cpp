// Depth-first walk over all quadrants that have local leaf descendants, from the root of each local tree,
// without skipping levels; local_num is -1 for a branch and the local leaf index for a leaf.
#include "shim.h"
#include <p4est_bits.h>
static bool walk(p4est_t* p4est, p4est_topidx_t tt, p4est_tree_t* tree, p4est_quadrant_t* q, size_t lo, size_t hi,
                 p4est_search_local_t pre, p4est_search_local_t post) {
    p4est_quadrant_t* first = p4est_quadrant_array_index(&tree->quadrants, lo);
    bool leaf = hi - lo == 1 && first->level == q->level;
    p4est_locidx_t num = leaf ? (p4est_locidx_t)(tree->quadrants_offset + lo) : -1;
    p4est_quadrant_t* arg = leaf ? first : q;
    if (pre && !pre(p4est, tt, arg, num, nullptr)) return true;
    if (!leaf) {
        p4est_quadrant_t c[4];
        p4est_quadrant_childrenv(q, c);
        size_t i = lo;
        for (int k = 0; k < 4; k++) {
            size_t j = i;
            while (j < hi) {
                p4est_quadrant_t* x = p4est_quadrant_array_index(&tree->quadrants, j);
                if (p4est_quadrant_is_equal(&c[k], x) || p4est_quadrant_is_ancestor(&c[k], x)) j++; else break;
            }
            if (j > i) walk(p4est, tt, tree, &c[k], i, j, pre, post);
            i = j;
        }
    }
    if (post) post(p4est, tt, arg, num, nullptr);
    return true;
}
extern "C" void p4est_search_reorder(p4est_t* p4est, int, sc_array_t*, p4est_search_local_t pre, p4est_search_local_t post, p4est_search_local_t, sc_array_t*) {
    for (p4est_topidx_t tt = p4est->first_local_tree; tt <= p4est->last_local_tree; tt++) {
        p4est_tree_t* tree = p4est_tree_array_index(p4est->trees, tt);
        if (tree->quadrants.elem_count == 0) continue;
        p4est_quadrant_t root;
        p4est_quadrant_set_morton(&root, 0, 0);
        root.p.which_tree = tt;
        walk(p4est, tt, tree, &root, 0, tree->quadrants.elem_count, pre, post);
    }
}
