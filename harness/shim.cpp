// Depth-first walk over all quadrants that have local leaf descendants, from the root of each local tree,
// without skipping levels; local_num is -1 for a branch and the local leaf index for a leaf.
#include "shim.h"
#include <p4est_bits.h>
static bool walk(p4est_t* p4est, p4est_topidx_t tt, p4est_tree_t* tree, p4est_quadrant_t* q, size_t lo, size_t hi,
                 p4est_search_local_t pre, p4est_search_local_t post) {
    p4est_quadrant_t* first = p4est_quadrant_array_index(&tree->quadrants, lo);
    bool leaf = hi - lo == 1 && first->level == q->level;
    p4est_locidx_t num = leaf ? (p4est_locidx_t)(tree->quadrants_offset + lo) : -1;
    p4est_quadrant_t* arg = leaf ? first : q;
    if (pre && !pre(p4est, tt, arg, num, nullptr)) return true;
    if (!leaf) {
        p4est_quadrant_t c[4];
        p4est_quadrant_childrenv(q, c);
        size_t i = lo;
        for (int k = 0; k < 4; k++) {
            size_t j = i;
            while (j < hi) {
                p4est_quadrant_t* x = p4est_quadrant_array_index(&tree->quadrants, j);
                if (p4est_quadrant_is_equal(&c[k], x) || p4est_quadrant_is_ancestor(&c[k], x)) j++; else break;
            }
            if (j > i) walk(p4est, tt, tree, &c[k], i, j, pre, post);
            i = j;
        }
    }
    if (post) post(p4est, tt, arg, num, nullptr);
    return true;
}
extern "C" void p4est_search_reorder(p4est_t* p4est, int, sc_array_t*, p4est_search_local_t pre, p4est_search_local_t post, p4est_search_local_t, sc_array_t*) {
    for (p4est_topidx_t tt = p4est->first_local_tree; tt <= p4est->last_local_tree; tt++) {
        p4est_tree_t* tree = p4est_tree_array_index(p4est->trees, tt);
        if (tree->quadrants.elem_count == 0) continue;
        p4est_quadrant_t root;
        p4est_quadrant_set_morton(&root, 0, 0);
        root.p.which_tree = tt;
        walk(p4est, tt, tree, &root, 0, tree->quadrants.elem_count, pre, post);
    }
}

// Stand-in for FISHPACK90's hstcrt, which is not installed: u_xx + u_yy + ELMBDA u = F on a staggered grid of M x N
// cells, following its documented contract (argument checks and their IERROR values included) for Dirichlet sides.
#include <vector>
extern "C" void dgbsv_(int* n, int* kl, int* ku, int* nrhs, double* ab, int* ldab, int* ipiv, double* b, int* ldb, int* info);
long hstcrt_calls = 0, hstcrt_errors = 0;
extern "C" void hstcrt_(double* A, double* B, int* M, int* MBDCND, double* BDA, double* BDB, double* C, double* D, int* N, int* NBDCND, double* BDC, double* BDD, double* ELMBDA, double* F, int* IDIMF, double* PERTRB, int* IERROR) {
    hstcrt_calls++; *IERROR = 0; int m = *M, n = *N, ld = *IDIMF;
    if (*A >= *B) *IERROR = 1; if (*MBDCND < 0 || *MBDCND > 8) *IERROR = 2; if (*C >= *D) *IERROR = 3; if (n <= 2) *IERROR = 4;
    if (*NBDCND < 0 || *NBDCND > 4) *IERROR = 5; if (ld < m) *IERROR = 7; if (m <= 2) *IERROR = 8;
    if (*IERROR || *MBDCND != 1 || *NBDCND != 1) { if (!*IERROR) *IERROR = 2; hstcrt_errors++; return; }
    if (*ELMBDA > 0) *IERROR = 6;
    *PERTRB = 0;
    double wx = 1 / ((*B - *A) / m) / ((*B - *A) / m), wy = 1 / ((*D - *C) / n) / ((*D - *C) / n);
    int U = m * n, k = m, lda = 3 * k + 1, one = 1, info; std::vector<double> ab((size_t) lda * U, 0.0), b(U); std::vector<int> ip(U);
    for (int j = 0; j < n; j++) for (int i = 0; i < m; i++) {
        int r = i + j * m; double dg = *ELMBDA, f = F[i + (size_t) j * ld];
        auto at = [&](int c) -> double& { return ab[(size_t) c * lda + 2 * k + r - c]; };
        if (i > 0) { dg -= wx; at(r - 1) = wx; } else { dg -= 2 * wx; f -= 2 * wx * BDA[j]; }
        if (i + 1 < m) { dg -= wx; at(r + 1) = wx; } else { dg -= 2 * wx; f -= 2 * wx * BDB[j]; }
        if (j > 0) { dg -= wy; at(r - m) = wy; } else { dg -= 2 * wy; f -= 2 * wy * BDC[i]; }
        if (j + 1 < n) { dg -= wy; at(r + m) = wy; } else { dg -= 2 * wy; f -= 2 * wy * BDD[i]; }
        at(r) = dg; b[r] = f;
    }
    dgbsv_(&U, &k, &k, &one, ab.data(), &lda, ip.data(), b.data(), &U, &info);
    for (int j = 0; j < n; j++) for (int i = 0; i < m; i++) F[i + (size_t) j * ld] = b[i + j * m];
}
