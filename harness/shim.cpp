// Stand-ins for two external dependencies that are not installed here (see DESIGN.md, "Environment"):
//  * p4est_search_reorder (p4est newer than 2.3.6): traversal of the local part of the forest
//  * hstcrt_ (FISHPACK90): direct solution of u_xx + u_yy + lambda u = f on a staggered grid, Dirichlet data
// They are part of the trusted base of the checks, not code under test.
#include "shim.hpp"
#include <vector>
#include <cmath>

namespace {
struct Search {
    p4est_t* p4est; p4est_topidx_t tree; sc_array_t* quads; p4est_locidx_t offset;
    p4est_search_local_t pre, post;
    // [lo, hi): local leaves inside quadrant q (not empty)
    void rec(p4est_quadrant_t* q, size_t lo, size_t hi) {
        p4est_quadrant_t* first = p4est_quadrant_array_index(quads, lo);
        bool leaf = hi == lo + 1 && p4est_quadrant_is_equal(first, q);
        p4est_locidx_t num = leaf ? (p4est_locidx_t) (offset + lo) : -1;
        p4est_quadrant_t* arg = leaf ? first : q;
        if (pre && !pre(p4est, tree, arg, num, NULL)) return;
        if (!leaf) {
            size_t at = lo;
            for (int c = 0; c < P4EST_CHILDREN; c++) {
                p4est_quadrant_t child;
                p4est_quadrant_child(q, &child, c);
                child.p.which_tree = tree;
                size_t end = at;
                while (end < hi) {
                    p4est_quadrant_t* l = p4est_quadrant_array_index(quads, end);
                    if (p4est_quadrant_is_equal(l, &child) || p4est_quadrant_is_ancestor(&child, l)) end++; else break;
                }
                if (end > at) rec(&child, at, end);
                at = end;
            }
        }
        if (post) post(p4est, tree, arg, num, NULL);
    }
};
}

extern "C" void p4est_search_reorder(p4est_t* p4est, int, void*, p4est_search_local_t pre, p4est_search_local_t post,
                                     p4est_search_local_t, sc_array_t*) {
    for (p4est_topidx_t t = p4est->first_local_tree; t >= 0 && t <= p4est->last_local_tree; t++) {
        p4est_tree_t* tree = p4est_tree_array_index(p4est->trees, t);
        if (!tree->quadrants.elem_count) continue;
        p4est_quadrant_t root;
        p4est_quadrant_set_morton(&root, 0, 0);
        root.p.which_tree = t;
        Search s{p4est, t, &tree->quadrants, tree->quadrants_offset, pre, post};
        s.rec(&root, 0, tree->quadrants.elem_count);
    }
}

extern "C" void dgesv_(int*, int*, double*, int*, int*, double*, int*, int*);

extern "C" void hstcrt_(double* A, double* B, int* M, int* MBDCND, double* BDA, double* BDB, double* C, double* D, int* N,
                        int* NBDCND, double* BDC, double* BDD, double* ELMBDA, double* F, int* IDIMF, double* PERTRB, int* IERROR) {
    int m = *M, n = *N, nn = m * n, one = 1;
    double dx = (*B - *A) / m, dy = (*D - *C) / n;
    *PERTRB = 0; *IERROR = 0;
    if (*MBDCND != 1 || *NBDCND != 1) { *IERROR = 99; return; }
    std::vector<double> K((size_t) nn * nn, 0), r(nn);
    std::vector<int> piv(nn);
    auto at = [&](int i, int j) { return i + j * m; };
    for (int j = 0; j < n; j++) for (int i = 0; i < m; i++) {
        int k = at(i, j);
        double cx = 1 / (dx * dx), cy = 1 / (dy * dy), diag = *ELMBDA - 2 * cx - 2 * cy, f = F[i + j * *IDIMF];
        if (i > 0) K[k + (size_t) at(i - 1, j) * nn] += cx; else { diag -= cx; f -= 2 * cx * BDA[j]; }
        if (i < m - 1) K[k + (size_t) at(i + 1, j) * nn] += cx; else { diag -= cx; f -= 2 * cx * BDB[j]; }
        if (j > 0) K[k + (size_t) at(i, j - 1) * nn] += cy; else { diag -= cy; f -= 2 * cy * BDC[i]; }
        if (j < n - 1) K[k + (size_t) at(i, j + 1) * nn] += cy; else { diag -= cy; f -= 2 * cy * BDD[i]; }
        K[k + (size_t) k * nn] += diag;
        r[k] = f;
    }
    int info;
    dgesv_(&nn, &one, K.data(), &nn, piv.data(), r.data(), &nn, &info);
    if (info) *IERROR = 98;
    for (int j = 0; j < n; j++) for (int i = 0; i < m; i++) F[i + j * *IDIMF] = r[at(i, j)];
}
