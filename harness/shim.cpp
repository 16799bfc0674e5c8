#include "shim.hpp"
#include <cmath>
#include <cstdio>
#include <cstdlib>
#include <vector>

// Depth-first local search with pre and post callbacks, as p4est documents it: every quadrant that is
// a local leaf or a strict ancestor of one is visited, starting at the tree root (skip_levels == 0).
static void recurse(p4est_t* p, p4est_topidx_t t, p4est_tree_t* tree, p4est_quadrant_t* q, size_t lo, size_t hi,
                    p4est_search_local_t pre, p4est_search_local_t post) {
    // leaves [lo, hi) of this tree are the local descendants of q (or q itself)
    if (lo >= hi) return;
    p4est_quadrant_t* first = p4est_quadrant_array_index(&tree->quadrants, lo);
    bool leaf = (hi - lo == 1) && p4est_quadrant_is_equal(first, q);
    p4est_locidx_t local = leaf ? p4est_locidx_t(tree->quadrants_offset + lo) : -1;
    p4est_quadrant_t* arg = leaf ? first : q;
    if (pre && !pre(p, t, arg, local, NULL)) return;
    if (!leaf) {
        size_t a = lo;
        for (int c = 0; c < 4; c++) {
            p4est_quadrant_t child; std::memset(&child, 0, sizeof child);
            p4est_quadrant_child(q, &child, c);
            size_t b = a;
            while (b < hi) {
                p4est_quadrant_t* l = p4est_quadrant_array_index(&tree->quadrants, b);
                if (p4est_quadrant_is_equal(l, &child) || p4est_quadrant_is_ancestor(&child, l)) b++; else break;
            }
            recurse(p, t, tree, &child, a, b, pre, post);
            a = b;
        }
    }
    if (post) post(p, t, arg, local, NULL);
}

extern "C" void p4est_search_reorder(p4est_t* p, int skip_levels, verif_reorder_t reorder_fn,
                                     p4est_search_local_t pre, p4est_search_local_t post,
                                     p4est_search_local_t point_fn, sc_array_t* points) {
    if (skip_levels != 0 || reorder_fn || point_fn || points) { std::fprintf(stderr, "shim: unsupported p4est_search_reorder arguments\n"); std::abort(); }
    for (p4est_topidx_t t = p->first_local_tree; t >= 0 && t <= p->last_local_tree; t++) {
        p4est_tree_t* tree = p4est_tree_array_index(p->trees, t);
        p4est_quadrant_t root; std::memset(&root, 0, sizeof root);
        p4est_quadrant_set_morton(&root, 0, 0);
        recurse(p, t, tree, &root, 0, tree->quadrants.elem_count, pre, post);
    }
}

// Reference HSTCRT: staggered-grid Helmholtz problem u_xx + u_yy + ELMBDA u = F on [A,B] x [C,D],
// M x N cells, boundary kinds 1..4 per direction (1: u,u  2: u,du  3: du,du  4: du,u).
// F(I,J) is column-major with leading dimension IDIMF and is overwritten by the solution.
extern "C" void hstcrt_(double* A, double* B, int* M, int* MBDCND, double* BDA, double* BDB,
                        double* C, double* D, int* N, int* NBDCND, double* BDC, double* BDD,
                        double* ELMBDA, double* F, int* IDIMF, double* PERTRB, int* IERROR) {
    int m = *M, n = *N, ld = *IDIMF, mb = *MBDCND, nb = *NBDCND;
    *PERTRB = 0; *IERROR = 0;
    if (*A >= *B) { *IERROR = 1; return; }
    if (mb < 1 || mb > 4) { *IERROR = 2; return; }
    if (*C >= *D) { *IERROR = 3; return; }
    if (nb < 1 || nb > 4) { *IERROR = 5; return; }
    if (ld < m) { *IERROR = 7; return; }
    if (*ELMBDA > 0) *IERROR = 6;
    double dx = (*B - *A)/m, dy = (*D - *C)/n, ix = 1/(dx*dx), iy = 1/(dy*dy);
    bool wD = mb == 1 || mb == 2, eD = mb == 1 || mb == 4, sD = nb == 1 || nb == 2, nD = nb == 1 || nb == 4;
    int K = m*n; std::vector<double> S(size_t(K)*K, 0.0), r(K);
    auto id = [&](int i, int j) { return j*m + i; };
    for (int j = 0; j < n; j++) for (int i = 0; i < m; i++) {
        int k = id(i, j); double c = *ELMBDA, f = F[i + size_t(j)*ld];
        auto side = [&](bool edge, bool dir, double g, double w, double h, int nbk, int sgn) {
            if (!edge) { S[size_t(k)*K + nbk] += w; c -= w; }
            else if (dir) { c -= 2*w; f -= 2*w*g; }
            else { f -= sgn*w*h*g; }
        };
        side(i == 0, wD, BDA ? BDA[j] : 0, ix, dx, i ? id(i - 1, j) : 0, -1);
        side(i == m - 1, eD, BDB ? BDB[j] : 0, ix, dx, i < m - 1 ? id(i + 1, j) : 0, 1);
        side(j == 0, sD, BDC ? BDC[i] : 0, iy, dy, j ? id(i, j - 1) : 0, -1);
        side(j == n - 1, nD, BDD ? BDD[i] : 0, iy, dy, j < n - 1 ? id(i, j + 1) : 0, 1);
        S[size_t(k)*K + k] += c; r[k] = f;
    }
    for (int k = 0; k < K; k++) {  // Gaussian elimination with partial pivoting, banded by m
        int p = k, lim = std::min(K, k + m + 1);
        for (int i = k + 1; i < lim; i++) if (std::fabs(S[size_t(i)*K + k]) > std::fabs(S[size_t(p)*K + k])) p = i;
        if (p != k) { for (int q = 0; q < K; q++) std::swap(S[size_t(p)*K + q], S[size_t(k)*K + q]); std::swap(r[p], r[k]); }
        for (int i = k + 1; i < lim; i++) {
            double l = S[size_t(i)*K + k]/S[size_t(k)*K + k]; if (l == 0) continue;
            for (int q = k; q < std::min(K, k + 2*m + 2); q++) S[size_t(i)*K + q] -= l*S[size_t(k)*K + q];
            r[i] -= l*r[k];
        }
    }
    for (int k = K - 1; k >= 0; k--) {
        double s = r[k]; for (int q = k + 1; q < K; q++) s -= S[size_t(k)*K + q]*r[q];
        r[k] = s/S[size_t(k)*K + k];
    }
    for (int j = 0; j < n; j++) for (int i = 0; i < m; i++) F[i + size_t(j)*ld] = r[id(i, j)];
}
