// C15 C16 C17 C18 C19 C20 C21: dense algebra, index operations, interpolation operators.
#include <EllipticForest.hpp>
#include <SpecialMatrices.hpp>
#include <Interpolation.hpp>
#include <cctype>
#include <memory>
#include "hps.hpp"
using rig::Src; using rig::Ctx; using rig::fail;
namespace EF = EllipticForest;
using std::size_t; using std::string; using std::to_string;
using V = EF::Vector<double>; using M = EF::Matrix<double>; using VI = EF::Vector<int>;

// ---- reference containers -------------------------------------------------------------------
struct RM { int r = 0, c = 0; std::vector<double> a; double& at(int i, int j) { return a[size_t(i)*c + j]; } double at(int i, int j) const { return a[size_t(i)*c + j]; } };
using RV = std::vector<double>;
static RM rm(int r, int c, double v = 0) { RM m; m.r = r; m.c = c; m.a.assign(size_t(r)*c, v); return m; }
static double value(Src& s) { uint32_t k = s.next(); if (k % 4 < 3) { int q = int((k/4) % 19u); return (q & 1) ? -(q + 1)/2 : q/2; } return (int((k/4) % 4001u) - 2000)/64.0; }
// many entries: expanded from one choice, so that large shapes do not use up the case
using rig::expand;
static RM genRM(Src& s, int r, int c) { RM m = rm(r, c); if (m.a.size() > 150) { Src q = expand(s, m.a.size()); for (auto& x : m.a) x = value(q); } else for (auto& x : m.a) x = value(s); return m; }
static RV genRV(Src& s, int n) { RV v(n); if (n > 60) { Src q = expand(s, n); for (auto& x : v) x = value(q); } else for (auto& x : v) x = value(s); return v; }
// now and then a structured matrix: zero, diagonal, symmetric, triangular, sparse, equal rows, extreme scale
static void structure(Src& s, RM& m, Ctx& c, bool keepRegular = false) {
    int k = s.range(0, 29); int n = std::min(m.r, m.c); const char* nm[] = {"", "diagonal", "symmetric", "upper triangular", "lower triangular", "sparse", "power-of-ten scale", "skew", "zero", "equal rows", "first row equals first column", "last row equals last column", "tridiagonal", "Hessenberg", "two blocks", "equal diagonals", "first row of the unit matrix", "last row of the unit matrix", "lower triangular but for one entry"}; if (k > 18 || k == 0 || (keepRegular && (k == 7 || k == 8 || k == 9))) return; c.tag(nm[k]);
    double e = std::pow(10.0, s.sint(10)); for (int i = 0; i < m.r; i++) for (int j = 0; j < m.c; j++) { double& x = m.at(i, j); bool in = i < n && j < n;
        if (k == 1 && i != j) x = 0; else if (k == 2 && in && j < i) x = m.at(j, i); else if (k == 3 && j < i) x = 0; else if (k == 4 && j > i) x = 0; else if (k == 5 && (i*7 + j*3) % 4) x = 0; else if (k == 6) x *= e; else if (k == 7 && in && j <= i) x = i == j ? 0 : -m.at(j, i); else if (k == 8) x = 0; else if (k == 9 && i > 0) x = m.at(0, j);
        else if (k == 10 && in && j == 0) x = m.at(0, i); else if (k == 11 && in && i == n - 1) x = m.at(j, n - 1); else if (k == 12 && std::abs(i - j) > 1) x = 0; else if (k == 13 && i > j + 1) x = 0; else if (k == 14 && (i < n/2) != (j < n/2)) x = 0; else if (k == 15 && i > 0 && j > 0) x = m.at(i - 1, j - 1); else if (k == 16 && i == 0) x = j == 0; else if (k == 17 && i == n - 1) x = j == n - 1; else if (k == 18 && j > i && !(i == n/2 && j == n - 1)) x = 0; }
}
static int dim(Src& s, int hi, int huge = 0) { int k = s.range(0, 59); if (huge && k == 59) return s.range(hi, huge); k %= 10; return k == 0 ? 1 : k < 8 ? s.range(1, std::min(hi, 6)) : s.range(1, hi); }
static M mk(Src& s, const RM& m) {  // through one of the constructors
    const auto& a = m.a; switch (s.range(0, 3)) {
        case 3: if (a.size() == 1) return M(m.r, m.c, {a[0]}); if (a.size() == 2) return M(m.r, m.c, {a[0], a[1]}); if (a.size() == 3) return M(m.r, m.c, {a[0], a[1], a[2]}); if (a.size() == 4) return M(m.r, m.c, {a[0], a[1], a[2], a[3]}); if (a.size() == 6) return M(m.r, m.c, {a[0], a[1], a[2], a[3], a[4], a[5]}); [[fallthrough]];
        case 0: return M(m.r, m.c, std::vector<double>(m.a));
        case 1: { M x(m.r, m.c); for (int i = 0; i < m.r; i++) for (int j = 0; j < m.c; j++) x(i, j) = m.at(i, j); return x; }
        default: { M x(m.r, m.c, 7.5); double* p = x.dataPointer(); for (size_t i = 0; i < m.a.size(); i++) p[i] = m.a[i]; return x; }
    }
}
template<class T> static EF::Vector<T> mkv(Src& s, const std::vector<T>& v) {
    switch (s.range(0, 3)) {
        case 3: if (v.size() == 2) return EF::Vector<T>({v[0], v[1]}); if (v.size() == 3) return EF::Vector<T>({v[0], v[1], v[2]}); if (v.size() == 5) return EF::Vector<T>({v[0], v[1], v[2], v[3], v[4]}); [[fallthrough]];
        case 0: return EF::Vector<T>(std::vector<T>(v));
        case 1: { EF::Vector<T> x(v.size()); for (size_t i = 0; i < v.size(); i++) x[i] = v[i]; return x; }
        default: { EF::Vector<T> x(v.size(), T(3)); for (size_t i = 0; i < v.size(); i++) x(i) = v[i]; return x; }
    }
}
static string show(const RM& m) { string o = to_string(m.r) + "x" + to_string(m.c); if (m.a.size() <= 16) { o += "["; for (double x : m.a) { char t[30]; snprintf(t, 30, "%g ", x); o += t; } o += "]"; } return o; }
template<class T> static string show(const std::vector<T>& v) { string o = "n=" + to_string(v.size()); if (v.size() <= 12) { o += "("; for (auto x : v) { char t[30]; snprintf(t, 30, "%g ", double(x)); o += t; } o += ")"; } return o; }
static void same(M& x, const RM& m, const string& what, double tol = 0) {
    if (int(x.nrows()) != m.r || int(x.ncols()) != m.c || int(x.nRows()) != m.r || int(x.nCols()) != m.c) fail("shape", what + ": shape " + to_string(x.nrows()) + "x" + to_string(x.ncols()) + " instead of " + to_string(m.r) + "x" + to_string(m.c));
    std::vector<double> d = x.data(); if (rig::current) for (double q : d) rig::current->mix(q); if (d.size() != m.a.size()) fail("shape", what + ": " + to_string(d.size()) + " stored entries");
    for (int i = 0; i < m.r; i++) for (int j = 0; j < m.c; j++) { double e = x(i, j), g = x.getEntry(i, j), h = d[size_t(i)*m.c + j], w = m.at(i, j);
        if (!(std::fabs(e - w) <= tol + 1e-15*std::fabs(w)) || g != e || h != e) fail("entry", what + ": entry (" + to_string(i) + "," + to_string(j) + ") = " + vf::num(e) + " instead of " + vf::num(w)); }
}
template<class T> static void same(EF::Vector<T>& x, const std::vector<T>& v, const string& what, double tol = 0) {
    if (x.size() != v.size() || x.data().size() != v.size()) fail("size", what + ": size " + to_string(x.size()) + " (" + to_string(x.data().size()) + " stored) instead of " + to_string(v.size()));
    const EF::Vector<T>& cx = x; if (rig::current) for (size_t i = 0; i < v.size(); i++) rig::current->mix(double(x[i]));
    for (size_t i = 0; i < v.size(); i++) if (!(std::fabs(double(x[i] - v[i])) <= tol + 1e-15*std::fabs(double(v[i]))) || x(i) != x[i] || x.getEntry(i) != x[i] || cx[i] != x[i] || x.dataPointer()[i] != x[i]) fail("entry", what + ": entry " + to_string(i) + " = " + vf::num(x[i]) + " instead of " + vf::num(v[i]));
}
template<class F> static bool throws(F f) { try { f(); } catch (const std::exception&) { return true; } return false; }
static double mag(const RM& m) { double x = 0; for (double y : m.a) x = std::max(x, std::fabs(y)); return x; }

// ---- C15 ------------------------------------------------------------------------------------
static void mat_algebra(Src& s, Ctx& c) {
    const int K = 3; RM m[K]; M x[K]; RV v[2]; V y[2]; int n0 = dim(s, 24, 150), n1 = dim(s, 24, 150); if (n0 > 24 || n1 > 24) c.tag("large");
    auto shape = [&](int k, int& a, int& b) { int q = s.range(0, 4); if (q == 0) { a = n0; b = n1; } else if (q == 1) { a = n1; b = n0; } else if (q == 2) { a = b = n0; } else if (q == 3) { a = b = n1; } else { a = dim(s, 12); b = dim(s, 12); } };
    for (int k = 0; k < K; k++) { int a, b; shape(k, a, b); m[k] = genRM(s, a, b); structure(s, m[k], c); x[k] = mk(s, m[k]); c.desc << " A" << k << "=" << show(m[k]); }
    for (int k = 0; k < 2; k++) { v[k] = genRV(s, k ? n1 : n0); y[k] = mkv(s, v[k]); }
    auto checkAll = [&](const string& what) { for (int k = 0; k < K; k++) { same(x[k], m[k], what + ", matrix " + to_string(k)); m[k].a = x[k].data(); } for (int k = 0; k < 2; k++) same(y[k], v[k], what + ", vector " + to_string(k)); };
    int ops = s.range(3, 14), rect = 0, rej = 0;
    for (int o = 0; o < ops; o++) {
        int p = s.range(0, K - 1), q = s.range(0, K - 1), r = s.range(0, K - 1), op = s.range(0, 13); double t = value(s); bool conf = m[p].r == m[q].r && m[p].c == m[q].c;
        string what = "op " + to_string(op) + " on " + show(m[p]) + " and " + show(m[q]); c.desc << "; " << op << "(" << p << "," << q << "->" << r << ")";
        if (m[p].r != m[p].c) rect++;
        auto put = [&](M res, const RM& e, double tol) { same(res, e, what, tol); double big = mag(e); RM ex = e; ex.a = res.data(); if (big < 1e6) { x[r] = res; m[r] = ex; } };
        RM e;
        switch (op) {
            case 0: case 1: {  // + and -
                if (!conf) { rej++; if (!throws([&] { M z = op ? x[p] - x[q] : x[p] + x[q]; })) fail("reject", what + ": non-conforming shapes accepted"); break; }
                e = m[p]; for (size_t i = 0; i < e.a.size(); i++) e.a[i] += (op ? -1 : 1)*m[q].a[i]; put(op ? x[p] - x[q] : x[p] + x[q], e, 0); break; }
            case 2: case 3: {  // += and -=
                if (!conf) { rej++; if (!throws([&] { if (op == 2) x[p] += x[q]; else x[p] -= x[q]; })) fail("reject", what + ": non-conforming shapes accepted"); break; }
                e = m[q]; for (size_t i = 0; i < e.a.size(); i++) m[p].a[i] += (op == 2 ? 1 : -1)*e.a[i]; M& z = op == 2 ? (x[p] += x[q]) : (x[p] -= x[q]); if (&z != &x[p]) fail("inplace", what + ": result is not the object itself"); break; }
            case 4: for (auto& z : m[p].a) z += t; x[p] += t; break;
            case 5: for (auto& z : m[p].a) z -= t; x[p] -= t; break;
            case 6: if (mag(m[p])*std::fabs(t) > 1e7) break; for (auto& z : m[p].a) z *= t; x[p] *= t; break;
            case 7: { double f = x[p](0, 0); if (std::fabs(f) > 100 || mag(m[p])*std::fabs(f) > 1e6) break; for (auto& z : m[p].a) z *= f; x[p] *= x[p](0, 0); break; }
            case 8: e = m[p]; for (auto& z : e.a) z = -z; put(-x[p], e, 0); break;
            case 9: e = m[p]; for (auto& z : e.a) z *= t; put(t*x[p], e, 0); break;
            case 10: e = rm(m[p].c, m[p].r); for (int i = 0; i < m[p].r; i++) for (int j = 0; j < m[p].c; j++) e.at(j, i) = m[p].at(i, j); put(x[p].T(), e, 0); { M z = x[p].T(), w = z.T(); same(w, m[p], what + " transposed twice"); } break;
            case 11: {
                if (m[p].c != m[q].r) { rej++; if (!throws([&] { M z = x[p]*x[q]; })) fail("reject", what + ": non-conforming product accepted"); break; }
                e = rm(m[p].r, m[q].c); for (int i = 0; i < e.r; i++) for (int j = 0; j < e.c; j++) { double sum = 0; for (int k = 0; k < m[p].c; k++) sum += m[p].at(i, k)*m[q].at(k, j); e.at(i, j) = sum; }
                M P = x[p]*x[q]; if (int(P.nrows()) == e.r && int(P.ncols()) == e.c) for (int i = 0; i < e.r; i++) for (int j = 0; j < e.c; j++) { double sum = 0; for (int k = 0; k < m[p].c; k++) sum += std::fabs(m[p].at(i, k)*m[q].at(k, j)); if (!(std::fabs(P(i, j) - e.at(i, j)) <= 1e-15*(m[p].c + 2)*sum)) fail("entry", what + ": product entry (" + to_string(i) + "," + to_string(j) + ") = " + vf::num(P(i, j)) + " instead of " + vf::num(e.at(i, j))); }
                put(P, e, 1e-12*(mag(m[p])*mag(m[q])*m[p].c)); c.tag("product"); break; }
            case 12: {
                int k = s.range(0, 1);
                if (m[p].c != int(v[k].size())) { rej++; if (!throws([&] { V z = x[p]*y[k]; })) fail("reject", what + ": non-conforming matrix-vector product accepted"); break; }
                RV b(m[p].r, 0.0), sa(m[p].r, 0.0); double vm = 0; for (double z : v[k]) vm = std::max(vm, std::fabs(z)); for (int i = 0; i < m[p].r; i++) for (int j = 0; j < m[p].c; j++) { b[i] += m[p].at(i, j)*v[k][j]; sa[i] += std::fabs(m[p].at(i, j)*v[k][j]); }
                V z = x[p]*y[k]; same(z, b, what + " (matrix-vector)", 1e-12*(mag(m[p])*vm*m[p].c)); for (int i = 0; i < m[p].r; i++) if (!(std::fabs(z[i] - b[i]) <= 1e-15*(m[p].c + 2)*sa[i])) fail("entry", what + ": matrix-vector entry " + to_string(i) + " = " + vf::num(z[i]) + " instead of " + vf::num(b[i])); c.tag("matrix-vector"); break; }
            default: { M z(x[p]); same(z, m[p], "copy"); z += 1.0; x[r] = x[p]; m[r] = m[p]; if (r != p && m[r].a.size()) { x[r](0, 0) += 1; m[r].at(0, 0) += 1; } break; }
        }
        checkAll(what);
    }
    if (rej) c.tag("rejections"); c.nontrivial = rect > 0;
    double dn = 0; if (m[0].r == m[1].r && m[0].c == m[1].c) { for (size_t i = 0; i < m[0].a.size(); i++) dn = std::max(dn, std::fabs(m[0].a[i] - m[1].a[i])); double g = EF::matrixInfNorm(x[0], x[1]); if (g != dn) fail("norm", "largest entry difference " + vf::num(g) + " instead of " + vf::num(dn)); }
    else if (!throws([&] { EF::matrixInfNorm(x[0], x[1]); })) fail("reject", "norm of matrices of different shapes accepted");
}

// ---- C16 ------------------------------------------------------------------------------------
static RM nonsingular(Src& s, int n) {  // permuted, row- and column-scaled, diagonally dominant
    RM d = genRM(s, n, n); for (int i = 0; i < n; i++) { double r = 0; for (int j = 0; j < n; j++) if (j != i) r += std::fabs(d.at(i, j)); d.at(i, i) = n > 60 ? ((i*7) % 3 ? 1 : -1)*(1.05*r + 1) : (s.chance(50) ? -1 : 1)*(r*(s.chance(50) ? 1.05 : 0.6) + 1 + s.range(0, 4)); }
    Src pq = n > 60 ? expand(s, n) : Src(); Src& ps = n > 60 ? pq : s; std::vector<int> p(n); for (int i = 0; i < n; i++) p[i] = i; for (int i = n - 1; i > 0; i--) std::swap(p[i], p[i - ps.range(0, i)]);
    int kind = s.range(0, 3); RM a = d; for (int i = 0; i < n; i++) { double sc = kind == 1 ? std::ldexp(1.0, n > 60 ? (i*5) % 13 - 6 : s.range(-6, 6)) : 1; for (int j = 0; j < n; j++) a.at(p[i], j) = sc*d.at(i, j); }
    structure(s, a, *rig::current, true);
    if (kind == 3) { a = rm(n, n); for (int i = 0; i < n; i++) a.at(p[i], i) = (n > 60 ? i % 3 == 0 : s.chance(50)) ? 2 : -1; }  // a scaled permutation: pivoting is essential
    return a;
}
static double condInf(const RM& a) {
    int n = a.r, nr = n, info; std::vector<double> f(size_t(n)*n), inv(size_t(n)*n, 0.0); std::vector<int> piv(n); for (int i = 0; i < n; i++) { inv[size_t(i)*n + i] = 1; for (int j = 0; j < n; j++) f[size_t(j)*n + i] = a.at(i, j); }
    dgesv_(&n, &nr, f.data(), &n, piv.data(), inv.data(), &n, &info); if (info) return INFINITY; double na = 0, ni = 0;
    for (int i = 0; i < n; i++) { double r = 0, q = 0; for (int j = 0; j < n; j++) { r += std::fabs(a.at(i, j)); q += std::fabs(inv[size_t(j)*n + i]); } na = std::max(na, r); ni = std::max(ni, q); } return na*ni;
}
static void residual(const RM& a, const RV& b, V& x, const string& what, Ctx& c) {
    if (x.size() != b.size()) fail("size", what + ": solution has " + to_string(x.size()) + " entries"); double xm = 0, bm = 0; for (size_t i = 0; i < x.size(); i++) { xm = std::max(xm, std::fabs(x[i])); bm = std::max(bm, std::fabs(b[i])); }
    for (int i = 0; i < a.r; i++) { double r = -b[i], sc = std::fabs(b[i]); for (int j = 0; j < a.c; j++) { r += a.at(i, j)*x[j]; sc += std::fabs(a.at(i, j))*xm; } sc = std::max(sc, mag(a)*xm*1e-3); c.maximum("relative residual", sc > 0 ? std::fabs(r)/sc : 0); if (!(std::fabs(r) <= 1e-9*sc)) fail("residual", what + ": residual " + vf::num(r) + " in row " + to_string(i)); }
}
static void mat_solve(Src& s, Ctx& c) {
    int n = dim(s, 30, 120), k = s.chance(2) ? s.range(30, 140) : s.chance(10) ? s.range(1, 40) : s.range(1, 5); RM a = nonsingular(s, n), bm = genRM(s, n, k); structure(s, bm, c); if (s.chance(20)) { double e = std::pow(10.0, s.sint(12)); for (double& x : a.a) x *= e; c.tag("scaled matrix"); } double cond = condInf(a); c.desc << "A=" << show(a) << " columns=" << k << " cond=" << cond; if (!(cond < 1e6)) { c.tag("ill-conditioned, skipped"); return; }
    M A = mk(s, a), B = mk(s, bm); RV b0(n); for (int i = 0; i < n; i++) b0[i] = bm.at(i, 0); V b = mkv(s, b0); c.nontrivial = n > 1 && k > 1;
    V x = EF::solve(A, b); same(A, a, "A after solve"); same(b, b0, "b after solve"); residual(a, b0, x, "vector solve", c);
    M X = EF::solve(A, B); same(A, a, "A after matrix solve"); same(B, bm, "B after matrix solve"); if (int(X.nrows()) != n || int(X.ncols()) != k) fail("shape", "matrix solve has wrong shape");
    for (int q = 0; q < k; q++) { RV bc(n); for (int i = 0; i < n; i++) bc[i] = bm.at(i, q); V z = mkv(s, bc), xs = EF::solve(A, z); V col(n); double xm = 0; for (int i = 0; i < n; i++) { col[i] = X(i, q); xm = std::max(xm, std::fabs(xs[i])); } residual(a, bc, col, "column " + to_string(q), c);
        for (int i = 0; i < n; i++) if (!(std::fabs(col[i] - xs[i]) <= 1e-13*cond*n*xm)) fail("columns", "column " + to_string(q) + " of the matrix solve differs from the vector solve"); }
    EF::IdentityMatrix<double> I(n); V xi = EF::solve(I, b); same(xi, b0, "solve with the identity"); M XI = EF::solve(I, B); same(XI, bm, "matrix solve with the identity");
    RM p = nonsingular(s, n); double c2 = condInf(p); if (c2 < 1e4 && cond < 1e4) { M P = mk(s, p), AP = A*P; V u = EF::solve(AP, b), w = EF::solve(P, x); double um = 0; for (int i = 0; i < n; i++) um = std::max(um, std::fabs(w[i])); c.tag("two-step"); for (int i = 0; i < n; i++) if (!(std::fabs(u[i] - w[i]) <= 1e-13*cond*c2*n*um)) fail("twostep", "(A P) u = b in one step differs from two steps"); }
    M R(n, n + 1, 1.0); if (!throws([&] { EF::solve(R, b); }) || !throws([&] { EF::solve(R, B); })) fail("reject", "non-square system accepted");
    V bl(n + 1, 1.0); M Bl(n + 1, 2, 1.0); if (!throws([&] { EF::solve(A, bl); }) || !throws([&] { EF::solve(A, Bl); })) fail("reject", "right-hand side of the wrong size accepted");
}

// ---- C17 ------------------------------------------------------------------------------------
static std::vector<int> perm(Src& s0, int n) { Src pq = n > 60 ? expand(s0, n) : Src(); Src& s = n > 60 ? pq : s0; std::vector<int> p(n); for (int i = 0; i < n; i++) p[i] = i; for (int i = n - 1; i > 0; i--) std::swap(p[i], p[i - s.range(0, i)]); return p; }
static std::vector<int> parts(Src& s0, int n) { Src pq = n > 60 ? expand(s0, n) : Src(); Src& s = n > 60 ? pq : s0; std::vector<int> r; while (n > 0) { int k = s.range(1, std::min(n, 4)); r.push_back(k); n -= k; } return r; }
static std::vector<int> induced(const std::vector<int>& I, const std::vector<int>& S) { std::vector<int> o; for (int b : I) { int st = 0; for (int k = 0; k < b; k++) st += S[k]; for (int k = 0; k < S[b]; k++) o.push_back(st + k); } return o; }
static RM pickRM(const RM& m, const std::vector<int>& I, const std::vector<int>& J) { RM e = rm(int(I.size()), int(J.size())); for (int i = 0; i < e.r; i++) for (int j = 0; j < e.c; j++) e.at(i, j) = m.at(I[i], J[j]); return e; }
static void mat_index(Src& s, Ctx& c) {
    int r = dim(s, 14, 70), n = dim(s, 14, 70); if (s.chance(3)) { r = s.range(15, 45); n = s.range(15, 45); c.tag("large"); } RM m = genRM(s, r, n); for (size_t i = 0; i < m.a.size(); i++) m.a[i] += 100.0*double(i); M A = mk(s, m); int ops = s.range(2, 8); c.desc << r << "x" << n; c.nontrivial = r != n && r > 1 && n > 1;
    for (int o = 0; o < ops; o++) {
        int op = s.range(0, 9); c.desc << " op" << op;
        switch (op) {
            case 0: { int i = s.range(0, r - 1), j = s.range(0, n - 1), a = s.range(0, r - i), b = s.range(0, n - j); if (a == 0 || b == 0) { a = std::max(a, 1); b = std::max(b, 1); a = std::min(a, r - i); b = std::min(b, n - j); } RM e = rm(a, b); for (int k = 0; k < a; k++) for (int l = 0; l < b; l++) e.at(k, l) = m.at(i + k, j + l); M B = A.getBlock(i, j, a, b); same(B, e, "block"); M D = A(i, i + a - 1, j, j + b - 1); same(D, e, "range access"); break; }
            case 1: { int i = s.range(0, r - 1), j = s.range(0, n - 1), a = s.range(1, r - i), b = s.range(1, n - j); RM e = genRM(s, a, b); M B = mk(s, e); for (int k = 0; k < a; k++) for (int l = 0; l < b; l++) m.at(i + k, j + l) = e.at(k, l); A.setBlock(i, j, B); same(B, e, "inserted block"); M D = A.getBlock(i, j, a, b); same(D, e, "block read back"); break; }
            case 2: { int i = s.range(0, r - 1); RV e(n); for (int j = 0; j < n; j++) e[j] = m.at(i, j); V v = A.getRow(i); same(v, e, "row " + to_string(i) + " of " + show(m)); break; }
            case 3: { int j = s.range(0, n - 1); RV e(r); for (int i = 0; i < r; i++) e[i] = m.at(i, j); V v = A.getCol(j); same(v, e, "column " + to_string(j) + " of " + show(m)); break; }
            case 4: { int i = s.range(0, r - 1); RV e = genRV(s, n); V v = mkv(s, e); A.setRow(i, v); for (int j = 0; j < n; j++) m.at(i, j) = e[j]; same(v, e, "row source"); break; }
            case 5: { int j = s.range(0, n - 1); RV e = genRV(s, r); V v = mkv(s, e); A.setColumn(j, v); for (int i = 0; i < r; i++) m.at(i, j) = e[i]; same(v, e, "column source"); break; }
            case 6: { int a = s.range(1, r), b = s.range(1, n); std::vector<int> I(a), J(b); for (auto& x : I) x = s.range(0, r - 1); for (auto& x : J) x = s.range(0, n - 1); RM e = pickRM(m, I, J); VI vi = mkv(s, I), vj = mkv(s, J); M B = A.getFromIndexSet(vi, vj), D = A(vi, vj); same(B, e, "index sets"); same(D, e, "index sets ()"); break; }
            case 7: { auto I = perm(s, r), J = perm(s, n); std::vector<int> Ii(r), Ji(n); for (int i = 0; i < r; i++) Ii[I[i]] = i; for (int j = 0; j < n; j++) Ji[J[j]] = j; M B = A(mkv(s, I), mkv(s, J)), D = B(mkv(s, Ii), mkv(s, Ji)); RM e = pickRM(m, I, J); same(B, e, "permutation"); same(D, m, "permutation and its inverse"); break; }
            case 8: { auto R = parts(s, r), C = parts(s, n); auto I = perm(s, int(R.size())), J = perm(s, int(C.size())); RM e = pickRM(m, induced(I, R), induced(J, C)); M B = A.blockPermute(mkv(s, I), mkv(s, J), mkv(s, R), mkv(s, C)); same(B, e, "block permutation");
                std::vector<int> Ii(I.size()), Ji(J.size()), Rp(R.size()), Cp(C.size()); for (size_t i = 0; i < I.size(); i++) { Ii[I[i]] = int(i); Rp[i] = R[I[i]]; } for (size_t j = 0; j < J.size(); j++) { Ji[J[j]] = int(j); Cp[j] = C[J[j]]; } M D = B.blockPermute(mkv(s, Ii), mkv(s, Ji), mkv(s, Rp), mkv(s, Cp)); same(D, m, "block permutation and its inverse"); if (R.size() > 1) c.tag("blocks"); break; }
            default: { int k = s.range(1, 4); std::vector<M> ds; std::vector<RM> rs; int tr = 0, tc = 0; for (int q = 0; q < k; q++) { RM e = genRM(s, s.range(s.chance(6) ? 0 : 1, 4), s.range(s.chance(6) ? 0 : 1, 4)); if (e.a.empty()) c.tag("empty block"); rs.push_back(e); ds.push_back(mk(s, e)); tr += e.r; tc += e.c; } RM e = rm(tr, tc); int x = 0, y = 0; for (auto& q : rs) { for (int i = 0; i < q.r; i++) for (int j = 0; j < q.c; j++) e.at(x + i, y + j) = q.at(i, j); x += q.r; y += q.c; } M D = EF::blockDiagonalMatrix(ds); same(D, e, "block diagonal"); for (int q = 0; q < k; q++) same(ds[q], rs[q], "block diagonal source"); }
        }
        same(A, m, "matrix after op " + to_string(op));
    }
}
static void vec_index(Src& s, Ctx& c) {
    int n = dim(s, 30, 400); RV v = genRV(s, n); for (int i = 0; i < n; i++) v[i] += 100*i; V x = mkv(s, v); c.desc << show(v); c.nontrivial = n > 2;
    auto I = perm(s, n); std::vector<int> Ii(n); RV e(n); for (int i = 0; i < n; i++) { Ii[I[i]] = i; e[i] = v[I[i]]; } V y = x.getFromIndexSet(mkv(s, I)), y2 = x(mkv(s, I)), z = y(mkv(s, Ii)); same(y, e, "permutation"); same(y2, e, "permutation ()"); same(z, v, "permutation and inverse");
    auto S = parts(s, n); auto P = perm(s, int(S.size())); auto ip = induced(P, S); for (int i = 0; i < n; i++) e[i] = v[ip[i]]; V b = x.blockPermute(mkv(s, P), mkv(s, S)); same(b, e, "block permutation"); std::vector<int> Pi(P.size()), Sp(P.size()); for (size_t i = 0; i < P.size(); i++) { Pi[P[i]] = int(i); Sp[i] = S[P[i]]; }
    V b2 = b.blockPermute(mkv(s, Pi), mkv(s, Sp)); same(b2, v, "block permutation and inverse"); int k = s.range(1, n); std::vector<int> J(k); RV f(k); for (int i = 0; i < k; i++) { J[i] = s.range(0, n - 1); f[i] = v[J[i]]; } V w = x(mkv(s, J)); same(w, f, "index set"); same(x, v, "source vector");
}

// ---- C18 ------------------------------------------------------------------------------------
template<class T> static T val(Src& s) { return T(value(s)); }
template<class T> static void vec_seq(Src& s, Ctx& c) {
    using W = EF::Vector<T>; const int K = 3; std::vector<T> m[K]; W x[K]; int n0 = s.range(0, 8), cap = 60; if (s.chance(2)) { n0 = s.range(100, 1200); cap = 4000; c.tag("long"); } bool isint = std::is_integral<T>::value;
    auto gen = [&](int n) { std::vector<T> v(n); if (n > 60) { Src z = expand(s, n); for (auto& e : v) e = val<T>(z); } else for (auto& e : v) e = val<T>(s); return v; };
    for (int k = 0; k < K; k++) { m[k] = gen(s.chance(60) ? n0 : s.range(0, 12)); x[k] = mkv<T>(s, m[k]); c.desc << " v" << k << "=" << show(m[k]); }
    int ops = s.range(4, 25), edits = 0;
    for (int o = 0; o < ops; o++) {
        int p = s.range(0, K - 1), q = s.range(0, K - 1), r = s.range(0, K - 1), op = s.range(0, 22); T t = val<T>(s); bool conf = m[p].size() == m[q].size(); int n = int(m[p].size()); string what = "op " + to_string(op) + " on " + show(m[p]) + " and " + show(m[q]) + " with " + vf::num(t); c.desc << "; " << op << "(" << p << "," << q << "->" << r << ")";
        double big = 0; for (auto e : m[p]) big = std::max(big, std::fabs(double(e))); double bq = 0; for (auto e : m[q]) bq = std::max(bq, std::fabs(double(e)));
        auto put = [&](W res, std::vector<T> e) { same(res, e, what); x[r] = res; m[r] = e; };
        auto lim = [&](double z) { return z < (isint ? 1e6 : 1e9); };
        std::vector<T> e;
        switch (op) {
            case 0: if (n) { int i = s.range(0, n - 1); m[p][i] = t; int how = s.range(0, 2); if (how == 0) x[p][i] = t; else if (how == 1) x[p](i) = t; else x[p].dataPointer()[i] = t; edits++; } break;
            case 1: if (n + m[q].size() <= size_t(cap)) { e = m[q]; m[p].insert(m[p].end(), e.begin(), e.end()); x[p].append(x[q]); edits++; } break;
            case 2: if (n) { int a = s.range(0, n - 1), b = s.chance(25) ? n - 1 : s.range(a, n - 1); e.assign(m[p].begin() + a, m[p].begin() + b + 1); W z = x[p].getRange(a, b), y = x[p](a, b); same(y, e, what + " (range access)"); put(z, e); } break;
            case 3: { int a = s.range(0, n), l = s.chance(25) ? n - a : s.range(0, n - a); e.assign(m[p].begin() + a, m[p].begin() + a + l); put(x[p].getSegment(a, l), e); break; }
            case 4: if (int(m[q].size()) <= n && p != q) { int a = s.range(0, n - int(m[q].size())); for (size_t i = 0; i < m[q].size(); i++) m[p][a + i] = m[q][i]; x[p].setSegment(a, x[q]); edits++; } break;
            case 5: if (n) { std::vector<int> I(s.range(1, n)); for (auto& i : I) { i = s.range(0, n - 1); e.push_back(m[p][i]); } put(x[p].getFromIndexSet(mkv<int>(s, I)), e); } break;
            case 6: case 7: if (!conf) { if (!throws([&] { W z = op == 6 ? x[p] + x[q] : x[p] - x[q]; })) fail("reject", what + ": sizes differ but accepted"); } else if (lim(big + bq)) { e = m[p]; for (int i = 0; i < n; i++) e[i] += op == 6 ? m[q][i] : -m[q][i]; put(op == 6 ? x[p] + x[q] : x[p] - x[q], e); } break;
            case 8: case 9: if (!conf) { if (!throws([&] { if (op == 8) x[p] += x[q]; else x[p] -= x[q]; })) fail("reject", what + ": sizes differ but accepted"); } else if (lim(big + bq)) { e = m[q]; for (int i = 0; i < n; i++) m[p][i] += op == 8 ? e[i] : -e[i]; if (op == 8) x[p] += x[q]; else x[p] -= x[q]; edits++; } break;
            case 10: if (lim(big)) { e = m[p]; for (auto& z : e) z += t; put(x[p] + t, e); } break;
            case 11: if (lim(big)) { e = m[p]; for (auto& z : e) z -= t; put(x[p] - t, e); } break;
            case 12: if (lim(big)) { for (auto& z : m[p]) z += t; x[p] += t; edits++; } break;
            case 13: if (lim(big)) { for (auto& z : m[p]) z -= t; x[p] -= t; edits++; } break;
            case 14: if (lim(big*10)) { for (auto& z : m[p]) z *= t; x[p] *= t; edits++; } break;
            case 15: if (t != T(0)) { for (auto& z : m[p]) z /= t; x[p] /= t; edits++; } break;
            case 16: e = m[p]; for (auto& z : e) z = -z; put(-x[p], e); break;
            case 17: if (lim(big*10)) { e = m[p]; for (auto& z : e) z = t*z; put(t*x[p], e); } break;
            case 18: if (!conf) { if (!throws([&] { x[p].operator*(x[q]); }) || !throws([&] { EF::operator*(x[p], x[q]); }) || !throws([&] { EF::operator/(x[p], x[q]); }) || !throws([&] { EF::vectorInfNorm(x[p], x[q]); }) || !throws([&] { EF::vectorL2Norm(x[p], x[q]); })) fail("reject", what + ": sizes differ but accepted"); }
                else if (lim(big*bq*60)) { double d = 0, mx = 0, l2 = 0; for (int i = 0; i < n; i++) { d += double(m[p][i])*double(m[q][i]); double f = std::fabs(double(m[p][i]) - double(m[q][i])); mx = std::max(mx, f); l2 += f*f; } double sc = 1e-12*(1 + big*bq*n); double g = x[p].operator*(x[q]); if (!(std::fabs(g - d) <= sc)) fail("dot", what + ": inner product " + vf::num(g) + " instead of " + vf::num(d));
                    if (EF::vectorInfNorm(x[p], x[q]) != mx) fail("norm", what + ": largest difference"); if (!(std::fabs(EF::vectorL2Norm(x[p], x[q]) - std::sqrt(l2)) <= 1e-12*(1 + std::sqrt(l2)))) fail("norm", what + ": two-norm of the difference");
                    if (n && !std::is_integral<T>::value) { W y(x[p]); int i = s.range(0, n - 1); T t = T(double(m[p][i]) + std::ldexp(1.0, -s.range(10, 40))); y[i] = t; double want = std::fabs(double(m[p][i]) - double(t)); if (EF::vectorInfNorm(x[p], y) != want || EF::vectorInfNorm(y, x[p]) != want || !(std::fabs(EF::vectorL2Norm(x[p], y) - want) <= 1e-12*want)) fail("norm", what + ": norms of a difference of " + vf::num(want) + " in one entry"); }
                    for (int i = 0; i < n; i++) e.push_back(m[p][i]*m[q][i]); put(EF::operator*(x[p], x[q]), e); } break;
            case 19: { bool ok = conf; for (auto z : m[q]) if (z == T(0)) ok = false; if (ok) { for (int i = 0; i < n; i++) e.push_back(m[p][i]/m[q][i]); put(EF::operator/(x[p], x[q]), e); } break; }
            case 20: { std::vector<W> vs; int k = s.chance(15) ? s.range(4, 9) : s.range(0, 3); for (int i = 0; i < k; i++) { int w = s.range(0, K - 1); if (e.size() + m[w].size() > size_t(cap)) continue; vs.push_back(x[w]); e.insert(e.end(), m[w].begin(), m[w].end()); } put(EF::concatenate(vs), e); if (e.size() + 2 < size_t(cap) && m[p].size() + m[q].size() < size_t(cap)) { e = m[p]; e.insert(e.end(), m[q].begin(), m[q].end()); put(EF::concatenate({x[p], x[q]}), e); } break; }
            case 21: { W z(x[p]); const W& cx = x[q]; W y(cx); same(z, m[p], "copy"); same(y, m[q], "copy of const"); z += T(1); y.append(z); x[r] = x[p]; m[r] = m[p]; if (n && r != p) { x[r][0] += T(1); m[r][0] += T(1); edits++; } break; }
            default: if (n) { // scalar taken from the vector itself
                int i = s.range(0, n - 1), how = s.range(0, 3); T f = m[p][i]; if (how == 0 && lim(2*big)) { for (auto& z : m[p]) z += f; x[p] += x[p][i]; } else if (how == 1 && lim(2*big)) { for (auto& z : m[p]) z -= f; x[p] -= x[p][i]; } else if (how == 2 && std::fabs(double(f)) <= 20 && lim(big*20)) { for (auto& z : m[p]) z *= f; x[p] *= x[p][i]; } else if (how == 3 && f != T(0)) { for (auto& z : m[p]) z /= f; x[p] /= x[p][i]; } edits++; }
        }
        for (int k = 0; k < K; k++) { same(x[k], m[k], "vector " + to_string(k) + " after " + what); m[k] = x[k].data(); if (m[k].size()) { T mn = *std::min_element(m[k].begin(), m[k].end()), mx = *std::max_element(m[k].begin(), m[k].end()); double a = std::stod(x[k].getRangeMin()), b = std::stod(x[k].getRangeMax()); if (!(std::fabs(a - mn) <= 1e-6*std::max(1.0, std::fabs(double(mn)))) || !(std::fabs(b - mx) <= 1e-6*std::max(1.0, std::fabs(double(mx))))) fail("range", "reported range [" + vf::num(a) + "," + vf::num(b) + "] of " + show(m[k])); } }
    }
    int a = s.sint(20), b = a + s.range(0, 20); std::vector<int> vr; for (int i = a; i <= b; i++) vr.push_back(i); VI z = EF::vectorRange(a, b); same(z, vr, "integer range"); c.nontrivial = edits >= 2; c.tag(isint ? "int" : "double");
}
static void vec_sequence(Src& s, Ctx& c) { if (s.chance(25)) vec_seq<int>(s, c); else vec_seq<double>(s, c); }

// ---- C19 ------------------------------------------------------------------------------------
static size_t index(Src& s, int n) { switch (s.range(0, 9)) { case 0: return 0; case 1: return n - 1; case 2: return n; case 3: return n + 1; case 4: return size_t(-1); case 5: return size_t(-s.range(1, 5)); case 6: return size_t(n + s.range(0, 200)); case 7: return size_t(1) << s.range(31, 63); default: return s.range(0, n - 1); } }
static void reject(Src& s, Ctx& c) {
    int r = dim(s, 9, 60), n = dim(s, 9, 60); RM m = genRM(s, r, n); RV v = genRV(s, n); M A = mk(s, m); V x = mkv(s, v); int ops = s.range(1, 10), bad = 0, good = 0; size_t N = n, R = r;
    c.desc << "vector " << n << ", matrix " << r << "x" << n << ":";
    for (int o = 0; o < ops; o++) {
        int op = s.range(0, 21); size_t i = index(s, n), j = index(s, n), k = index(s, r), l = index(s, r); bool ok = true, th = false; string what; const V& cx = x;
        auto L = [](size_t a) { return to_string((long long) a); };
        auto seg = [](size_t a, size_t len, size_t n) { return a <= n && len <= n - a; };
        switch (op) {
            case 0: what = "v[" + L(i) + "]"; ok = i < N; th = throws([&] { double z = x[i]; if (z != v[i]) fail("value", what); }); break;
            case 1: what = "const v[" + L(i) + "]"; ok = i < N; th = throws([&] { double z = cx[i]; if (z != v[i]) fail("value", what); }); break;
            case 2: what = "v(" + L(i) + ")"; ok = i < N; th = throws([&] { double z = x(i); if (z != v[i]) fail("value", what); }); break;
            case 3: what = "v.getEntry(" + L(i) + ")"; ok = i < N; th = throws([&] { double z = x.getEntry(i); if (z != v[i]) fail("value", what); }); break;
            case 4: what = "v[" + L(i) + "] = 5"; ok = i < N; th = throws([&] { x[i] = 5; }); if (ok) v[i] = 5; break;
            case 5: case 6: if (i < N && j < i && s.chance(60)) { std::swap(i, j); } what = "v.getRange(" + L(i) + "," + L(j) + ")"; ok = i <= j && j < N; th = throws([&] { V z = op == 5 ? x.getRange(i, j) : x(i, j); if (ok) { RV e(v.begin() + i, v.begin() + j + 1); same(z, e, what); } }); break;
            case 7: what = "v.getSegment(" + L(i) + "," + L(j) + ")"; ok = seg(i, j, N); th = throws([&] { V z = x.getSegment(i, j); if (ok) { RV e(v.begin() + i, v.begin() + i + j); same(z, e, what); } }); break;
            case 8: { int q = s.range(1, n + 2); RV e = genRV(s, q); V z = mkv(s, e); what = "v.setSegment(" + L(i) + ", " + to_string(q) + ")"; ok = seg(i, q, N); th = throws([&] { x.setSegment(i, z); }); if (ok) for (int t = 0; t < q; t++) v[i + t] = e[t]; break; }
            case 9: { int q = s.range(1, n); std::vector<int> I(q); RV e; for (auto& t : I) { t = s.range(0, n - 1); } if (s.chance(60)) { int bads[] = {n, n + 1, -1, -2, n + 100, 1 << 30, -(1 << 30)}; I[s.range(0, q - 1)] = bads[s.range(0, 6)]; } for (int t : I) { if (t < 0 || t >= n) ok = false; } what = "v(I), I=" + show(I); bool alt = s.chance(50); VI vi = mkv(s, I); th = throws([&] { V z = alt ? x.getFromIndexSet(vi) : x(vi); if (ok) { for (int t : I) e.push_back(v[t]); same(z, e, what); } }); break; }
            case 10: what = "A(" + L(k) + "," + L(j) + ")"; ok = k < R && j < N; th = throws([&] { double z = A(k, j); if (z != m.at(int(k), int(j))) fail("value", what); }); break;
            case 11: what = "A.getEntry(" + L(k) + "," + L(j) + ")"; ok = k < R && j < N; th = throws([&] { double z = A.getEntry(k, j); if (z != m.at(int(k), int(j))) fail("value", what); }); break;
            case 12: what = "A(" + L(k) + "," + L(j) + ") = 4"; ok = k < R && j < N; th = throws([&] { A(k, j) = 4; }); if (ok) m.at(int(k), int(j)) = 4; break;
            case 13: { size_t a = s.range(0, r - 1), b = a + s.range(0, 3), p = s.range(0, n - 1), q = p + s.range(0, 3); if (s.chance(15)) b = s.range(0, r - 1); if (s.chance(15)) q = s.range(0, n - 1); if (s.chance(8)) b = l; if (s.chance(8)) q = i; if (s.chance(8)) a = k; if (s.chance(8)) p = j; what = "A(" + L(a) + ":" + L(b) + "," + L(p) + ":" + L(q) + ")"; ok = a <= b && b < R && p <= q && q < N; th = throws([&] { M z = A(a, b, p, q); if (ok) { RM e = rm(int(b - a + 1), int(q - p + 1)); for (int t = 0; t < e.r; t++) for (int u = 0; u < e.c; u++) e.at(t, u) = m.at(int(a) + t, int(p) + u); same(z, e, what); } }); break; }
            case 14: what = "A.getRow(" + L(k) + ")"; ok = k < R; th = throws([&] { V z = A.getRow(k); if (ok) { RV e(n); for (int t = 0; t < n; t++) e[t] = m.at(int(k), t); same(z, e, what); } }); break;
            case 15: what = "A.getCol(" + L(j) + ")"; ok = j < N; th = throws([&] { V z = A.getCol(j); if (ok) { RV e(r); for (int t = 0; t < r; t++) e[t] = m.at(t, int(j)); same(z, e, what); } }); break;
            case 16: { int len = s.chance(70) ? n : s.range(1, n + 2); RV e = genRV(s, len); V z = mkv(s, e); what = "A.setRow(" + L(k) + ", " + to_string(len) + ")"; ok = k < R && len == n; th = throws([&] { A.setRow(k, z); }); if (ok) for (int t = 0; t < n; t++) m.at(int(k), t) = e[t]; break; }
            case 17: { int len = s.chance(70) ? r : s.range(1, r + 2); RV e = genRV(s, len); V z = mkv(s, e); what = "A.setColumn(" + L(j) + ", " + to_string(len) + ")"; ok = j < N && len == r; th = throws([&] { A.setColumn(j, z); }); if (ok) for (int t = 0; t < r; t++) m.at(t, int(j)) = e[t]; break; }
            case 18: { size_t a = s.chance(70) ? size_t(s.range(1, r + 1)) : l, b = s.chance(70) ? size_t(s.range(1, n + 1)) : i; what = "A.getBlock(" + L(k) + "," + L(j) + "," + L(a) + "," + L(b) + ")"; ok = seg(k, a, R) && seg(j, b, N); if (a == 0 || b == 0) { ok = true; th = false; break; } th = throws([&] { M z = A.getBlock(k, j, a, b); if (ok) { RM e = rm(int(a), int(b)); for (int t = 0; t < e.r; t++) for (int u = 0; u < e.c; u++) e.at(t, u) = m.at(int(k) + t, int(j) + u); same(z, e, what); } }); break; }
            case 19: { RM e = genRM(s, s.range(1, r + 1), s.range(1, n + 1)); M z = mk(s, e); what = "A.setBlock(" + L(k) + "," + L(j) + "," + show(e) + ")"; ok = seg(k, e.r, R) && seg(j, e.c, N); th = throws([&] { A.setBlock(k, j, z); }); if (ok) for (int t = 0; t < e.r; t++) for (int u = 0; u < e.c; u++) m.at(int(k) + t, int(j) + u) = e.at(t, u); break; }
            case 20: { // block permutations: sizes that do not add up, blocks that do not exist
                auto cut = [&](int len) { std::vector<int> z; while (len > 0) { int q = s.range(1, std::min(len, 6)); z.push_back(q); len -= q; } return z; }; auto order = [&](size_t k) { std::vector<int> z(k); for (size_t t = 0; t < k; t++) z[t] = int(t); for (size_t t = k; t > 1; t--) std::swap(z[t - 1], z[s.range(0, int(t) - 1)]); return z; };
                std::vector<int> Rs = cut(r), Cs = cut(n), Ir = order(Rs.size()), Ic = order(Cs.size()); int how = s.range(0, 7); bool onv = s.chance(50); auto& sz = onv || s.chance(50) ? Cs : Rs; auto& id = &sz == &Cs ? Ic : Ir; int at = s.range(0, int(sz.size()) - 1);
                if (how == 1) sz[at] += s.range(1, 3); else if (how == 2 && sz[at] > 1) sz[at]--; else if (how == 3) sz.push_back(s.range(1, 4)); else if (how == 4) sz.pop_back(); else if (how == 5) { int bads[] = {int(sz.size()), int(sz.size()) + 3, -1, -4}; id[at] = bads[s.range(0, 3)]; } 
                auto sum = [](std::vector<int>& z) { int q = 0; for (int t : z) q += t; return q; }; ok = how != 5 && sum(Cs) == n && (onv || sum(Rs) == r); what = "blockPermute, sizes " + show(Cs) + (onv ? "" : " and " + show(Rs)) + ", blocks " + show(Ic) + (onv ? "" : " and " + show(Ir));
                VI vr = mkv(s, Rs), vc = mkv(s, Cs), wr = mkv(s, Ir), wc = mkv(s, Ic); th = throws([&] { if (onv) { V z = x.blockPermute(wc, vc); } else { M z = A.blockPermute(wr, wc, vr, vc); } }); break; }
            default: { std::vector<int> I(s.range(1, r)), J(s.range(1, n)); for (auto& t : I) t = s.range(0, r - 1); for (auto& t : J) t = s.range(0, n - 1); if (s.chance(30)) { int bads[] = {r, r + 1, -1, -3, r + 50, 1 << 30}; I[s.range(0, int(I.size()) - 1)] = bads[s.range(0, 5)]; } if (s.chance(30)) { int bads[] = {n, n + 1, -1, -3, n + 50, 1 << 30}; J[s.range(0, int(J.size()) - 1)] = bads[s.range(0, 5)]; }
                for (int t : I) if (t < 0 || t >= r) ok = false; for (int t : J) if (t < 0 || t >= n) ok = false; what = "A(I,J), I=" + show(I) + " J=" + show(J); VI vi = mkv(s, I), vj = mkv(s, J); bool alt = s.chance(50); th = throws([&] { M z = alt ? A.getFromIndexSet(vi, vj) : A(vi, vj); if (ok) { RM e = pickRM(m, I, J); same(z, e, what); } }); }
        }
        c.desc << " " << what; (ok ? good : bad)++;
        if (ok && th) fail("refused", what + " was rejected but is inside (" + to_string(r) + "x" + to_string(n) + ")"); if (!ok && !th) fail("accepted", what + " was accepted but is outside (" + to_string(r) + "x" + to_string(n) + ")");
        same(A, m, "matrix after " + what); same(x, v, "vector after " + what);
    }
    c.nontrivial = bad > 0 && good > 0;
}

// ---- C20 ------------------------------------------------------------------------------------
static void interp_ops(Src& s, Ctx& c) {
    int n = s.chance(70) ? s.range(1, 12) : s.chance(90) ? s.range(1, 80) : s.range(80, 200); c.desc << "n=" << n; c.nontrivial = n >= 2; c.tag(n < 4 ? "n=" + to_string(n) : "n>=4");
    EF::InterpolationMatrixFine2Coarse<double> F(n); EF::InterpolationMatrixCoarse2Fine<double> C(2*n); RM f = rm(n, 2*n), g = rm(2*n, n); for (int i = 0; i < n; i++) f.at(i, 2*i) = f.at(i, 2*i + 1) = 0.5;
    for (int i = 0; i < n; i++) { if (i > 0) { g.at(2*i, i - 1) = 0.25; g.at(2*i, i) = 0.75; } if (i < n - 1) { g.at(2*i + 1, i) = 0.75; g.at(2*i + 1, i + 1) = 0.25; } }
    same(F, f, "fine-to-coarse"); if (int(C.nrows()) != 2*n || int(C.ncols()) != n) fail("shape", "coarse-to-fine shape"); for (int i = 1; i < 2*n - 1; i++) for (int j = 0; j < n; j++) if (C(i, j) != g.at(i, j)) fail("weights", "coarse-to-fine interior weight (" + to_string(i) + "," + to_string(j) + ") = " + vf::num(C(i, j)));
    for (int j = 0; j < n; j++) if (C(0, j) != C(2*n - 1, n - 1 - j)) fail("mirror", "end weights are not mirrored, n=" + to_string(n));
    double c0 = s.sint(8), c1 = s.sint(8)/4.0, c2 = s.sint(4)/8.0; auto poly = [&](double x) { return c0 + (n >= 2 ? c1*x : 0); }; V u(n); for (int i = 0; i < n; i++) u[i] = poly(i + 0.5); V w = C*u; for (int i = 0; i < 2*n; i++) if (!(std::fabs(w[i] - poly((i + 0.5)/2)) <= 1e-11*(1 + std::fabs(c0) + n*std::fabs(c1)))) fail("linear", "straight line not reproduced at fine point " + to_string(i) + " of " + to_string(2*n));
    V back = F*w; for (int i = 0; i < n; i++) if (!(std::fabs(back[i] - u[i]) <= 1e-11*(1 + std::fabs(c0) + n*std::fabs(c1)))) fail("average", "averages of an interpolated line differ from it");
    if (n >= 3) { auto q = [&](double x) { return c0 + c1*x + c2*x*x; }; for (int i = 0; i < n; i++) u[i] = q(i + 0.5); w = C*u; for (int e = 0; e < 2; e++) { int i = e ? 2*n - 1 : 0; if (!(std::fabs(w[i] - q((i + 0.5)/2)) <= 1e-10*(1 + std::fabs(c0) + n*std::fabs(c1) + n*n*std::fabs(c2)))) fail("quadratic", "end value of a parabola not reproduced, n=" + to_string(n)); } }
    RV fine = genRV(s, 2*n); V fv = mkv(s, fine), cv = F*fv; for (int i = 0; i < n; i++) if (!(std::fabs(cv[i] - 0.5*(fine[2*i] + fine[2*i + 1])) <= 1e-12*100)) fail("pairs", "fine-to-coarse is not the pair average");
    EF::IdentityMatrix<double> I(n); RM id = rm(n, n); for (int i = 0; i < n; i++) id.at(i, i) = 1; same(I, id, "identity"); RV d = genRV(s, n); EF::DiagonalMatrix<double> D(mkv(s, d)); for (int i = 0; i < n; i++) id.at(i, i) = d[i]; same(D, id, "diagonal");
    int k = s.range(1, 4); std::vector<M> bl(k, C); M B = EF::blockDiagonalMatrix(bl); RM be = rm(2*n*k, n*k); for (int q = 0; q < k; q++) for (int i = 0; i < 2*n; i++) for (int j = 0; j < n; j++) be.at(2*n*q + i, n*q + j) = C(i, j); same(B, be, "block diagonal of interpolation matrices");
    EF::ParallelIdentityMatrix<double> PI(MPI_COMM_WORLD, n); if (PI.globalRows() != n || PI.globalCols() != n) fail("identity", "distributed identity shape"); PetscInt lo = 0, hi = 0; MatGetOwnershipRange(PI.mat, &lo, &hi); for (int i = lo; i < hi; i++) { PetscInt cols = i; PetscScalar z = 0; Vec a, b; (void) cols; MatCreateVecs(PI.mat, &a, &b); VecSetValue(a, i, 3.0, INSERT_VALUES); VecAssemblyBegin(a); VecAssemblyEnd(a); MatMult(PI.mat, a, b); PetscInt ii = i; VecGetValues(b, 1, &ii, &z); PetscReal nb; VecNorm(b, NORM_1, &nb); VecDestroy(&a); VecDestroy(&b); if (z != 3.0 || nb != 3.0) fail("identity", "distributed identity row " + to_string(i)); if (i > 3) break; }
}

// ---- C21 ------------------------------------------------------------------------------------
static void interpolant(Src& s, Ctx& c) {
    int n = s.chance(20) ? 2 : s.range(2, s.chance(80) ? 12 : s.chance(80) ? 80 : 400); bool down = s.chance(30); RV x(n), y(n); double t = s.sint(40)/4.0; for (int i = 0; i < n; i++) { x[i] = t; t += 0.125*s.range(1, 24); y[i] = value(s); } if (down) { std::reverse(x.begin(), x.end()); std::reverse(y.begin(), y.end()); } double len = 1; if (s.chance(25)) { len = std::pow(2.0, 4*s.sint(12)); for (auto& z : x) z *= len; c.tag("rescaled abscissae"); }
    V X = mkv(s, x), Y = mkv(s, y); EF::LinearInterpolant f(X, Y); c.desc << (down ? "descending " : "") << show(x) << " " << show(y); int k = s.range(1, 40); RV q(k), e(k); bool outside = false, last = false;
    for (int i = 0; i < k; i++) { int how = s.range(0, 4), j = s.range(0, n - 1); double a = std::min(x[0], x[n - 1]), b = std::max(x[0], x[n - 1]);
        if (how == 0) q[i] = x[j]; else if (how == 1) q[i] = a - 0.25*len*s.range(1, 20); else if (how == 2) q[i] = b + 0.25*len*s.range(1, 20); else if (how == 3) { int h = std::min(j, n - 2); q[i] = x[h] + (x[h + 1] - x[h])*s.range(1, 15)/16.0; } else q[i] = a + (b - a)*s.pos_real(0, 1);
        int h = 0; if (!down) { while (h < n - 2 && q[i] >= x[h + 1]) h++; } else { while (h < n - 2 && q[i] <= x[h + 1]) h++; } e[i] = y[h] + (q[i] - x[h])/(x[h + 1] - x[h])*(y[h + 1] - y[h]); if (q[i] < a || q[i] > b) outside = true; if (h == n - 2) last = true; }
    double big = 0; for (double z : e) big = std::max(big, std::fabs(z)); double tol = 1e-11*(1 + big); int order = s.range(0, 2);
    for (int r = 0; r < 2; r++) { if (order != r) { for (int i = 0; i < k; i++) { double z = f(q[i]); if (!(std::fabs(z - e[i]) <= tol)) fail("value", "value at " + vf::num(q[i]) + " is " + vf::num(z) + " instead of " + vf::num(e[i])); } } else { V Q = mkv(s, q), z = f(Q); if (int(z.size()) != k) fail("size", "vector evaluation size"); for (int i = 0; i < k; i++) if (!(std::fabs(z[i] - e[i]) <= tol)) fail("value", "vector value at " + vf::num(q[i]) + " is " + vf::num(z[i]) + " instead of " + vf::num(e[i])); same(Q, q, "query vector"); } }
    same(X, x, "abscissae"); same(Y, y, "ordinates"); c.nontrivial = n > 2 && k > 3; if (outside) c.tag("outside"); if (last) c.tag("last interval"); if (down) c.tag("descending");
    // inserting a point of the same function changes nothing
    int h = s.range(0, n - 2); RV x2 = x, y2 = y; double xm = 0.5*(x[h] + x[h + 1]); x2.insert(x2.begin() + h + 1, xm); y2.insert(y2.begin() + h + 1, 0.5*(y[h] + y[h + 1])); V X2 = mkv(s, x2), Y2 = mkv(s, y2); EF::LinearInterpolant g(X2, Y2); for (int i = 0; i < k; i++) if (!(std::fabs(g(q[i]) - e[i]) <= tol)) fail("insert", "value at " + vf::num(q[i]) + " changes when a point of the same function is added");
    V one(1, 2.0), onev(1, 3.0); EF::LinearInterpolant bad(one, onev); if (!throws([&] { bad(1.0); })) fail("reject", "a single data point was accepted");
}

int main(int argc, char** argv) {
    vf::Session S(argc, argv);
    return rig::run(argc, argv, {
        {"mat_algebra", 900, mat_algebra, "at least one operation on a rectangular matrix"}, {"mat_solve", 700, mat_solve, "order above one and several right-hand sides"},
        {"mat_index", 500, mat_index, "rectangular with more than one row and column"}, {"vec_index", 300, vec_index, "more than two entries"},
        {"vec_sequence", 400, vec_sequence, "at least two in-place edits in the sequence"}, {"reject", 400, reject, "at least one invalid and one valid call"},
        {"interp_ops", 250, interp_ops, "at least two coarse points"}, {"interpolant", 300, interpolant, "more than two data points and more than three queries"},
    });
}
