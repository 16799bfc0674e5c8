// C07 C08(patch) C12: single patches, grids, node families.
#include "hps.hpp"
using namespace vf; using rig::Src; using rig::Ctx; using rig::fail; using std::string; using std::to_string;
using V = EF::Vector<double>; using M = EF::Matrix<double>;

static double arb(Src& s) { return s.real(8); }
static V randomVec(Src& s, int n) { V v(n); for (int i = 0; i < n; i++) v[i] = arb(s); return v; }
static double vmax(const V& v) { double m = 0; if (rig::current) for (size_t i = 0; i < v.size(); i++) rig::current->mix(v[i]); for (size_t i = 0; i < v.size(); i++) m = std::isfinite(v[i]) ? std::max(m, std::fabs(v[i])) : INFINITY; return m; }

struct Setting { Box b; int n; Pde p; V g, f; };
// dense, independent assembly: returns A (column major) and the terms needed for condition and residual
static double patchCondition(const Setting& t, std::vector<double>* sol) {
    int n = t.n, N = n*n, nr, info; double dx = t.b.w()/n, dy = t.b.h()/n; std::vector<double> A(size_t(N)*N, 0.0), R(size_t(N)*(N + 1), 0.0); std::vector<int> piv(N);
    for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) { double x = t.b.xl + (i + 0.5)*dx, y = t.b.yl + (j + 0.5)*dy, a = t.p.alpha(x, y), c = t.p.lambda(x, y); int r = j + i*n; double rhs = t.f[r];
        double bw = a*t.p.beta(x - dx/2, y)/(dx*dx), be = a*t.p.beta(x + dx/2, y)/(dx*dx), bs = a*t.p.beta(x, y - dy/2)/(dy*dy), bn = a*t.p.beta(x, y + dy/2)/(dy*dy);
        auto put = [&](bool in, int q, double w, double gv) { if (in) { A[size_t(q)*N + r] += w; c -= w; } else { c -= 2*w; rhs -= 2*w*gv; } };
        put(i > 0, r - n, bw, t.g[j]); put(i < n - 1, r + n, be, t.g[n + j]); put(j > 0, r - 1, bs, t.g[2*n + i]); put(j < n - 1, r + 1, bn, t.g[3*n + i]); A[size_t(r)*N + r] += c; R[r] = rhs; R[size_t(r + 1)*N + r] = 1; }
    double na = 0, ni = 0; for (int r = 0; r < N; r++) { double q = 0; for (int k = 0; k < N; k++) q += std::fabs(A[size_t(k)*N + r]); na = std::max(na, q); } nr = N + 1; dgesv_(&N, &nr, A.data(), &N, piv.data(), R.data(), &N, &info); if (info) return INFINITY;
    for (int r = 0; r < N; r++) { double q = 0; for (int k = 0; k < N; k++) q += std::fabs(R[size_t(k + 1)*N + r]); ni = std::max(ni, q); } if (sol) sol->assign(R.begin(), R.begin() + N); return na*ni;
}
static Setting genSetting(Src& s, int nmax) {
    Setting t; t.b = scaledBox(s); t.n = s.range(2, nmax); if (nmax > 5 && s.chance(2)) t.n = s.range(nmax, 20); if (nmax > 5 && s.range(0, 999) == 999) t.n = s.range(21, 33); t.p = genPde(s, t.b, true);
    if (s.chance(15)) { t.p.lam0 = 10.0*(1/(t.b.w()*t.b.w()) + 1/(t.b.h()*t.b.h()))*t.p.alpha.lo*t.p.beta.lo*(1.1 + s.range(0, 60)*0.37); t.p.lamkind = 1; }
    t.g = randomVec(s, 4*t.n); t.f = randomVec(s, t.n*t.n); double sc = 10.0*(1/(t.b.w()*t.b.w()) + 1/(t.b.h()*t.b.h())); if (s.chance(20)) { int how = s.range(0, 3), n2 = t.n*t.n, p = s.range(0, n2 - 1), q = s.range(0, n2 - 1); for (int i = 0; i < n2; i++) t.f[i] = how == 1 ? ((i/t.n + i % t.n) % 2 ? -0.5 : 0.5) : 0; if (how == 2) { t.f[p] += 1; t.f[q] -= 1; } if (how == 3) t.f[p] = 1; } if (s.chance(8)) for (int i = 0; i < 4*t.n; i++) t.g[i] = 0; for (int i = 0; i < t.n*t.n; i++) t.f[i] *= sc; return t;
}
static V sides(const Setting& t, const V& u, const V& g) {
    int n = t.n; double dx = t.b.w()/n, dy = t.b.h()/n; V h(4*n); for (int k = 0; k < n; k++) { h[k] = 2/dx*(u[k] - g[k]); h[n + k] = 2/dx*(g[n + k] - u[(n - 1)*n + k]); h[2*n + k] = 2/dy*(u[k*n] - g[2*n + k]); h[3*n + k] = 2/dy*(g[3*n + k] - u[k*n + n - 1]); } return h;
}
static double dist(const V& a, const V& b) { if (a.size() != b.size()) return INFINITY; double m = 0; for (size_t i = 0; i < a.size(); i++) { double d = std::fabs(a[i] - b[i]); if (!(d <= m)) m = std::isnan(d) ? INFINITY : d; } return m; }

// ---- C07 ------------------------------------------------------------------------------------
static void p_solve(Src& s, Ctx& c) {
    int k = s.range(1, 2); Solver sv; std::vector<Setting> ts; std::vector<V> us; double worst = 0;
    for (int q = 0; q < k; q++) ts.push_back(genSetting(s, k == 1 ? 9 : 5));
    for (int round = 0; round < (k == 1 ? 1 : 2); round++) for (int q = 0; q < k; q++) {
        Setting& t = ts[q]; int n = t.n; c.desc << (round ? " again" : "") << " n=" << n << " box=" << t.b.w() << "x" << t.b.h() << " " << t.p.str(); if (s.chance(30)) { auto cf = coef(t.p); sv = Solver(MPI_COMM_SELF, cf.alpha, cf.beta, cf.lambda, cf.f); if (sv.name() != "FiniteVolumeSolver") fail("name", "solver name"); } else configure(sv, t.p); Grid gr(MPI_COMM_WORLD, n, t.b.xl, t.b.xu, n, t.b.yl, t.b.yu);
        std::vector<double> ref; double cond = patchCondition(t, &ref); if (!(cond < 1e7)) { c.tag("ill-conditioned, skipped"); return; }
        double tol = 1e-9; c.tag("n=" + to_string(n)); if (!t.p.beta.constant()) c.nontrivial = true;
        V g = t.g, f = t.f, u = sv.solve(gr, g, f); if (dist(g, t.g) != 0 || dist(f, t.f) != 0) fail("inputs", "solve changed its inputs"); if (int(u.size()) != n*n) fail("size", "solution size");
        V rv(n*n); for (int i = 0; i < n*n; i++) rv[i] = ref[i]; double um = std::max(vmax(rv), 1e-9); worst = dist(u, rv)/um; c.maximum("error vs dense reference", worst); if (!(worst <= tol)) fail("five-point", "patch solution differs from the five-point solution by " + num(worst) + " (relative), n=" + to_string(n));
        V h0 = sides(t, rv, t.g); double hm = std::max({vmax(h0), 2*um/std::min(t.b.w(), t.b.h())*n, 1e-9}), e; V h = sv.mapD2N(gr, g, f); e = dist(h, h0)/hm; c.maximum("Neumann error", e); if (!(e <= tol)) fail("map", "mapped Neumann data differ by " + num(e) + " (relative)");
        M T = sv.buildD2N(gr); if (int(T.nrows()) != 4*n || int(T.ncols()) != 4*n) fail("size", "Dirichlet-to-Neumann matrix shape"); V part = sv.particularNeumannData(gr, f); if (int(part.size()) != 4*n) fail("size", "particular data size"); V lin = T*g, sum = lin + part; double big = std::max(hm, vmax(part)); e = dist(sum, h0)/big; c.maximum("T g + h error", e); if (!(e <= 10*tol)) fail("consistent", "T g + particular data differ from the Neumann data of the solution by " + num(e) + " (relative)");
        V zero(4*n, 0.0), fz(n*n, 0.0); Setting tz = t; tz.g = zero; std::vector<double> rz; patchCondition(tz, &rz); V rzv(n*n); for (int i = 0; i < n*n; i++) rzv[i] = rz[i]; V pz = sides(tz, rzv, zero); e = dist(part, pz)/std::max(vmax(pz), 1e-9); if (!(e <= tol)) fail("particular", "particular Neumann data differ by " + num(e)); 
        int col = s.range(0, 4*n - 1); V ej(4*n, 0.0); ej[col] = 1; Setting te = t; te.g = ej; te.f = fz; std::vector<double> re; patchCondition(te, &re); V rev(n*n); for (int i = 0; i < n*n; i++) rev[i] = re[i]; V he = sides(te, rev, ej), tc = T.getCol(col); e = dist(he, tc)/std::max(vmax(he), 1e-9); if (!(e <= tol)) fail("column", "column " + to_string(col) + " of the Dirichlet-to-Neumann matrix differs by " + num(e) + " (relative)");
        if (round == 0) us.push_back(u); else if (dist(u, us[q])/um > 1e-12) fail("history", "the same patch solved again gives a different solution");
    }
    if (k > 1) c.tag("two patches");
}

// ---- C08 (patch) ----------------------------------------------------------------------------
static void f_patch(Src& s, Ctx& c) {
    Setting t = genSetting(s, 10); double scale = 10.0*(1/(t.b.w()*t.b.w()) + 1/(t.b.h()*t.b.h())), lam = s.chance(60) ? -scale*s.range(0, 16)/4.0 : 0; int n = t.n; c.desc << "n=" << n << " box=[" << t.b.xl << "," << t.b.xu << "]x[" << t.b.yl << "," << t.b.yu << "] lambda=" << lam; c.nontrivial = n > 2 && lam != 0;
    Solver a, b; for (Solver* q : {&a, &b}) { q->alpha_function = [](double, double) { return 1.0; }; q->beta_function = [](double, double) { return 1.0; }; q->lambda_function = [lam](double, double) { return lam; }; q->rhs_function = [](double, double) { return 0.0; }; } a.solver_type = EF::FivePointStencil; b.solver_type = EF::FISHPACK90;
    Grid gr(MPI_COMM_WORLD, n, t.b.xl, t.b.xu, n, t.b.yl, t.b.yu); V g = t.g, f = t.f; V ua = a.solve(gr, g, f), ub = b.solve(gr, g, f); if (dist(g, t.g) != 0 || dist(f, t.f) != 0) fail("inputs", "solve changed its inputs"); double um = std::max(vmax(ua), 1e-9), e = dist(ua, ub)/um; c.maximum("solution", e); if (!(e <= 1e-9)) fail("solution", "patch solutions differ by " + num(e) + " (relative)");
    V ha = a.mapD2N(gr, g, f), hb = b.mapD2N(gr, g, f); double hm = std::max({vmax(ha), 2*um*n/std::min(t.b.w(), t.b.h()), 1e-9}); e = dist(ha, hb)/hm; c.maximum("map", e); if (!(e <= 1e-9)) fail("map", "Neumann data differ by " + num(e) + " (relative)");
    V pa = a.particularNeumannData(gr, f), pb = b.particularNeumannData(gr, f); e = dist(pa, pb)/std::max(vmax(pa), 1e-9); if (!(e <= 1e-9)) fail("particular", "particular data differ by " + num(e) + " (relative)");
    M Ta = a.buildD2N(gr), Tb = b.buildD2N(gr); if (Ta.nrows() != Tb.nrows() || Ta.ncols() != Tb.ncols()) fail("size", "map shapes differ"); double tm = 0, d = 0; for (int i = 0; i < 4*n; i++) for (int j = 0; j < 4*n; j++) { tm = std::max(tm, std::fabs(Ta(i, j))); d = std::max(d, std::fabs(Ta(i, j) - Tb(i, j))); } c.maximum("matrix", d/tm); if (!(d <= 1e-9*tm)) fail("matrix", "Dirichlet-to-Neumann matrices differ by " + num(d/tm) + " (relative)");
}

// ---- C12 ------------------------------------------------------------------------------------
static Box wildBox(Src& s) {
    if (s.chance(30)) return genBox(s); Box b; double sc[] = {1, 1e-3, 1e3, 1e6, 0.1, 3}; b.xl = s.real(1)*sc[s.range(0, 5)]*10; b.yl = s.real(1)*sc[s.range(0, 5)]*10; double w = sc[s.range(0, 5)]*(1 + s.range(0, 30)/7.0), h = sc[s.range(0, 5)]*(1 + s.range(0, 30)/7.0); b.xu = b.xl + w; b.yu = b.yl + h; return b;
}
static void checkGrid(Grid& g, Box b, int nx, int ny, const string& what) {
    double ux = 1e-13*std::max({std::fabs(b.xl), std::fabs(b.xu)}), uy = 1e-13*std::max(std::fabs(b.yl), std::fabs(b.yu));
    if (int(g.nx()) != nx || int(g.ny()) != ny) fail("cells", what + ": cell counts " + to_string(g.nx()) + "x" + to_string(g.ny()) + " instead of " + to_string(nx) + "x" + to_string(ny));
    if (!(std::fabs(g.xLower() - b.xl) <= ux) || !(std::fabs(g.xUpper() - b.xu) <= ux) || !(std::fabs(g.yLower() - b.yl) <= uy) || !(std::fabs(g.yUpper() - b.yu) <= uy)) fail("box", what + ": box [" + num(g.xLower()) + "," + num(g.xUpper()) + "]x[" + num(g.yLower()) + "," + num(g.yUpper()) + "] instead of [" + num(b.xl) + "," + num(b.xu) + "]x[" + num(b.yl) + "," + num(b.yu) + "]");
    if (!(std::fabs(g.dx()*nx - b.w()) <= 4*ux + 1e-13*b.w()) || !(std::fabs(g.dy()*ny - b.h()) <= 4*uy + 1e-13*b.h())) fail("spacing", what + ": spacing " + num(g.dx()) + "," + num(g.dy()));
    for (int i = 0; i < nx; i++) { double x = b.xl + (i + 0.5)*b.w()/nx; if (!(std::fabs(g(0, i) - x) <= 4*ux + 1e-12*b.w()) || g.point(EF::X, i) != g(0, i)) fail("points", what + ": x centre " + to_string(i) + " is " + num(g(0, i)) + " instead of " + num(x)); }
    for (int j = 0; j < ny; j++) { double y = b.yl + (j + 0.5)*b.h()/ny; if (!(std::fabs(g(1, j) - y) <= 4*uy + 1e-12*b.h()) || g.point(EF::Y, j) != g(1, j)) fail("points", what + ": y centre " + to_string(j) + " is " + num(g(1, j)) + " instead of " + num(y)); }
}
static void g_family(Src& s, Ctx& c) {
    Box b = wildBox(s); int nx = s.range(1, 20), ny = s.chance(50) ? nx : s.range(1, 20); if (s.chance(3)) nx = s.range(20, 400); if (s.chance(3)) ny = s.range(20, 400); c.desc << nx << "x" << ny << " [" << b.xl << "," << b.xu << "]x[" << b.yl << "," << b.yu << "]"; c.nontrivial = nx != ny;
    Grid g(MPI_COMM_WORLD, nx, b.xl, b.xu, ny, b.yl, b.yu); checkGrid(g, b, nx, ny, "grid"); if (g.xLower() != b.xl || g.xUpper() != b.xu || g.yLower() != b.yl || g.yUpper() != b.yu) fail("box", "grid does not report the given box");
    for (int d : {2, 3, 7}) { bool th = false; try { g(d, 0); } catch (const std::invalid_argument&) { th = true; } if (!th) fail("dimension", "dimension " + to_string(d) + " accepted"); }
    Patch p(MPI_COMM_WORLD, g); checkGrid(p.grid(), b, nx, ny, "patch grid"); Grid gc = g; checkGrid(gc, b, nx, ny, "grid copy");
    EF::FiniteVolumeNodeFactory fac(MPI_COMM_WORLD); string path = "0"; int lv = s.chance(5) ? s.range(7, 20) : s.range(0, 6); for (int k = 0; k < lv; k++) path += char('0' + s.range(0, 3)); int pf = s.range(0, 3), pl = pf + s.range(0, 3); rig::current->mix(double(lv)); std::unique_ptr<Node> n(fac.createNode(p, path, lv, pf, pl)); rig::current->mix(double(n->leaf)); if (n->path != path || n->level != lv || n->pfirst != pf || n->plast != pl || n->leaf) fail("node", "created node has path " + n->path + " level " + to_string(n->level)); checkGrid(n->data.grid(), b, nx, ny, "node grid");
    int depth = s.range(1, 4); Node* cur = n.get(); Box cb = b; std::vector<std::unique_ptr<Node>> keep;
    for (int k = 0; k < depth; k++) {
        std::vector<Node*> ch; int cp[4], cq[4]; 
        for (int q = 0; q < 4; q++) { cp[q] = s.range(0, 3); cq[q] = cp[q] + s.range(0, 2); Node* m = fac.createChildNode(cur, q, cp[q], cq[q]); keep.emplace_back(m); ch.push_back(m); rig::current->mix(double(m->leaf)); string what = "child " + to_string(q) + " of " + cur->path; if (m->path != cur->path + char('0' + q) || m->level != cur->level + 1 || m->pfirst != cp[q] || m->plast != cq[q]) fail("child", what + ": path " + m->path + " level " + to_string(m->level) + " ranks " + to_string(m->pfirst) + "-" + to_string(m->plast)); checkGrid(m->data.grid(), childBox(cb, q), nx, ny, what); }
        auto G = [&](int q) -> Grid& { return ch[q]->data.grid(); }; double tx = 1e-14*std::max({std::fabs(cb.xl), std::fabs(cb.xu)}), ty = 1e-14*std::max({std::fabs(cb.yl), std::fabs(cb.yu)}); auto ne = [](double a, double b, double t) { return !(std::fabs(a - b) <= t); }; if (ne(G(0).xUpper(), G(1).xLower(), tx) || ne(G(2).xUpper(), G(3).xLower(), tx) || ne(G(0).yUpper(), G(2).yLower(), ty) || ne(G(1).yUpper(), G(3).yLower(), ty) || ne(G(0).xLower(), G(2).xLower(), tx) || ne(G(1).xUpper(), G(3).xUpper(), tx)) fail("tile", "children of " + cur->path + " leave gaps");
        int a = s.range(0, 3), z = a + s.range(0, 3); Node* par = fac.createParentNode(ch, a, z); keep.emplace_back(par); rig::current->mix(double(par->leaf)); if (par->path != cur->path || par->level != cur->level || par->pfirst != a || par->plast != z) fail("parent", "parent of the children of " + cur->path + " has path " + par->path + " level " + to_string(par->level) + " ranks " + to_string(par->pfirst) + "-" + to_string(par->plast)); checkGrid(par->data.grid(), cb, nx, ny, "rebuilt parent of " + cur->path);
        checkGrid(cur->data.grid(), cb, nx, ny, "parent after creating its children"); int q = s.range(0, 3); cur = ch[q]; cb = childBox(cb, q);
    }
}

int main(int argc, char** argv) {
    Session S(argc, argv);
    return rig::run(argc, argv, {
        {"p_solve", 500, p_solve, "variable beta"}, {"f_patch", 500, f_patch, "more than four cells and non-zero lambda"}, {"g_family", 80, g_family, "different cell counts in x and y"},
    });
}
