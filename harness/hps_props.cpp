// C01 C02 C03 C04 C05 C06 C08(global) C27: whole-domain solves.
#include "problem.hpp"
using namespace vf;
using rig::Src; using rig::Ctx; using rig::fail;

static const double TOL = 1e-8;

static MeshSpec uniformSpec(Src& s, int maxN, int nxlo, int nxhi) {
    MeshSpec m; m.box = scaledBox(s); m.nx = s.range(nxlo, nxhi); int L = s.range(0, 4); while (L > 0 && (m.nx << L) > maxN) L--; m.lmin = m.lmax = L; return m;
}
static MeshSpec adaptiveSpec(Src& s, int nxlo, int nxhi, int maxdepth) {
    MeshSpec m; m.box = scaledBox(s); m.nx = s.range(nxlo, nxhi); m.refine = genRefine(s, m.box);
    if (m.refine.shapes.empty() && s.chance(70)) m.refine.shapes.push_back(Shape{s.range(0, 9), s.range(1, 31)/32.0, s.range(1, 31)/32.0, s.range(1, 16)/32.0});
    m.lmin = s.range(0, 2); m.lmax = std::min(maxdepth, m.lmin + s.range(1, 4)); return m;
}
// rare sizes: one to sixteen wide patches, or many small ones; deep and narrow refinement
static void largeTail(Src& s, Ctx& c, MeshSpec& m) { if (!s.chance(3)) return; if (s.chance(70)) { m.nx = s.range(9, 20); m.lmin = m.lmax = s.range(0, m.nx > 12 ? 1 : 2); } else { m.nx = 2; m.lmin = m.lmax = 5; } c.tag("large"); }
static void deepTail(Src& s, Ctx& c, MeshSpec& m) {
    int k = s.range(0, 99); if (k < 90) return; if (k < 92) { m.nx = s.range(7, 14); m.lmax = std::min(m.lmax, 2); m.lmin = std::min(m.lmin, 1); c.tag("wide patches"); return; }
    m.nx = s.range(2, 4); if (s.chance(30)) { jumpMesh(s, m); c.tag("jump"); } else { cornerMesh(s, m, 9); c.tag("deep"); } }
static void rareMesh(Src& s, Ctx& c, MeshSpec& m, int deep, int jump) { int k = s.range(0, 99); if (k >= 100 - deep) { m.nx = s.range(2, 4); cornerMesh(s, m, 8); c.tag("deep"); } else if (k >= 100 - deep - jump) { jumpMesh(s, m); m.nx = 2; c.tag("jump"); } }

// an occasional indefinite lambda (far beyond the first eigenvalue)
static bool maybeIndefinite(Src& s, Pde& p, const Box& b, bool dirichlet) {
    if (!dirichlet || !s.chance(20)) return false;
    p.lam0 = 10.0*(1/(b.w()*b.w()) + 1/(b.h()*b.h()))*p.alpha.lo*p.beta.lo*(1.1 + s.range(0, 60)*0.37); p.lamkind = 1; return true;
}
static Bc dirichletBc(Src& s, Box b) {
    Bc c; c.box = b; Smooth base = genSmooth(s, b, 4); bool same = s.chance(40); double ca[] = {1, 2, -0.5, 1};
    for (int q = 0; q < 4; q++) { c.r[q] = same ? base : genSmooth(s, b, 4); if (s.chance(30)) c.ca[q] = ca[s.range(0, 3)]; }
    return c;
}
static double bval(const Bc& c, int side, double x, double y) { double a, b, r = c(side, x, y, &a, &b); return r/a; }

// residual of the global five-point equations relative to the size of the terms
static double globalResidual(const std::vector<double>& u, int N, const Problem& p, const BcFn& bc, std::string* where) {
    double dx = p.box.w()/N, dy = p.box.h()/N, worst = 0, um = 0; for (double x : u) { if (!std::isfinite(x)) { *where = "non-finite or missing value"; return INFINITY; } um = std::max(um, std::fabs(x)); }
    auto side = [&](int q, double x, double y) { double a = 0, b = 0, r = bc(q, x, y, &a, &b); return r/a; };
    double sc = 0; std::vector<double> res(u.size());
    for (int i = 0; i < N; i++) for (int j = 0; j < N; j++) {
        double x = p.box.xl + (i + 0.5)*dx, y = p.box.yl + (j + 0.5)*dy, al = p.alpha(x, y), c = u[size_t(i)*N + j], r = -p.f(x, y) + p.lambda(x, y)*c, big = std::fabs(p.f(x, y)) + std::fabs(p.lambda(x, y))*um;
        auto term = [&](double w, double nb, bool edge) { double d = edge ? 2*(nb - c) : nb - c; r += w*d; big += 2*w*std::max(um, std::fabs(nb)); };
        double bw = al*p.beta(x - dx/2, y)/(dx*dx), be = al*p.beta(x + dx/2, y)/(dx*dx), bs = al*p.beta(x, y - dy/2)/(dy*dy), bn = al*p.beta(x, y + dy/2)/(dy*dy);
        term(bw, i ? u[size_t(i - 1)*N + j] : side(0, p.box.xl, y), i == 0); term(be, i < N - 1 ? u[size_t(i + 1)*N + j] : side(1, p.box.xu, y), i == N - 1);
        term(bs, j ? u[size_t(i)*N + j - 1] : side(2, x, p.box.yl), j == 0); term(bn, j < N - 1 ? u[size_t(i)*N + j + 1] : side(3, x, p.box.yu), j == N - 1);
        res[size_t(i)*N + j] = std::fabs(r); sc = std::max(sc, big);
    }
    for (size_t k = 0; k < res.size(); k++) if (res[k] > worst*sc) { worst = sc > 0 ? res[k]/sc : 0; char t[60]; snprintf(t, 60, "cell (%zu,%zu) of %d", k/N, k%N, N); *where = t; }
    return worst;
}
static double cmpRef(const Solution& s, const RefTree& rt) {
    double e = 0; for (auto& [k, v] : s) { if (!rt.index.count(k)) return INFINITY; for (size_t i = 0; i < v.size(); i++) { double d = std::fabs(v[i] - rt.u(k, int(i))); if (!(d <= e)) e = std::isnan(d) ? INFINITY : d; } }
    return e;
}
static Problem scaleLambda(Problem p, double c) { Fn l = p.lambda; p.lambda = [l, c](double x, double y) { return c*l(x, y); }; return p; }
// For indefinite problems a single value of lambda may sit next to a resonance of some subdomain, where rounding
// alone spoils the answer: count a failure only if it persists for nearby values of lambda as well.
static bool persists(const Problem& p, const std::function<bool(const Problem&)>& bad) {
    return bad(scaleLambda(p, 1.0031)) && bad(scaleLambda(p, 0.9957));
}

// ---------------------------------------------------------------------------------------- C01
static void u_ref(Src& s, Ctx& c) {
    MeshSpec m = uniformSpec(s, 32, 2, 8); largeTail(s, c, m); Bc bc = dirichletBc(s, m.box); Pde p = genPde(s, m.box, true); bool ind = maybeIndefinite(s, p, m.box, true);
    c.desc << m.str() << " " << p.str() << " " << bc.str(); Problem q = rescaled(s, c, makeProblem(m, p, bc)); c.tag("levels=" + std::to_string(m.lmin)); if (ind) c.tag("indefinite");
    c.nontrivial = m.lmin > 0 && !(p.beta.constant() && p.alpha.constant());
    auto bad = [&](const Problem& q, std::string* msg) {
        FnMesh om; om.build(q); auto lp = leafPaths(om); if (int(lp.size()) != (1 << 2*m.lmin)) { if (msg) *msg = "leaf count " + std::to_string(lp.size()); return true; }
        Solution u = solveOn(om, q); std::string where; double r = globalResidual(globalGrid(u, m.nx, m.lmin), m.nx << m.lmin, q, q.bc, &where);
        if (!ind && msg) c.maximum("residual", r);
        if (!(r <= TOL)) { if (msg) *msg = "five-point residual " + num(r) + " (relative) at " + where; return true; }
        RefTree rt(q.box, q.nx, lp);
        if (rt.nunk <= 900 && rt.solve(q.coef(), q.bc)) {
            double e = cmpRef(u, rt)/rt.scale(); if (!ind && msg) c.maximum("error vs reference", e); if (msg) c.tag("reference solved");
            if (!(e <= TOL)) { if (msg) *msg = "differs from the reference solution by " + num(e) + " (relative)"; return true; }
        }
        return false;
    };
    std::string msg; if (bad(q, &msg)) { if (ind && !persists(q, [&](const Problem& r) { return bad(r, nullptr); })) { c.tag("near resonance"); return; } fail("five-point", msg); }
}
static void u_split(Src& s, Ctx& c) {
    MeshSpec m = uniformSpec(s, 32, 2, 6); if (m.lmin == 0) { m.lmin = m.lmax = 1; } Bc bc = s.chance(60) ? dirichletBc(s, m.box) : genBc(s, m.box, 0); Pde p = genPde(s, m.box, bc.dirichlet());
    int k = s.range(1, m.lmin); while (k > 1 && (m.nx << k) > 16) k--;
    c.desc << m.str() << " joined " << k << " levels; " << p.str() << " " << bc.str(); c.nontrivial = true; c.tag("joined=" + std::to_string(k));
    Problem q = rescaled(s, c, makeProblem(m, p, bc)), r = q; r.nx = q.nx << k; r.lmin = r.lmax = q.lmin - k;
    auto a = globalGrid(solveFresh(q), q.nx, q.lmin), b = globalGrid(solveFresh(r), r.nx, r.lmin); double sc = 0, e = 0;
    if (a.size() != b.size()) fail("split", "different sizes");
    for (size_t i = 0; i < a.size(); i++) { sc = std::max(sc, std::fabs(a[i])); double d = std::fabs(a[i] - b[i]); if (!(d <= e)) e = std::isnan(d) ? INFINITY : d; }
    c.maximum("difference", sc > 0 ? e/sc : 0); if (!(e <= TOL*std::max(sc, 1e-6*q.unit))) fail("split", "levels/patch-size split changes the solution by " + num(e) + " of " + num(sc));
}
// ---------------------------------------------------------------------------------------- C02
static void refCase(Ctx& c, const Problem& q, int maxunk, const char* key) {
    FnMesh om; om.build(q); auto lp = leafPaths(om); RefTree rt(q.box, q.nx, lp);
    c.desc << " leaves=" << lp.size() << " unknowns=" << rt.nunk << " coarsenings=" << rt.maxtag; c.tag("coarsenings=" + std::to_string(rt.maxtag));
    if (rt.nunk > maxunk) { c.tag("too big for the dense reference"); return; }
    c.nontrivial = rt.maxtag > 0;
    Solution u = solveOn(om, q); if (!rt.solve(q.coef(), q.bc)) { c.tag("singular"); return; }
    double e = cmpRef(u, rt)/std::max(rt.scale(), 1e-12*q.unit); c.maximum("error vs reference", e); if (!(e <= TOL)) fail(key, "differs from the composite reference solution by " + num(e) + " (relative)");
}
static void a_ref(Src& s, Ctx& c) {
    MeshSpec m = adaptiveSpec(s, 2, 4, 5); rareMesh(s, c, m, 10, 2); Bc bc = dirichletBc(s, m.box); Pde p = genPde(s, m.box, true); c.desc << m.str() << " " << p.str() << " " << bc.str();
    refCase(c, rescaled(s, c, makeProblem(m, p, bc)), 1500, "composite");
}
static void a_affine(Src& s, Ctx& c) {
    MeshSpec m = adaptiveSpec(s, 2, 6, 5); deepTail(s, c, m); Pde p = genPde(s, m.box, true); p.beta.amp = 0; p.lam0 = 0; p.lamkind = 0; Smooth w; w.b = m.box; w.c0 = s.real(4); w.c1 = s.real(4); w.c2 = 1 + s.real(4);
    Bc bc; bc.box = m.box; int mixed = s.range(0, 2);
    Problem q = makeProblem(m, p, bc); q.f = [](double, double) { return 0.0; }; Box bx = m.box; double gx = w.c1/bx.w(), gy = w.c2/bx.h();
    q.bc = [=](int side, double x, double y, double* a, double* b) { double sg = (side == 0 || side == 2) ? -1 : 1; *a = 1; *b = 0; if (mixed == 1 && side == 1) { *a = 0; *b = bx.w(); } if (mixed == 2) { *a = 2; *b = sg*0.3*(side < 2 ? bx.w() : bx.h()); } return *a*w(x, y) + *b*(side < 2 ? gx : gy); };
    FnMesh om; om.build(q); auto lp = leafPaths(om); c.desc << m.str() << " affine " << w.str() << " alpha=" << p.alpha.str() << " bc=" << mixed << " leaves=" << lp.size(); 
    if (lp.size() > 420) { c.tag("too big"); return; }
    size_t lo = 99, hi = 0; for (auto& k : lp) { lo = std::min(lo, k.size()); hi = std::max(hi, k.size()); } c.nontrivial = hi > lo; c.tag("level range=" + std::to_string(hi - lo));
    Solution u = solveOn(om, q); double e = 0, sc = std::fabs(w.c0) + std::fabs(w.c1) + std::fabs(w.c2);
    for (auto& [k, v] : u) { Box b = pathBox(m.box, k); if (int(v.size()) != m.nx*m.nx) fail("affine", "leaf without solution"); for (int i = 0; i < m.nx; i++) for (int j = 0; j < m.nx; j++) { double d = std::fabs(v[i*m.nx + j] - w(b.xl + (i + 0.5)*b.w()/m.nx, b.yl + (j + 0.5)*b.h()/m.nx)); if (!(d <= e)) e = std::isnan(d) ? INFINITY : d; } }
    c.maximum("affine error", e/sc); if (!(e <= TOL*sc)) fail("affine", "affine function off by " + num(e));
}
// per-leaf equations and leaf-level interface conditions on meshes too big for the dense reference
static void a_local(Src& s, Ctx& c) {
    MeshSpec m = adaptiveSpec(s, 2, 6, 5); deepTail(s, c, m); Bc bc = genBc(s, m.box, 60); Pde p = genPde(s, m.box, bc.dirichlet()); Problem q = rescaled(s, c, makeProblem(m, p, bc));
    FnMesh om; om.build(q); auto lp = leafPaths(om); c.desc << m.str() << " " << p.str() << " " << bc.str() << " leaves=" << lp.size(); if (lp.size() > 420) { c.tag("too big"); return; }
    Solution u = solveOn(om, q); double um = std::max(maxabs(u), 1e-9*q.unit); int n = m.nx; std::map<std::string, std::vector<double>> G; std::map<std::string, std::array<std::vector<double>, 4>> D;
    if (!std::isfinite(um)) fail("local", "non-finite solution");
    for (auto* nd : om.leaves()) { auto& g = nd->data.vectorG(); if (int(g.size()) != 4*n) fail("local", "leaf trace has wrong size"); for (size_t i = 0; i < g.size(); i++) G[nd->path].push_back(g[i]); for (double x : G[nd->path]) um = std::max(um, std::fabs(x)); }
    double worst = 0, flux = 0; std::string where;
    for (auto& [k, v] : u) {
        Box b = pathBox(m.box, k); double dx = b.w()/n, dy = b.h()/n; auto& g = G[k];
        for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) {
            double x = b.xl + (i + 0.5)*dx, y = b.yl + (j + 0.5)*dy, al = q.alpha(x, y), cc = v[i*n + j], r = q.lambda(x, y)*cc - q.f(x, y), big = std::fabs(q.lambda(x, y))*um + std::fabs(q.f(x, y));
            auto term = [&](double w, bool edge, double gb, int idx) { r += edge ? 2*w*(gb - cc) : w*(v[edge ? 0 : idx] - cc); big += 3*w*um; };
            term(al*q.beta(x - dx/2, y)/(dx*dx), i == 0, g[j], (i - 1)*n + j); term(al*q.beta(x + dx/2, y)/(dx*dx), i == n - 1, g[n + j], (i + 1)*n + j);
            term(al*q.beta(x, y - dy/2)/(dy*dy), j == 0, g[2*n + i], i*n + j - 1); term(al*q.beta(x, y + dy/2)/(dy*dy), j == n - 1, g[3*n + i], i*n + j + 1);
            if (std::fabs(r)/big > worst) { worst = std::fabs(r)/big; where = k; }
        }
        auto& d = D[k]; for (int t = 0; t < n; t++) { d[0].push_back(2/dx*(v[t] - g[t])); d[1].push_back(-2/dx*(v[(n - 1)*n + t] - g[n + t])); d[2].push_back(2/dy*(v[t*n] - g[2*n + t])); d[3].push_back(-2/dy*(v[t*n + n - 1] - g[3*n + t])); }
    }
    c.maximum("leaf residual", worst); if (!(worst <= TOL)) fail("local", "leaf " + where + ": five-point residual " + num(worst));
    int fam = 0;
    for (auto& k : lp) if (k.back() == '0' && k.size() > 1) {
        std::string b = k.substr(0, k.size() - 1); bool all = true; for (char ch : std::string("0123")) all &= lp.count(b + ch) > 0; if (!all) continue; fam++;
        Box bx = pathBox(m.box, k); double sx = um*4*n/bx.w(), sy = um*4*n/bx.h();
        auto match = [&](char A, int sa, char B, int sb) { for (int t = 0; t < n; t++) {
            double dg = std::fabs(G[b + A][sa*n + t] - G[b + B][sb*n + t])/um, df = std::fabs(D[b + A][sa][t] - D[b + B][sb][t])/(sa < 2 ? sx : sy);
            flux = std::max({flux, dg, df}); if (!(dg <= TOL) || !(df <= TOL)) fail("interface", "family " + b + " children " + A + B + ": trace mismatch " + num(dg) + ", flux mismatch " + num(df)); } };
        match('0', 1, '1', 0); match('2', 1, '3', 0); match('0', 3, '2', 2); match('1', 3, '3', 2);
    }
    c.maximum("interface mismatch", flux); c.nontrivial = fam > 0 && lp.size() > 4; c.tag(fam > 3 ? "families>3" : "families<=3");
}
// ---------------------------------------------------------------------------------------- C03
static void b_ref(Src& s, Ctx& c) {
    MeshSpec m; if (s.chance(50)) { m = adaptiveSpec(s, 2, 4, 4); rareMesh(s, c, m, 10, 0); } else m = uniformSpec(s, 16, 2, 6);
    Bc bc = genBc(s, m.box, 0); Pde p = genPde(s, m.box, bc.dirichlet()); c.desc << m.str() << " " << p.str() << " " << bc.str(); Problem q = rescaled(s, c, makeProblem(m, p, bc));
    FnMesh om; om.build(q); auto lp = leafPaths(om); RefTree rt(q.box, q.nx, lp); if (rt.nunk > 1200) { c.tag("too big"); return; }
    std::set<int> kinds(bc.kind, bc.kind + 4); c.nontrivial = kinds.size() > 1 || !kinds.count(0); for (int q = 0; q < 4; q++) c.tag(std::string("kind=") + "DNRVMMA"[bc.kind[q]]); c.tag(lp.size() == 1 ? "single patch" : rt.maxtag ? "adaptive" : "uniform");
    Solution u = solveOn(om, q); if (!rt.solve(q.coef(), q.bc)) { c.tag("singular"); return; }
    double e = cmpRef(u, rt)/std::max(rt.scale(), 1e-12*q.unit); c.maximum("error vs reference", e); if (!(e <= TOL)) fail("boundary", "differs from the reference solution by " + num(e) + " (relative)");
}
static void b_eq(Src& s, Ctx& c) {
    MeshSpec m = uniformSpec(s, 32, 2, 8); largeTail(s, c, m); Bc bc = genBc(s, m.box, 0); Pde p = genPde(s, m.box, bc.dirichlet()); c.desc << m.str() << " " << p.str() << " " << bc.str(); Problem q = rescaled(s, c, makeProblem(m, p, bc));
    c.nontrivial = true; FnMesh om; om.build(q); Solution u = solveOn(om, q); int n = m.nx; double worst = 0; std::string where;
    double um = maxabs(u); if (!std::isfinite(um)) fail("boundary", "non-finite solution");
    for (auto* nd : om.leaves()) {
        Box b = pathBox(m.box, nd->path); auto& g = nd->data.vectorG(); auto& v = u[nd->path]; double dx = b.w()/n, dy = b.h()/n; if (int(g.size()) != 4*n) fail("boundary", "leaf trace has wrong size");
        bool on[4] = {b.xl == m.box.xl, b.xu == m.box.xu, b.yl == m.box.yl, b.yu == m.box.yu};
        bool e0 = true, e1 = true, e2 = true, e3 = true; for (size_t k = 1; k < nd->path.size(); k++) { int d = nd->path[k] - '0'; e0 &= !(d & 1); e1 &= (d & 1); e2 &= !(d & 2); e3 &= (d >> 1); } on[0] = e0; on[1] = e1; on[2] = e2; on[3] = e3;
        for (int q4 = 0; q4 < 4; q4++) if (on[q4]) for (int t = 0; t < n; t++) {
            double x = q4 == 0 ? m.box.xl : q4 == 1 ? m.box.xu : b.xl + (t + 0.5)*dx, y = q4 == 2 ? m.box.yl : q4 == 3 ? m.box.yu : b.yl + (t + 0.5)*dy, A = 0, B = 0, r = q.bc(q4, x, y, &A, &B);
            double gg = g[q4*n + t], in = q4 == 0 ? v[t] : q4 == 1 ? v[(n - 1)*n + t] : q4 == 2 ? v[t*n] : v[t*n + n - 1], h = q4 < 2 ? dx : dy, d = (q4 % 2 ? 2/h*(gg - in) : 2/h*(in - gg));
            double sc = std::fabs(A)*(um + std::fabs(gg)) + std::fabs(B)*2/h*(um + std::fabs(gg)) + std::fabs(r) + 1e-300, e = std::fabs(A*gg + B*d - r)/sc; if (!(e <= worst)) { worst = e; where = nd->path + " side " + "WESN"[q4] + " point " + std::to_string(t); }
        }
    }
    c.maximum("boundary equation residual", worst); if (!(worst <= TOL)) fail("boundary", "a u + b du/dn = r violated by " + num(worst) + " (relative) at " + where);
}
static void b_direct(Src& s, Ctx& c) {
    MeshSpec m = s.chance(60) ? adaptiveSpec(s, 2, 5, 4) : uniformSpec(s, 32, 2, 8); Bc bc = dirichletBc(s, m.box); Pde p = genPde(s, m.box, true); c.desc << m.str() << " " << p.str() << " " << bc.str(); Problem q = makeProblem(m, p, bc);
    FnMesh om; om.build(q); auto lp = leafPaths(om); if (lp.size() > 200) { c.tag("too big"); return; } c.nontrivial = lp.size() > 1;
    Solution a = solveOn(om, q); Solver sv; setSolver(sv, q); FnMesh o2; o2.build(q); HPS h(MPI_COMM_WORLD, o2.mesh, sv); h.setupStage(); h.buildStage(); h.upwardsStage(q.f);
    h.solveStage([&](Patch& root) {
        auto& g = root.grid(); int M = int(g.nx()); root.vectorG() = EF::Vector<double>(4*M);
        for (int t = 0; t < M; t++) { double tx = m.box.xl + (t + 0.5)*m.box.w()/M, ty = m.box.yl + (t + 0.5)*m.box.h()/M; root.vectorG()[t] = bval(bc, 0, m.box.xl, ty); root.vectorG()[M + t] = bval(bc, 1, m.box.xu, ty); root.vectorG()[2*M + t] = bval(bc, 2, tx, m.box.yl); root.vectorG()[3*M + t] = bval(bc, 3, tx, m.box.yu); } });
    Solution b = solution(o2); double sc = std::max(maxabs(a), 1e-9), e = diff(a, b)/sc; c.maximum("difference", e); if (!(e <= TOL)) fail("direct", "root Dirichlet data set directly: solution differs by " + num(e) + " (relative)");
}
// ---------------------------------------------------------------------------------------- C04
static void m_sym(Src& s, Ctx& c) {
    MeshSpec m = s.chance(75) ? adaptiveSpec(s, 2, 5, 4) : uniformSpec(s, 24, 2, 6); for (auto& h : m.refine.shapes) { h.a += 0.0037; h.b += 0.0041; h.r += 0.0029; }
    Bc bc = genBc(s, m.box, 40); Pde p = genPde(s, m.box, bc.dirichlet()); p.alpha.jump = p.beta.jump = false; c.desc << m.str() << " " << p.str() << " " << bc.str();
    Problem q = makeProblem(m, p, bc); int k = s.range(1, 3); Problem r = q; std::vector<int> kinds; double par[] = {2, 0.5, -3, 1.25}; const char* nm[] = {"translate", "scale", "mirror-x", "mirror-y", "exchange"};
    bool varying = false; for (int t = 0; t < 4; t++) varying |= bc.kind[t] == 3;
    if (varying) for (int t = 0; t < 4; t++) if (bc.kind[t] == 3) bc.kind[t] = 2;   // kind 3 switches at mid-side, where a cell centre may sit
    q = makeProblem(m, p, bc); r = q;
    for (int i = 0; i < k; i++) { int t = s.range(0, 4); kinds.push_back(t); double cc = t == 1 ? std::fabs(par[s.range(0, 3)]) : par[s.range(0, 3)], dd = par[s.range(0, 3)]; r = transformed(r, t, cc, dd); c.desc << " " << nm[t]; c.tag(nm[t]); }
    r = rescaled(s, c, r, 40);
    FnMesh om; om.build(q); if (leafPaths(om).size() > 150) { c.tag("too big"); return; }
    Solution a = solveOn(om, q), b = solveFresh(r); for (int t : kinds) a = transformed(a, t, m.nx); for (auto& [k, v] : a) for (double& x : v) x *= r.unit;
    if (keys(a) != keys(b)) { c.tag("borderline refinement predicate"); return; }
    c.nontrivial = a.size() > 1; double sc = std::max(maxabs(a), 1e-9*r.unit), e = diff(a, b)/sc; c.maximum("difference", e); if (!(e <= 1e-6)) fail("symmetry", "transformed problem's solution differs by " + num(e) + " (relative)");
}
static void m_linear(Src& s, Ctx& c) {
    MeshSpec m = s.chance(75) ? adaptiveSpec(s, 2, 5, 4) : uniformSpec(s, 24, 2, 6); Bc bc = genBc(s, m.box, 40), bc2 = bc; for (int q = 0; q < 4; q++) bc2.r[q] = genSmooth(s, m.box, 4);
    Pde p = genPde(s, m.box, bc.dirichlet()); Smooth f2 = genSmooth(s, m.box, 5.0*(1/(m.box.w()*m.box.w()) + 1/(m.box.h()*m.box.h()))); double a = s.real(3), b = 1 + s.real(3), unit = 1; if (s.chance(40)) { unit = std::pow(10.0, s.sint(14)); if (s.chance(30)) a = 0; a *= unit; b *= unit; }
    c.desc << m.str() << " " << p.str() << " " << bc.str() << " combination " << a << " " << b; Problem q = makeProblem(m, p, bc), q2 = makeProblem(m, p, bc2), q3 = q; q2.f = f2; Fn f = q.f; q3.f = [=](double x, double y) { return a*f(x, y) + b*f2(x, y); };
    q3.bc = [=](int sd, double x, double y, double* A, double* B) { double r2 = bc2(sd, x, y, A, B); return a*bc(sd, x, y, A, B) + b*r2; };
    FnMesh om; om.build(q); if (leafPaths(om).size() > 150) { c.tag("too big"); return; }
    Solution u = solveOn(om, q), v = solveFresh(q2), w = solveFresh(q3), x = u; for (auto& [k, vv] : x) for (size_t i = 0; i < vv.size(); i++) vv[i] = a*u[k][i] + b*v[k][i];
    c.nontrivial = u.size() > 1; c.tag(unit < 1 ? "small combination" : unit > 1 ? "large combination" : "ordinary combination"); double sc = std::max(std::fabs(a)*maxabs(u) + std::fabs(b)*maxabs(v), 1e-9*unit), e = diff(x, w)/sc; c.maximum("difference", e); if (!(e <= TOL)) fail("linear", "combination differs by " + num(e) + " (relative)");
}
// ---------------------------------------------------------------------------------------- C05 / C06
using Rhs = std::map<std::string, std::vector<double>>;
static Rhs sample(OwnedMesh& om, const Fn& f) { Rhs r; for (auto* n : om.leaves()) { auto& g = n->data.grid(); for (size_t i = 0; i < g.nx(); i++) for (size_t j = 0; j < g.ny(); j++) r[n->path].push_back(f(g(0, i), g(1, j))); } return r; }
static Solution freshWith(const Problem& q, const Rhs& f, const BcFn& bc) {
    FnMesh om; om.build(q); Solver sv; setSolver(sv, q); HPS h(MPI_COMM_WORLD, om.mesh, sv); h.buildStage();
    std::map<std::pair<double, std::pair<double, double>>, std::string> by; for (auto* n : om.leaves()) by[{n->data.grid().xLower(), {n->data.grid().yLower(), n->data.grid().dx()}}] = n->path;
    h.upwardsStage([&](Patch& p) { auto& v = f.at(by.at({p.grid().xLower(), {p.grid().yLower(), p.grid().dx()}})); p.vectorF() = EF::Vector<double>(v.size()); for (size_t i = 0; i < v.size(); i++) p.vectorF()[i] = v[i]; });
    h.solveStage(wrap(bc)); return solution(om);
}
static void runHistory(Src& s, Ctx& c, bool options) {
    MeshSpec m = s.chance(65) ? adaptiveSpec(s, 2, 4, 4) : uniformSpec(s, 16, 2, 5); rareMesh(s, c, m, options ? 14 : 10, 0); Bc bc0 = genBc(s, m.box, 50); Pde p = genPde(s, m.box, bc0.dirichlet()); bool cache = false, homog = false;
    if (options) { cache = s.chance(75); homog = !cache || s.chance(30); if (cache) { p.alpha.amp = 0; p.beta.amp = 0; if (p.lamkind == 2) p.lamkind = 1; } c.tag(std::string("cache=") + (cache ? "1" : "0") + " homogeneous=" + (homog ? "1" : "0")); }
    Problem q = makeProblem(m, p, bc0); setOptions(cache, homog); FnMesh om; om.build(q); if (leafPaths(om).size() > 90) { setOptions(false, false); c.tag("too big"); return; }
    c.desc << m.str() << " " << p.str() << " " << bc0.str() << (options ? std::string(" cache=") + (cache ? "on" : "off") + " homogeneous=" + (homog ? "on" : "off") : "") << " ops:";
    auto sv = std::make_unique<Solver>(); setSolver(*sv, q); auto h = std::make_unique<HPS>(MPI_COMM_WORLD, om.mesh, *sv);
    Rhs f; BcFn bc = q.bc; Solution last; int solves = 0, changes = 0; bool rebuilt = false;
    auto expect = [&](const char* what) {
        Solution u = solution(om); setOptions(false, false); Rhs ff = f; if (homog) for (auto& [k, v] : ff) for (double& x : v) x = 0; Solution w = freshWith(q, ff, bc); setOptions(cache, homog); double sc = maxabs(w), e = diff(u, w)/(sc > 0 ? sc : 1);
        c.maximum("difference", e); solves++; if (!(e <= TOL)) { setOptions(false, false); fail(options ? "options" : "history", std::string(what) + ": solution differs from a fresh solve by " + num(e) + " (relative)"); } last = u; };
    try {
        int n = !options && s.chance(2) ? s.range(6, 14) : s.range(2, options ? 4 : 6); h->setupStage(); h->buildStage(); h->upwardsStage(q.f); f = sample(om, q.f); c.desc << " build upwards";
        if (s.chance(80)) { h->solveStage(wrap(bc)); c.desc << " solve"; expect("first solve"); }
        for (int i = 0; i < n; i++) {
            int op = s.range(0, 13); if (op == 12 && !options) op = 13;
            if (op == 0 || op == 1) { Smooth g = genSmooth(s, m.box, 40*(1/(m.box.w()*m.box.w()) + 1/(m.box.h()*m.box.h()))); if (op == 0) h->upwardsStage(g); else { Fn G = g; h->upwardsStage([&](Patch& pt) { auto& gr = pt.grid(); int nx = int(gr.nx()); pt.vectorF() = EF::Vector<double>(nx*nx); for (int a = 0; a < nx; a++) for (int b = 0; b < nx; b++) pt.vectorF()[a*nx + b] = G(gr(0, a), gr(1, b)); }); } f = sample(om, g); changes++; c.desc << (op ? " upwards(patch)" : " upwards(fn)"); }
            else if (op == 2 && !last.empty()) { double k = 1/(m.box.w()*m.box.w()), t = s.real(4); Rhs g; for (auto& [a, v] : last) for (double x : v) g[a].push_back(-k*x*(1 + t) + t); h->upwardsStage([&](Patch& pt) { auto& u = pt.vectorU(); pt.vectorF() = EF::Vector<double>(u.size()); for (size_t a = 0; a < u.size(); a++) pt.vectorF()[a] = -k*u[a]*(1 + t) + t; }); f = g; changes++; c.desc << " upwards(previous)"; }
            else if (op == 3) { Bc nb = bc0; for (int z = 0; z < 4; z++) nb.r[z] = genSmooth(s, m.box, 4); if (s.chance(40)) nb = genBc(s, m.box, 50); if (!bc0.dirichlet() || p.lam0 <= 0) bc = [nb](int sd, double x, double y, double* a, double* b) { return nb(sd, x, y, a, b); }; changes++; c.desc << " new-bc"; }
            else if (op == 4) { h->buildStage(); rebuilt = true; c.desc << " build"; h->upwardsStage([&](Patch& pt) { /* keep the right-hand side stored in the patch */ }); }
            else if (op == 5) { /* solve again with the same data */ }
            else if (op == 6) { // mesh refined again with another criterion, same mesh object
                MeshSpec m2 = m; m2.refine = genRefine(s, m.box); m2.lmin = s.range(0, 1); m2.lmax = m2.lmin + s.range(0, 2); Problem q2 = makeProblem(m2, p, bc0); q2.bc = q.bc; q = q2; om.build(q); h->buildStage(); h->upwardsStage(q.f); f = sample(om, q.f); changes++; c.desc << " refine[" << m2.refine.str() << " " << m2.lmin << ".." << m2.lmax << "] build upwards"; }
            else if (op == 7) { h.reset(); h = std::make_unique<HPS>(MPI_COMM_WORLD, om.mesh, *sv); c.desc << " new-algorithm-object"; }
            else if (op == 8) { Pde p2 = genPde(s, m.box, bc0.dirichlet()); p2.f = p.f; if (cache) { p2.alpha.amp = p2.beta.amp = 0; if (p2.lamkind == 2) p2.lamkind = 1; } Problem q2 = makeProblem(m, p2, bc0); q.alpha = q2.alpha; q.beta = q2.beta; q.lambda = q2.lambda; p = p2; if (p.lam0 > 0) bc = q2.bc; setSolver(*sv, q); h->buildStage(); h->upwardsStage(q.f); f = sample(om, q.f); changes++; rebuilt = true; c.desc << " new-coefficients build upwards"; }
            else if (op == 9) { // no load at all, or a load on part of the domain only
                Smooth g = genSmooth(s, m.box, 40*(1/(m.box.w()*m.box.w()) + 1/(m.box.h()*m.box.h()))); double cut = s.range(0, 8)/8.0; Box bx = m.box; bool xs = s.chance(50); Fn G = [=](double x, double y) { return (xs ? (x - bx.xl)/bx.w() : (y - bx.yl)/bx.h()) < cut ? g(x, y) : 0.0; }; if (s.chance(50)) h->upwardsStage(G); else h->upwardsStage([&](Patch& pt) { auto& gr = pt.grid(); int nx = int(gr.nx()); if (int(pt.vectorF().size()) != nx*nx) pt.vectorF() = EF::Vector<double>(nx*nx); for (int a = 0; a < nx; a++) for (int b = 0; b < nx; b++) pt.vectorF()[a*nx + b] = G(gr(0, a), gr(1, b)); }); f = sample(om, G); changes++; c.desc << " upwards(cut " << (xs ? "x " : "y ") << cut << ")"; c.tag(cut == 0 ? "zero load" : "partial load"); }
            else if (op == 10) { double t[] = {2, -1, 1e-5, 1e5, 0.999, 0}; double k = t[s.range(0, 5)]; Rhs g = f; for (auto& [a, v] : g) for (double& x : v) x *= k; h->upwardsStage([&](Patch& pt) { int n2 = m.nx*m.nx; if (int(pt.vectorF().size()) != n2) fail("history", "stored load has another size"); for (int a = 0; a < n2; a++) pt.vectorF()[a] *= k; }); f = g; changes++; c.desc << " upwards(load times " << k << ")"; }
            else if (op == 11) { double t[] = {0, 2, -1, 1e-5}; double k = t[s.range(0, 3)]; BcFn b = bc; bc = [=](int sd, double x, double y, double* A, double* B) { return k*b(sd, x, y, A, B); }; changes++; c.desc << " bc times " << k; c.tag(k == 0 ? "zero boundary data" : "scaled boundary data"); }
            else if (op == 12) { bool constant = p.alpha.amp == 0 && p.beta.amp == 0 && p.lamkind != 2; cache = constant && s.chance(50); homog = s.chance(50); setOptions(cache, homog); h->buildStage(); h->upwardsStage(q.f); f = sample(om, q.f); changes++; c.desc << " options cache=" << cache << " homogeneous=" << homog << " build upwards"; c.tag("options changed"); }
            else if (op == 13) { // load given cell by cell: zero, balanced (sums to zero), a single cell or alternating, chosen per leaf
                uint32_t seed = s.next(), only = s.range(0, 4); int n = m.nx; double big = 8*(1/(m.box.w()*m.box.w()) + 1/(m.box.h()*m.box.h())); Rhs g; std::map<Patch*, std::string> at; for (auto* nd : om.leaves()) at[&nd->data] = nd->path;
                for (auto& [pt, path] : at) { uint32_t z = seed; for (unsigned char ch : path) { z = (z ^ ch)*16777619u; z ^= z >> 13; } std::vector<double> v(n*n, 0.0); unsigned how = only < 4 ? only : (z >> 8) % 4;
                    if (how == 1) for (int a = 0; a < n*n; a++) v[a] = ((a/n + a%n) % 2 ? -big : big); else if (how == 2) { v[z % (n*n)] += big; v[(z >> 16) % (n*n)] -= big; } else if (how == 3) v[z % (n*n)] = big; g[path] = v; }
                h->upwardsStage([&](Patch& pt) { auto& v = g.at(at.at(&pt)); if (int(pt.vectorF().size()) != n*n) pt.vectorF() = EF::Vector<double>(n*n); for (int a = 0; a < n*n; a++) pt.vectorF()[a] = v[a]; }); f = g; changes++; c.desc << " upwards(cells " << only << "/" << seed << ")"; c.tag("cell-wise load"); }
            h->solveStage(wrap(bc)); c.desc << " solve"; expect("later solve");
        }
    } catch (...) { setOptions(false, false); throw; }
    setOptions(false, false); c.nontrivial = solves >= 2 && (changes > 0 || rebuilt) && last.size() > 1; if (rebuilt) c.tag("rebuilt"); c.tag(last.size() > 1 ? "many leaves" : "one leaf");
}
static void h_history(Src& s, Ctx& c) { runHistory(s, c, false); }
static void o_options(Src& s, Ctx& c) { runHistory(s, c, true); }
// ---------------------------------------------------------------------------------------- C08 global
static void f_global(Src& s, Ctx& c) {
    MeshSpec m = s.chance(60) ? adaptiveSpec(s, 2, 5, 4) : uniformSpec(s, 24, 2, 6); rareMesh(s, c, m, 8, 1); Bc bc = genBc(s, m.box, 40); Pde p = genPde(s, m.box, false); p.alpha = p.beta = Positive{}; p.alpha.b = p.beta.b = m.box; if (p.lamkind == 2) p.lamkind = 1;
    Problem q = makeProblem(m, p, bc); FnMesh om; om.build(q); c.desc << m.str() << " lambda=" << p.lam0 << " f=" << p.f.str() << " " << bc.str(); if (leafPaths(om).size() > 100) { c.tag("too big"); return; }
    Solution a = solveOn(om, q, false), b = solveFresh(q, true); c.nontrivial = a.size() > 1; double sc = std::max(maxabs(a), 1e-9), e = diff(a, b)/sc; c.maximum("difference", e); if (!(e <= TOL)) fail("fishpack", "whole-domain solutions of the two solvers differ by " + num(e) + " (relative)");
}
// ---------------------------------------------------------------------------------------- C27
static void v_order(Src& s, Ctx& c) {
    // exact solution and coefficients with moderate wave numbers in box coordinates
    Box b = genBox(s); b.yu = b.yl + b.w()*(s.chance(50) ? 1 : 0.8); double W = b.w(), H = b.h(); Smooth u; u.b = b; u.c0 = s.real(1); u.c1 = s.real(1); u.c2 = s.real(1); u.c3 = 1 + s.range(0, 4)*0.25; u.k = 1.5 + s.range(0, 8)*0.25; u.l = 1.5 + s.range(0, 8)*0.25; u.p = s.real(3); if (s.chance(50)) u.l = -u.l;
    double ba = s.chance(70) ? 0.1*s.range(1, 6) : 0, bk = s.real(2), bl = s.real(2), aa = s.chance(40) ? 0.1*s.range(1, 6) : 0, l0 = s.chance(50) ? -s.range(0, 12)/(W*W) : 0; if (s.chance(15)) l0 = 1.5/(W*W)*(1 - 0.6*(ba > 0));
    auto X = [b, W](double x) { return (x - b.xl)/W; }; auto Y = [b, H](double y) { return (y - b.yl)/H; };
    Fn beta = [=](double x, double y) { return 1 + ba*std::sin(bk*X(x) + bl*Y(y)); }, alpha = [=](double x, double y) { return 1 + aa*std::cos(bl*X(x) + bk*Y(y)); }, lam = [=](double, double) { return l0; };
    Fn f = [=](double x, double y) {
        double Xx = X(x), Yy = Y(y), th = u.k*Xx + u.l*Yy + u.p, ux = (u.c1 + u.c3*u.k*std::cos(th))/W, uy = (u.c2 + u.c3*u.l*std::cos(th))/H, lap = -u.c3*std::sin(th)*(u.k*u.k/(W*W) + u.l*u.l/(H*H));
        double t = bk*Xx + bl*Yy, bx = ba*bk*std::cos(t)/W, by = ba*bl*std::cos(t)/H; return alpha(x, y)*(beta(x, y)*lap + bx*ux + by*uy) + l0*u(x, y); };
    int kind[4]; bool any = false; for (int q = 0; q < 4; q++) { kind[q] = l0 > 0 ? 0 : s.range(0, 2); any |= kind[q] != 1; } if (!any) kind[0] = 0;
    BcFn bc = [=](int sd, double x, double y, double* A, double* B) { double th = u.k*X(x) + u.l*Y(y) + u.p, sg = (sd == 0 || sd == 2) ? -1 : 1, d = sd < 2 ? (u.c1 + u.c3*u.k*std::cos(th))/W : (u.c2 + u.c3*u.l*std::cos(th))/H; *A = kind[sd] == 1 ? 0 : 1; *B = kind[sd] == 0 ? 0 : kind[sd] == 1 ? 1 : sg*0.5*W; return *A*u(x, y) + *B*d; };
    Problem q; q.box = b; q.alpha = alpha; q.beta = beta; q.lambda = lam; q.f = f; q.bc = bc; bool adaptive = s.chance(40); Refine rf; rf.b = b; int how = s.range(0, 1);
    Problem r = q;
    if (!adaptive) { q.refine = r.refine = [](double, double) { return false; }; int cfg = s.range(0, 4); int nxs[] = {8, 4, 8, 6, 4}, ls[] = {1, 2, 0, 1, 1}; q.nx = nxs[cfg]; q.lmin = q.lmax = ls[cfg]; r = q; if (how && q.nx <= 8) r.nx *= 2; else { r.lmin++; r.lmax++; } }
    else { Shape sh{s.range(0, 9), s.range(4, 28)/32.0 + 0.0037, s.range(4, 28)/32.0 + 0.0041, s.range(2, 10)/32.0}; if (sh.kind == 7) sh.kind = 0; rf.shapes = {sh}; q.refine = [rf](double x, double y) { return rf(x, y); }; q.nx = how ? 6 : 4; q.lmin = 1; q.lmax = 3;
        r = q; r.nx = 2*q.nx; }
    auto run = [&](const Problem& z, size_t* n) { FnMesh om; om.build(z); if (n) *n = leafPaths(om).size(); Solution v = solveOn(om, z); double e = 0; for (auto& [k, w] : v) { Box pb = pathBox(b, k); for (int i = 0; i < z.nx; i++) for (int j = 0; j < z.nx; j++) { double d = std::fabs(w[i*z.nx + j] - u(pb.xl + (i + 0.5)*pb.w()/z.nx, pb.yl + (j + 0.5)*pb.h()/z.nx)); if (!(d <= e)) e = std::isnan(d) ? INFINITY : d; } } return e; };
    size_t n1 = 0, n2 = 0; double e1 = run(q, &n1); c.desc << "u=" << u.str() << " box=" << W << "x" << H << " beta amp=" << ba << " alpha amp=" << aa << " lambda=" << l0 << " bc=" << kind[0] << kind[1] << kind[2] << kind[3] << (adaptive ? " adaptive " + rf.str() : "") << " nx=" << q.nx << "->" << r.nx << " level=" << q.lmin << "->" << r.lmin << " leaves=" << n1;
    c.tag(adaptive ? "adaptive" : "uniform"); if (n1 > 40) { c.tag("too big"); return; }
    double e2 = run(r, &n2); if (adaptive && n1 != n2) { c.tag("mesh changed"); return; }
    double um = std::fabs(u.c0) + std::fabs(u.c1) + std::fabs(u.c2) + u.c3; c.nontrivial = true; c.maximum("coarse error", e1/um); c.maximum("error ratio fine/coarse", e2/e1);
    c.desc << " errors " << e1 << " -> " << e2;
    // theory: ratio 1/4 asymptotically
    c.maximum(adaptive ? "coarse error, adaptive" : "coarse error, uniform", e1/um); c.maximum(std::string("error ratio, ") + (adaptive ? "adaptive" : "uniform") , e2 > 1e-4*um ? e2/e1 : 0);
    if (!(e1 <= 0.08*um)) fail("order", "coarse error " + num(e1) + " is not small (solution size " + num(um) + ")");
    if (!(e2 <= (adaptive ? 0.5 : 0.4)*e1) && !(e2 <= 1e-4*um)) fail("order", "error " + num(e1) + " -> " + num(e2) + " when the resolution doubles");
}

int main(int argc, char** argv) {
    Session S(argc, argv); using rig::Sub;
    return rig::run(argc, argv, {
        {"u_ref", 120, u_ref, "more than one patch and variable coefficients"}, {"u_split", 120, u_split, "two different splittings"},
        {"a_ref", 140, a_ref, "at least one interface with unequal resolutions"}, {"a_affine", 100, a_affine, "leaves of at least two levels"}, {"a_local", 140, a_local, "at least one leaf family and more than four leaves"},
        {"b_ref", 160, b_ref, "at least one non-Dirichlet side"}, {"b_eq", 140, b_eq, "boundary equations checked at every root boundary point"}, {"b_direct", 140, b_direct, "more than one leaf"},
        {"m_sym", 170, m_sym, "more than one leaf and at least one transformation"}, {"m_linear", 190, m_linear, "more than one leaf"},
        {"h_history", 260, h_history, "several leaves, two or more solves, data or operators changed in between"}, {"o_options", 260, o_options, "several leaves, two or more solves, data or operators changed in between"},
        {"f_global", 140, f_global, "more than one leaf"}, {"v_order", 80, v_order, "two resolutions of a manufactured solution"},
    });
}
