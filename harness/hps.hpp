// Structured problems, independent reference discretisation, and mesh helpers for the HPS properties.
#ifndef VERIF_HPS_HPP_
#define VERIF_HPS_HPP_

#include <EllipticForest.hpp>
#include <HPSAlgorithm.hpp>
#include <Patches/FiniteVolume/FiniteVolume.hpp>

#include <algorithm>
#include <array>
#include <memory>

#include "rig.hpp"

extern "C" void dgesv_(int* n, int* nrhs, double* a, int* lda, int* ipiv, double* b, int* ldb, int* info);

namespace vf {

namespace EF = EllipticForest;
using Patch = EF::FiniteVolumePatch;
using Grid = EF::FiniteVolumeGrid;
using Solver = EF::FiniteVolumeSolver;
using Node = EF::Node<Patch>;
using Mesh = EF::Mesh<Patch>;
using HPS = EF::HPSAlgorithm<Grid, Solver, Patch, double>;
using Fn = std::function<double(double, double)>;

// Starts the app once, with its console output sent to /dev/null.
struct Session {
    std::unique_ptr<EF::EllipticForestApp> app;
    int argc = 1; std::vector<char*> args; char** argv = nullptr; std::ofstream null; std::streambuf* saved;
    Session(int, char** av) {
        null.open("/dev/null"); saved = std::cout.rdbuf(null.rdbuf());
        FILE* f = freopen("/dev/null", "w", stdout); (void) f;
        args = {av[0], nullptr}; argv = args.data();
        app.reset(new EF::EllipticForestApp(&argc, &argv));
        app->options.setOption("cache-operators", false);
        app->options.setOption("homogeneous-rhs", false);
    }
    ~Session() { app.reset(); std::cout.rdbuf(saved); }
};
inline void setOptions(bool cache, bool homogeneous) {
    auto& app = EF::EllipticForestApp::getInstance();
    app.options.setOption("cache-operators", cache);
    app.options.setOption("homogeneous-rhs", homogeneous);
}

struct Box { double xl, xu, yl, yu; double w() const { return xu - xl; } double h() const { return yu - yl; } };

// c0 + c1 X + c2 Y + c3 sin(k X + l Y + p) + c4 X Y in coordinates X, Y scaled to the box
struct Smooth {
    double c0 = 0, c1 = 0, c2 = 0, c3 = 0, k = 0, l = 0, p = 0, c4 = 0; Box b{0, 1, 0, 1};
    double operator()(double x, double y) const {
        double X = (x - b.xl)/b.w(), Y = (y - b.yl)/b.h();
        return c0 + c1*X + c2*Y + c3*std::sin(k*X + l*Y + p) + c4*X*Y;
    }
    std::string str() const { char s[200]; snprintf(s, 200, "%g%+gX%+gY%+gsin(%gX%+gY%+g)%+gXY", c0, c1, c2, c3, k, l, p, c4); return s; }
};
inline Smooth genSmooth(rig::Src& s, Box b, double mag) {
    Smooth f; f.b = b; f.c0 = s.real(mag); f.c1 = s.real(mag); f.c2 = s.real(mag);
    if (s.chance(60)) { f.c3 = s.real(mag); f.k = s.real(6); f.l = s.real(6); f.p = s.real(3); }
    if (s.chance(40)) f.c4 = s.real(mag);
    if (s.chance(10)) {  // nothing, constant, one variable only, or opposite values at mirrored places
        double c = f.c1; int q = s.range(0, 6); f.c0 = f.c1 = f.c2 = f.c3 = f.c4 = 0;
        if (q == 1) f.c0 = c; else if (q == 2) f.c1 = c; else if (q == 3) f.c2 = c; else if (q == 4) { f.c1 = c; f.c2 = -c; } else if (q == 5) { f.c0 = c/4; f.c1 = f.c2 = -c/2; f.c4 = c; } else if (q == 6) { f.c0 = -c/2; f.c1 = c; }
    }
    return f;
}
// positive coefficient in [lo, lo + 2 amp]
struct Positive {
    double lo = 1, amp = 0, k = 0, l = 0, p = 0; bool jump = false; Box b{0, 1, 0, 1};
    double operator()(double x, double y) const {
        double X = (x - b.xl)/b.w(), Y = (y - b.yl)/b.h();
        if (jump) return lo + amp*(1 + std::tanh(60*std::sin(k*X + l*Y + p)));  // steep, but not sensitive to rounding of x and y
        return lo + amp*(1 + std::sin(k*X + l*Y + p));
    }
    bool constant() const { return amp == 0; }
    std::string str() const { char s[160]; snprintf(s, 160, "%g+%g*%s(%gX%+gY%+g)", lo, amp, jump ? "jump" : "(1+sin)", k, l, p); return s; }
};
inline Positive genPositive(rig::Src& s, Box b, int pctvar) {
    Positive f; f.b = b; if (s.chance(60)) f.lo = 0.25 + s.range(0, 11)*0.25;
    if (s.chance(pctvar)) { f.amp = 0.25*s.range(1, 6); f.k = s.real(7); f.l = s.real(7); f.p = s.real(3); f.jump = s.chance(15); }
    return f;
}

// Refinement criterion: union of up to three shapes, in box coordinates.
struct Shape { int kind; double a, b, r; };
struct Refine {
    std::vector<Shape> shapes; Box b{0, 1, 0, 1};
    bool operator()(double x, double y) const {
        double X = (x - b.xl)/b.w(), Y = (y - b.yl)/b.h();
        for (auto& s : shapes) {
            switch (s.kind) {
                case 0: if (std::hypot(X - s.a, Y - s.b) < s.r) return true; break;              // disk
                case 1: if (X > s.a) return true; break;                                        // half planes
                case 2: if (X < s.a) return true; break;
                case 3: if (Y > s.b) return true; break;
                case 4: if (Y < s.b) return true; break;
                case 5: if (std::fabs(std::hypot(X - s.a, Y - s.b) - s.r) < 0.06) return true; break; // ring
                case 6: if (std::fabs(X + Y - 1) < s.r/4) return true; break;                    // diagonal band
                case 7: return true;                                                            // everywhere
                case 8: if (X > s.a && Y > s.b) return true; break;                              // quadrants
                case 9: if (X < s.a && Y > s.b) return true; break;
                case 10: if (X > s.a && Y < s.b) return true; break;
                case 11: if (X < s.a && Y < s.b) return true; break;
                case 16: if (X > s.a) return true; break;                                       // half planes whose limit lies close to a sample
                case 17: if (X < s.a) return true; break;
                case 18: if (Y > s.b) return true; break;
                case 19: if (Y < s.b) return true; break;
                case 12: case 13: case 14: case 15: {                                            // the cell at the vertex (a, b), on every level; r = cells per patch side
                    double x = (s.kind & 1 ? s.a - X : X - s.a)*2*s.r, y = (s.kind & 2 ? s.b - Y : Y - s.b)*2*s.r; if (x <= 0 || y <= 0 || std::fabs(x - y) > 1e-5*x) break;
                    double l = std::log2(x); if (std::fabs(l - std::round(l)) < 1e-5) return true; break; }
            }
        }
        return false;
    }
    std::string str() const { std::string o; for (auto& s : shapes) { char t[80]; snprintf(t, 80, "[%d a=%g b=%g r=%g]", s.kind, s.a, s.b, s.r); o += t; } return o.empty() ? "none" : o; }
};
inline Refine genRefine(rig::Src& s, Box b) {
    Refine r; r.b = b; int n = s.range(0, 8); n = n == 0 ? 0 : (n < 6 ? 1 : (n < 8 ? 2 : 3));
    for (int i = 0; i < n; i++) { Shape q; q.kind = s.range(0, 9); q.a = s.range(0, 32)/32.0; q.b = s.range(0, 32)/32.0; q.r = s.range(1, 16)/32.0; r.shapes.push_back(q); }
    return r;
}
// A vertex of the coarse mesh refined on every level up to lmax: few leaves, many levels.
template<class M> inline void cornerMesh(rig::Src& s, M& m, int maxlevel) {
    int inner = s.chance(30); double d = inner ? 4 : 1; int ia = s.range(0, int(d)), ib = s.range(0, int(d)), kind = 12 + s.range(0, 3); if (ia == 0) kind &= ~1; if (ia == int(d)) kind |= 1; if (ib == 0) kind &= ~2; if (ib == int(d)) kind |= 2;
    m.refine.b = m.box; m.refine.shapes = {Shape{kind, ia/d, ib/d, double(m.nx)}}; m.lmin = inner ? 2 : s.range(0, 1); m.lmax = std::max(m.lmin + 2, s.range(3, maxlevel)); if (s.chance(20)) m.refine.shapes.push_back(Shape{0, s.range(0, 8)/8.0, s.range(0, 8)/8.0, 0.1});
}
// One quadrant of the domain refined three or more levels further than the coarsest leaf of its neighbours.
template<class M> inline void jumpMesh(rig::Src& s, M& m) {
    m.refine.b = m.box; m.refine.shapes = {Shape{8 + s.range(0, 3), 0.5, 0.5, 0.1}}; m.nx = s.range(2, 3); m.lmin = 2; m.lmax = 5;
}
inline Box genBox(rig::Src& s) {
    Box b; double w[] = {1, 2, 0.5, 20, 3.1, 0.125};
    b.xl = s.chance(60) ? s.sint(40)/4.0 : 0; b.yl = s.chance(60) ? s.sint(40)/4.0 : 0;
    double W = w[s.range(0, 5)]; double r[] = {1, 1, 2, 0.5, 1.7, 1.2, 0.85, 1.05}; double H = W*r[s.range(0, 7)];
    b.xu = b.xl + W; b.yu = b.yl + H; return b;
}

// also boxes of the size of atoms and of planets
inline Box scaledBox(rig::Src& s) { Box b = genBox(s); int e = s.sint(8); if (!s.chance(5)) return b; double t = std::pow(10.0, e); return {b.xl*t, b.xu*t, b.yl*t, b.yu*t}; }

struct MeshSpec { int nx = 4; Box box{0, 1, 0, 1}; Refine refine; int lmin = 0, lmax = 0;
    std::string str() const { char t[200]; snprintf(t, 200, "nx=%d box=[%g,%g]x[%g,%g] levels=%d..%d refine=", nx, box.xl, box.xu, box.yl, box.yu, lmin, lmax); return t + refine.str(); } };

// A mesh built through the public API plus everything needed to free it again.
struct OwnedMesh {
    Mesh mesh; EF::FiniteVolumeNodeFactory factory{MPI_COMM_WORLD}; std::unique_ptr<Grid> grid; std::unique_ptr<Patch> root; bool built = false;
    void build(const MeshSpec& m) {
        release();
        grid.reset(new Grid(MPI_COMM_WORLD, m.nx, m.box.xl, m.box.xu, m.nx, m.box.yl, m.box.yu));
        root.reset(new Patch(MPI_COMM_WORLD, *grid));
        Refine r = m.refine;
        mesh.refineByFunction([r](double x, double y) { return r(x, y); }, 1.0, m.lmin, m.lmax, *root, factory);
        built = true;
    }
    void release() {
        if (!built) return;
        for (auto& [k, n] : mesh.quadtree.map) { delete n; n = nullptr; }
        mesh.quadtree.map.clear();
        p4est_connectivity_t* c = mesh.quadtree.p4est->connectivity;
        p4est_destroy(mesh.quadtree.p4est); p4est_connectivity_destroy(c); built = false;
    }
    ~OwnedMesh() { release(); }
    std::vector<Node*> leaves() {
        std::vector<Node*> v; for (auto& [k, n] : mesh.quadtree.map) if (n && n->leaf) v.push_back(n); return v;
    }
};

inline Box childBox(Box b, int c) {
    double xm = (b.xl + b.xu)/2, ym = (b.yl + b.yu)/2;
    return Box{c & 1 ? xm : b.xl, c & 1 ? b.xu : xm, c & 2 ? ym : b.yl, c & 2 ? b.yu : ym};
}
inline Box pathBox(Box root, const std::string& path) { for (size_t i = 1; i < path.size(); i++) root = childBox(root, path[i] - '0'); return root; }

// ---------------------------------------------------------------------------------------------
// Reference: the composite five-point scheme on the tree, assembled monolithically and solved densely.
//   unknowns: u on every leaf cell, one interface trace per merge interface (at the coarser resolution of
//   the four children), the root trace.  equations: cell balance on each leaf with half-cell ghost traces,
//   equality of the (averaged) normal derivatives across each interface, a g + b dg = r on the root.
struct RefTree {
    struct N { std::string path; Box box; bool leaf = false; int ch[4] = {-1, -1, -1, -1}; int side = 0, m = 0, u0 = -1, g0 = -1; };
    using Expr = std::vector<std::pair<int, double>>;
    using Side = std::vector<Expr>;
    using Sides = std::array<Side, 4>;
    std::vector<N> nodes; int nx = 0, nunk = 0, gr = 0; std::map<std::string, int> index;
    std::vector<double> A, b, sol; int maxtag = 0;

    static void add(Expr& a, const Expr& c, double s) { for (auto& [i, w] : c) a.push_back({i, w*s}); }
    static Expr norm(Expr e) {
        std::sort(e.begin(), e.end()); Expr o;
        for (auto& p : e) { if (!o.empty() && o.back().first == p.first) o.back().second += p.second; else o.push_back(p); }
        return o;
    }
    static Side refineSide(const Side& c) {  // n -> 2n
        int n = int(c.size()); Side f(2*n);
        for (int i = 0; i < n; i++) {
            Expr lo, hi;
            if (i > 0) { add(lo, c[i - 1], 0.25); add(lo, c[i], 0.75); }
            else if (n >= 3) { add(lo, c[0], 1.40625); add(lo, c[1], -0.5625); add(lo, c[2], 0.15625); }
            else if (n == 2) { add(lo, c[0], 1.25); add(lo, c[1], -0.25); }
            else add(lo, c[0], 1);
            if (i < n - 1) { add(hi, c[i], 0.75); add(hi, c[i + 1], 0.25); }
            else if (n >= 3) { add(hi, c[n - 1], 1.40625); add(hi, c[n - 2], -0.5625); add(hi, c[n - 3], 0.15625); }
            else if (n == 2) { add(hi, c[1], 1.25); add(hi, c[0], -0.25); }
            else add(hi, c[0], 1);
            f[2*i] = norm(lo); f[2*i + 1] = norm(hi);
        }
        return f;
    }
    static Side coarsenSide(const Side& f) { Side c(f.size()/2); for (size_t i = 0; i < c.size(); i++) { Expr e; add(e, f[2*i], 0.5); add(e, f[2*i + 1], 0.5); c[i] = norm(e); } return c; }
    static Side cat(const Side& a, const Side& c) { Side o = a; o.insert(o.end(), c.begin(), c.end()); return o; }
    static Side cut(const Side& a, int lo, int n) { return Side(a.begin() + lo, a.begin() + lo + n); }

    int build(const std::string& path, Box box, const std::set<std::string>& leafset) {
        int id = int(nodes.size()); nodes.emplace_back(); nodes[id].path = path; nodes[id].box = box; index[path] = id;
        if (leafset.count(path)) { nodes[id].leaf = true; nodes[id].side = nx; return id; }
        if (path.size() > 20) rig::fail("tree", "leaf set does not form a complete quadtree at " + path);
        int m = 1 << 30, mx = 0;
        for (int c = 0; c < 4; c++) { int k = build(path + char('0' + c), childBox(box, c), leafset); nodes[id].ch[c] = k; m = std::min(m, nodes[k].side); mx = std::max(mx, nodes[k].side); }
        nodes[id].m = m; nodes[id].side = 2*m;
        int tag = 0; while (m < mx) { m *= 2; tag++; } maxtag = std::max(maxtag, tag);
        return id;
    }
    int rowc = 0;
    void row(const Expr& e, double rhs) { for (auto& [i, w] : e) A[size_t(i)*nunk + rowc] += w; b[rowc] += rhs; rowc++; }

    struct Coef { Fn alpha, beta, lambda, f; };
    Sides assemble(int id, const Sides& g, const Coef& C) {  // returns normal-derivative expressions (W,E,S,N), coordinate direction
        N n = nodes[id];
        if (n.leaf) {
            double dx = n.box.w()/nx, dy = n.box.h()/nx; Sides h;
            auto U = [&](int i, int j) { return n.u0 + i*nx + j; };
            for (int i = 0; i < nx; i++) for (int j = 0; j < nx; j++) {
                double x = n.box.xl + (i + 0.5)*dx, y = n.box.yl + (j + 0.5)*dy; Expr e; double a = C.alpha(x, y);
                double bw = a*C.beta(x - dx/2, y)/(dx*dx), be = a*C.beta(x + dx/2, y)/(dx*dx), bs = a*C.beta(x, y - dy/2)/(dy*dy), bn = a*C.beta(x, y + dy/2)/(dy*dy);
                double c = C.lambda(x, y);
                if (i > 0) { e.push_back({U(i - 1, j), bw}); c -= bw; } else { add(e, g[0][j], 2*bw); c -= 2*bw; }
                if (i < nx - 1) { e.push_back({U(i + 1, j), be}); c -= be; } else { add(e, g[1][j], 2*be); c -= 2*be; }
                if (j > 0) { e.push_back({U(i, j - 1), bs}); c -= bs; } else { add(e, g[2][i], 2*bs); c -= 2*bs; }
                if (j < nx - 1) { e.push_back({U(i, j + 1), bn}); c -= bn; } else { add(e, g[3][i], 2*bn); c -= 2*bn; }
                e.push_back({U(i, j), c}); row(e, C.f(x, y));
            }
            for (int k = 0; k < nx; k++) {
                Expr w, e, s, t;
                w.push_back({U(0, k), 2/dx}); add(w, g[0][k], -2/dx); e.push_back({U(nx - 1, k), -2/dx}); add(e, g[1][k], 2/dx);
                s.push_back({U(k, 0), 2/dy}); add(s, g[2][k], -2/dy); t.push_back({U(k, nx - 1), -2/dy}); add(t, g[3][k], 2/dy);
                h[0].push_back(w); h[1].push_back(e); h[2].push_back(s); h[3].push_back(t);
            }
            return h;
        }
        int m = n.m; auto I = [&](int q) { Side s(m); for (int k = 0; k < m; k++) s[k] = {{n.g0 + q*m + k, 1.0}}; return s; };
        Side ag = I(0), bo = I(1), ab = I(2), go = I(3);
        Sides cg[4];
        cg[0] = {cut(g[0], 0, m), ab, cut(g[2], 0, m), ag};
        cg[1] = {ab, cut(g[1], 0, m), cut(g[2], m, m), bo};
        cg[2] = {cut(g[0], m, m), go, ag, cut(g[3], 0, m)};
        cg[3] = {go, cut(g[1], m, m), bo, cut(g[3], m, m)};
        Sides hh[4];
        for (int c = 0; c < 4; c++) {
            int s = nodes[n.ch[c]].side;
            for (int q = 0; q < 4; q++) while (int(cg[c][q].size()) < s) cg[c][q] = refineSide(cg[c][q]);
            hh[c] = assemble(n.ch[c], cg[c], C);
            for (int q = 0; q < 4; q++) while (int(hh[c][q].size()) > m) hh[c][q] = coarsenSide(hh[c][q]);
        }
        auto eq = [&](const Side& p, const Side& q) { for (int k = 0; k < m; k++) { Expr e = p[k]; add(e, q[k], -1); row(norm(e), 0); } };
        eq(hh[0][3], hh[2][2]); eq(hh[1][3], hh[3][2]); eq(hh[0][1], hh[1][0]); eq(hh[2][1], hh[3][0]);
        return {cat(hh[0][0], hh[2][0]), cat(hh[1][1], hh[3][1]), cat(hh[0][2], hh[1][2]), cat(hh[2][3], hh[3][3])};
    }
    using BC = std::function<double(int, double, double, double*, double*)>;
    static int countUnknowns(const std::set<std::string>& leafset, int nx) { return int(leafset.size())*nx*nx; }

    RefTree(Box box, int nx_, const std::set<std::string>& leafset) : nx(nx_) { build("0", box, leafset);
        int k = 0; for (auto& n : nodes) { if (n.leaf) { n.u0 = k; k += nx*nx; } else { n.g0 = k; k += 4*n.m; } } gr = k; nunk = k + 4*nodes[0].side; }
    // Returns false when the dense system is singular.
    bool solve(const Coef& C, const BC& bc) {
        A.assign(size_t(nunk)*nunk, 0.0); b.assign(nunk, 0.0); rowc = 0;
        int s = nodes[0].side; Sides g; for (int q = 0; q < 4; q++) for (int k = 0; k < s; k++) g[q].push_back({{gr + q*s + k, 1.0}});
        Sides h = assemble(0, g, C); Box bx = nodes[0].box;
        for (int q = 0; q < 4; q++) for (int k = 0; k < s; k++) {
            double x = q == 0 ? bx.xl : q == 1 ? bx.xu : bx.xl + (k + 0.5)*bx.w()/s, y = q == 2 ? bx.yl : q == 3 ? bx.yu : bx.yl + (k + 0.5)*bx.h()/s;
            double a = 0, c = 0, r = bc(q, x, y, &a, &c); Expr e; add(e, g[q][k], a); add(e, h[q][k], c); row(norm(e), r);
        }
        // Every equation in its own unit: rows of very different sizes would cost the elimination its accuracy
        { std::vector<double> big(nunk, 0.0); for (size_t i = 0; i < size_t(nunk); i++) for (int r = 0; r < nunk; r++) big[r] = std::max(big[r], std::fabs(A[i*nunk + r])); for (int r = 0; r < nunk; r++) if (!(big[r] > 0)) return false; else b[r] /= big[r]; for (size_t i = 0; i < size_t(nunk); i++) for (int r = 0; r < nunk; r++) A[i*nunk + r] /= big[r]; }
        int n = nunk, one = 1, info = 0; std::vector<int> piv(n); sol = b;
        dgesv_(&n, &one, A.data(), &n, piv.data(), sol.data(), &n, &info);
        A.clear(); A.shrink_to_fit();
        return info == 0;
    }
    double u(const std::string& path, int idx) const { return sol[nodes[index.at(path)].u0 + idx]; }
    double rootG(int k) const { return sol[gr + k]; }
    double scale() const { double m = 0; for (double x : sol) m = std::max(m, std::fabs(x)); return m; }
};

// Boundary condition a g + b dg = r; per side: 0 Dirichlet, 1 Neumann, 2 Robin (constant), 3 Robin (varying)
struct Bc {
    int kind[4] = {0, 0, 0, 0}; double ca[4] = {1, 1, 1, 1}, cb[4] = {0, 0, 0, 0}, thr[4] = {0.4713, 0.4713, 0.4713, 0.4713}; Smooth r[4]; Box box{0, 1, 0, 1};
    double operator()(int side, double x, double y, double* a, double* b) const {
        double sg = (side == 0 || side == 2) ? -1 : 1;
        double t = side < 2 ? (y - box.yl)/box.h() : (x - box.xl)/box.w();
        switch (kind[side]) {
            case 0: *a = ca[side]; *b = 0; break;
            case 1: *a = 0; *b = cb[side]; break;
            case 2: *a = ca[side]; *b = sg*cb[side]; break;
            case 4: case 5: { bool flux = (t < thr[side]) == (kind[side] == 4); *a = flux ? 0 : ca[side]; *b = flux ? sg*cb[side] : 0; break; }  // the kind changes along the side
            case 6: { int z = int(std::floor(t*37.31)) % 3; *a = z == 1 ? 0 : ca[side]; *b = z ? sg*cb[side] : 0; break; }  // ... several times
            default: *a = ca[side]*(1 + t); *b = t < 0.4713 ? 0 : sg*cb[side]*t; break;
        }
        return r[side](x, y);
    }
    bool dirichlet() const { for (int q = 0; q < 4; q++) if (kind[q]) return false; return true; }
    std::string str() const { std::string o; const char* n[] = {"D", "N", "R", "V", "ND", "DN", "DNR"}; for (int q = 0; q < 4; q++) { char t[64]; snprintf(t, 64, "%c:%s(a=%g,b=%g) ", "WESN"[q], n[kind[q]], ca[q], cb[q]); o += t; } return o; }
};
inline Bc genBc(rig::Src& s, Box b, int pctDirichlet) {
    Bc c; c.box = b; Smooth base = genSmooth(s, b, 4);
    if (s.chance(pctDirichlet)) { for (int q = 0; q < 4; q++) c.r[q] = base; return c; }
    for (int q = 0; q < 4; q++) {
        c.kind[q] = s.range(0, 3); if (s.chance(15)) { c.kind[q] = s.range(4, 6); double th[] = {0.4713, 0.1171, 0.8393, 0.0213}; c.thr[q] = th[s.range(0, 3)]; } c.ca[q] = 0.5 + s.range(0, 6)*0.25; if (s.chance(20)) c.ca[q] = -c.ca[q];
        double sc = (q < 2 ? b.w() : b.h()); double mag[] = {1, 0.25, 2, 0.1, 1e-4, 30}; c.cb[q] = sc*mag[s.range(0, 5)]*(c.ca[q] < 0 ? -1 : 1);
        c.r[q] = s.chance(50) ? genSmooth(s, b, 4) : base;
    }
    // keep the problem nonsingular: at least one Dirichlet or constant-Robin side
    bool ok = false; for (int q = 0; q < 4; q++) ok |= c.kind[q] != 1 && !(c.kind[q] == 5 && c.thr[q] < 0.2) && !(c.kind[q] == 4 && c.thr[q] > 0.8);
    if (!ok) c.kind[s.range(0, 3)] = 0;
    return c;
}

struct Pde { Positive alpha, beta; double lam0 = 0, lamv = 0; int lamkind = 0; Smooth f; Box box{0, 1, 0, 1};
    double lambda(double x, double y) const { double X = (x - box.xl)/box.w(), Y = (y - box.yl)/box.h(); return lam0*(lamkind == 2 ? 1 + 0.5*std::sin(3*X + 2*Y) : 1.0); }
    std::string str() const { char t[80]; snprintf(t, 80, " lambda=%g%s", lam0, lamkind == 2 ? "*(1+.5sin)" : ""); return "alpha=" + alpha.str() + " beta=" + beta.str() + t + " f=" + f.str(); } };
inline Pde genPde(rig::Src& s, Box b, bool dirichlet) {
    Pde p; p.box = b; p.alpha = genPositive(s, b, 60); p.beta = genPositive(s, b, 75);
    double scale = 10.0*(1/(b.w()*b.w()) + 1/(b.h()*b.h()));
    int k = s.range(0, 3);
    if (k == 1) { p.lam0 = -scale*s.range(1, 8)/4.0; p.lamkind = 1; }
    else if (k == 2) { p.lam0 = -scale*s.range(1, 8)/4.0; p.lamkind = 2; }
    else if (k == 3 && dirichlet) { p.lam0 = 0.25*scale*p.alpha.lo*p.beta.lo*s.range(1, 4)/4.0; p.lamkind = 3; }
    p.f = genSmooth(s, b, 5.0*scale/10); if (s.chance(8)) { p.alpha.amp = p.beta.amp = 0; if (p.lamkind == 2) p.lamkind = 1; }
    return p;
}
inline void configure(Solver& sv, const Pde& p) {
    sv.solver_type = EF::FiniteVolumeSolverType::FivePointStencil;
    sv.alpha_function = [p](double x, double y) { return p.alpha(x, y); };
    sv.beta_function = [p](double x, double y) { return p.beta(x, y); };
    sv.lambda_function = [p](double x, double y) { return p.lambda(x, y); };
    sv.rhs_function = [p](double x, double y) { return p.f(x, y); };
}
inline RefTree::Coef coef(const Pde& p) {
    return {[p](double x, double y) { return p.alpha(x, y); }, [p](double x, double y) { return p.beta(x, y); },
            [p](double x, double y) { return p.lambda(x, y); }, [p](double x, double y) { return p.f(x, y); }};
}
using Solution = std::map<std::string, std::vector<double>>;
inline Solution solution(OwnedMesh& m) {
    Solution s; for (auto* n : m.leaves()) { auto& u = n->data.vectorU(); std::vector<double> v; for (size_t i = 0; i < u.size(); i++) v.push_back(u[i]); s[n->path] = v; if (rig::current) { rig::current->mix(n->path); for (double x : v) rig::current->mix(x); } } return s;
}
inline std::set<std::string> leafPaths(OwnedMesh& m) { std::set<std::string> s; for (auto* n : m.leaves()) s.insert(n->path); return s; }
inline double maxabs(const Solution& s) { double m = 0; for (auto& [k, v] : s) for (double x : v) m = std::isfinite(x) ? std::max(m, std::fabs(x)) : INFINITY; return m; }
inline double diff(const Solution& a, const Solution& b) {
    if (a.size() != b.size()) return INFINITY; double m = 0;
    for (auto& [k, v] : a) { auto it = b.find(k); if (it == b.end() || it->second.size() != v.size()) return INFINITY;
        for (size_t i = 0; i < v.size(); i++) { double d = std::fabs(v[i] - it->second[i]); if (!(d <= m)) m = std::isnan(d) ? INFINITY : d; } }
    return m;
}
inline std::string num(double x) { char t[40]; snprintf(t, 40, "%.6g", x); return t; }

} // namespace vf
#endif
