// A complete boundary-value problem on a mesh, solved through the public HPS interface.
#ifndef VERIF_PROBLEM_HPP_
#define VERIF_PROBLEM_HPP_
#include "hps.hpp"
namespace vf {

using BcFn = std::function<double(int, double, double, double*, double*)>;
using Pred = std::function<bool(double, double)>;

struct Problem {
    Box box{0, 1, 0, 1}; int nx = 4, lmin = 0, lmax = 0; Pred refine; Fn alpha, beta, lambda, f; BcFn bc; double unit = 1;  // unit: size of the data, 1 unless rescaled
    RefTree::Coef coef() const { return {alpha, beta, lambda, f}; }
};
struct FnMesh : OwnedMesh {
    using OwnedMesh::build;
    void build(const Problem& p) {
        release();
        grid.reset(new Grid(MPI_COMM_WORLD, p.nx, p.box.xl, p.box.xu, p.nx, p.box.yl, p.box.yu));
        root.reset(new Patch(MPI_COMM_WORLD, *grid));
        Pred r = p.refine; mesh.refineByFunction([r](double x, double y) { return r(x, y); }, 1.0, p.lmin, p.lmax, *root, factory);
        built = true;
    }
};
inline void setSolver(Solver& sv, const Problem& p, bool fish = false) {
    sv.solver_type = fish ? EF::FiniteVolumeSolverType::FISHPACK90 : EF::FiniteVolumeSolverType::FivePointStencil;
    sv.alpha_function = p.alpha; sv.beta_function = p.beta; sv.lambda_function = p.lambda; sv.rhs_function = p.f;
}
inline std::function<double(int, double, double, double*, double*)> wrap(BcFn bc) { return bc; }
inline Problem makeProblem(const MeshSpec& m, const Pde& p, const Bc& bc) {
    Problem q; q.box = m.box; q.nx = m.nx; q.lmin = m.lmin; q.lmax = m.lmax; Refine r = m.refine;
    q.refine = [r](double x, double y) { return r(x, y); };
    auto c = vf::coef(p); q.alpha = c.alpha; q.beta = c.beta; q.lambda = c.lambda; q.f = c.f;
    q.bc = [bc](int s, double x, double y, double* a, double* b) { return bc(s, x, y, a, b); };
    return q;
}
// Runs all stages on a fresh mesh.
inline Solution solveOn(FnMesh& om, const Problem& p, bool fish = false) {
    Solver sv; setSolver(sv, p, fish); HPS h(MPI_COMM_WORLD, om.mesh, sv);
    h.setupStage(); h.buildStage(); h.upwardsStage(p.f); h.solveStage(wrap(p.bc)); return solution(om);
}
inline Solution solveFresh(const Problem& p, bool fish = false) { FnMesh om; om.build(p); return solveOn(om, p, fish); }

// Leaf values of a uniform mesh as one N x N array, index I*N + J.
inline std::vector<double> globalGrid(const Solution& s, int nx, int L) {
    int N = nx << L; std::vector<double> g(size_t(N)*N, NAN);
    for (auto& [path, v] : s) {
        int oi = 0, oj = 0; for (size_t k = 1; k < path.size(); k++) { oi = 2*oi + ((path[k] - '0') & 1); oj = 2*oj + ((path[k] - '0') >> 1); }
        for (size_t q = 0; q < v.size(); q++) { size_t I = oi*nx + q/nx, J = oj*nx + q%nx; if (I < size_t(N) && J < size_t(N)) g[I*N + J] = v[q]; }
    }
    return g;
}
inline Problem transformed(const Problem& p, int kind, double c, double d) {
    Problem q = p;
    switch (kind) {
        case 0: { // translate by (c, d)
            q.box = {p.box.xl + c, p.box.xu + c, p.box.yl + d, p.box.yu + d};
            auto sh = [c, d](Fn f) -> Fn { return [=](double x, double y) { return f(x - c, y - d); }; };
            q.alpha = sh(p.alpha); q.beta = sh(p.beta); q.lambda = sh(p.lambda); q.f = sh(p.f);
            Pred r = p.refine; q.refine = [=](double x, double y) { return r(x - c, y - d); };
            BcFn b = p.bc; q.bc = [=](int s, double x, double y, double* A, double* B) { return b(s, x - c, y - d, A, B); }; break; }
        case 1: { // scale by c
            q.box = {p.box.xl*c, p.box.xu*c, p.box.yl*c, p.box.yu*c};
            auto sc = [c](Fn f, double m) -> Fn { return [=](double x, double y) { return m*f(x/c, y/c); }; };
            q.alpha = sc(p.alpha, 1); q.beta = sc(p.beta, 1); q.lambda = sc(p.lambda, 1/(c*c)); q.f = sc(p.f, 1/(c*c));
            Pred r = p.refine; q.refine = [=](double x, double y) { return r(x/c, y/c); };
            BcFn b = p.bc; q.bc = [=](int s, double x, double y, double* A, double* B) { double v = b(s, x/c, y/c, A, B); *B *= c; return v; }; break; }
        case 2: { // mirror x
            double t = p.box.xl + p.box.xu; auto mi = [t](Fn f) -> Fn { return [=](double x, double y) { return f(t - x, y); }; };
            q.alpha = mi(p.alpha); q.beta = mi(p.beta); q.lambda = mi(p.lambda); q.f = mi(p.f);
            Pred r = p.refine; q.refine = [=](double x, double y) { return r(t - x, y); };
            BcFn b = p.bc; q.bc = [=](int s, double x, double y, double* A, double* B) { double v = b(s < 2 ? 1 - s : s, t - x, y, A, B); if (s < 2) *B = -*B; return v; }; break; }
        case 3: { // mirror y
            double t = p.box.yl + p.box.yu; auto mi = [t](Fn f) -> Fn { return [=](double x, double y) { return f(x, t - y); }; };
            q.alpha = mi(p.alpha); q.beta = mi(p.beta); q.lambda = mi(p.lambda); q.f = mi(p.f);
            Pred r = p.refine; q.refine = [=](double x, double y) { return r(x, t - y); };
            BcFn b = p.bc; q.bc = [=](int s, double x, double y, double* A, double* B) { double v = b(s >= 2 ? 5 - s : s, x, t - y, A, B); if (s >= 2) *B = -*B; return v; }; break; }
        default: { // exchange x and y
            q.box = {p.box.yl, p.box.yu, p.box.xl, p.box.xu};
            auto ex = [](Fn f) -> Fn { return [=](double x, double y) { return f(y, x); }; };
            q.alpha = ex(p.alpha); q.beta = ex(p.beta); q.lambda = ex(p.lambda); q.f = ex(p.f);
            Pred r = p.refine; q.refine = [=](double x, double y) { return r(y, x); };
            BcFn b = p.bc; q.bc = [=](int s, double x, double y, double* A, double* B) { return b(s ^ 2, y, x, A, B); }; }
    }
    return q;
}
inline Solution transformed(const Solution& s, int kind, int nx) {
    if (kind < 2) return s;
    Solution o;
    for (auto& [path, v] : s) {
        std::string p = path; for (size_t k = 1; k < p.size(); k++) { int c = p[k] - '0'; c = kind == 2 ? c ^ 1 : kind == 3 ? c ^ 2 : ((c & 1) << 1 | c >> 1); p[k] = char('0' + c); }
        std::vector<double> w(v.size());
        for (int i = 0; i < nx; i++) for (int j = 0; j < nx; j++) { int a = kind == 2 ? nx - 1 - i : kind == 4 ? j : i, b = kind == 3 ? nx - 1 - j : kind == 4 ? i : j; w[a*nx + b] = v[i*nx + j]; }
        o[p] = w;
    }
    return o;
}
// Data, coefficients or boundary equations in other units: the solution only changes by the factor unit.
inline Problem rescaled(rig::Src& s, rig::Ctx& c, Problem p, int pct = 25) {
    bool go = s.chance(pct); int kind = s.range(0, 4), e = s.sint(12); if (!go || e == 0) return p;
    double t = std::pow(10.0, kind == 0 || kind == 3 ? e : kind == 4 ? e/4 : e/2); auto mul = [t](Fn f) -> Fn { return [=](double x, double y) { return t*f(x, y); }; };
    const char* nm[] = {"data", "alpha", "beta", "data", "boundary equations"}; c.desc << " " << nm[kind] << " times " << t; c.tag(std::string("rescaled ") + nm[kind]);
    if (kind == 0 || kind == 3) { p.unit *= t; p.f = mul(p.f); BcFn b = p.bc; p.bc = [=](int sd, double x, double y, double* A, double* B) { return t*b(sd, x, y, A, B); }; }
    else if (kind == 4) { BcFn b = p.bc; p.bc = [=](int sd, double x, double y, double* A, double* B) { double r = b(sd, x, y, A, B); if (sd % 2 == 0) { *A *= t; *B *= t; r *= t; } return r; }; }
    else { (kind == 1 ? p.alpha : p.beta) = mul(kind == 1 ? p.alpha : p.beta); p.lambda = mul(p.lambda); p.f = mul(p.f); }
    return p;
}
inline std::set<std::string> keys(const Solution& s) { std::set<std::string> k; for (auto& [a, b] : s) k.insert(a); return k; }

} // namespace vf
#endif
