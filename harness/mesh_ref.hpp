// Reference refinement on integer quadrants, shared by the mesh and the multi-rank properties.
#ifndef VERIF_MESH_REF_HPP_
#define VERIF_MESH_REF_HPP_
#include "hps.hpp"
namespace mref {
using namespace vf;
using rig::Ctx; using rig::Src; using rig::fail;
using std::string; using std::to_string; using std::vector;

// C10.  Predicates are functions of box coordinates whose decision boundaries sit at offsets that no cell
// centre can reach, so the reference below may evaluate them at its own rounding of the same points.
struct Pred {
    Box b; Refine r; bool hash = false; int k = 0; uint32_t seed = 0, pct = 0;
    bool operator()(double x, double y) const {
        double X = (x - b.xl)/b.w() + 0.0013793, Y = (y - b.yl)/b.h() + 0.0021177;
        if (!hash) { Refine q, v; q.b = v.b = Box{0, 1, 0, 1}; for (auto& t : r.shapes) (t.kind < 12 ? q : v).shapes.push_back(t); return q(X, Y) || v((x - b.xl)/b.w(), (y - b.yl)/b.h()); }
        uint32_t h = seed; for (uint32_t v : {uint32_t(int(std::floor(X*(1 << k)))), uint32_t(int(std::floor(Y*(1 << k))))}) { h ^= v + 0x9e3779b9u + (h << 6) + (h >> 2); h *= 2654435761u; h ^= h >> 15; }
        return h % 100u < pct;
    }
    string str() const { return hash ? "hash k=" + to_string(k) + " pct=" + to_string(pct) + " seed=" + to_string(seed) : r.str(); }
};
inline Pred genPred(Src& s, Box b) {
    Pred p; p.b = b; p.hash = s.chance(40);
    if (p.hash) { p.k = s.range(1, 6); p.seed = s.next(); int q[] = {2, 5, 10, 25, 60}; p.pct = q[s.range(0, 4)]; } else p.r = genRefine(s, b);
    return p;
}
struct Spec { int nx, ny; Box box; Pred pred; int lmin, lmax;
    string str() const { char t[200]; snprintf(t, 200, "%dx%d box=[%.9g,%.9g]x[%.9g,%.9g] levels %d..%d ", nx, ny, box.xl, box.xu, box.yl, box.yu, lmin, lmax); return t + pred.str(); } };
inline Spec genSpec(Src& s, int maxlevel) {
    Spec m; m.nx = s.range(1, 8); m.ny = s.chance(60) ? m.nx : s.range(1, 8); m.box = genBox(s); m.pred = genPred(s, m.box); m.lmin = s.range(0, std::min(2, maxlevel)); m.lmax = s.chance(10) ? s.range(0, maxlevel) : s.range(m.lmin, maxlevel);
    if (s.chance(5)) { m.lmin = s.range(0, 4); m.lmax = m.lmin + s.range(0, 1); if (maxlevel >= 5 && s.chance(8)) { m.lmin = m.lmax = s.range(5, 6); m.nx = s.range(1, 2); m.ny = s.range(1, 2); } }                                          // high minimum level
    else if (s.chance(7)) { m.ny = m.nx; m.pred.hash = 0; m.pred.r.b = m.box; struct { int nx, lmin, lmax; Box box; vf::Refine refine; } t{m.nx, 0, 0, m.box, m.pred.r}; cornerMesh(s, t, maxlevel + 4); m.pred.r = t.refine; m.lmin = t.lmin; m.lmax = t.lmax; }   // one vertex refined on every level
    else if (maxlevel >= 5 && s.chance(8)) { m.lmax = s.range(6, 8); m.lmin = std::max(m.lmin, 1); if (!m.pred.hash) for (auto& q : m.pred.r.shapes) { q.kind = 0; q.r = s.range(1, 2)/32.0; if (s.chance(50)) { q.a = s.chance(50); q.b = s.chance(50); } } }  // deep and narrow
    else if (s.chance(6)) {                                                                                                                                                 // a limit a hair beside a sample point
        m.lmax = std::max(m.lmax, m.lmin + 1); int l = s.range(m.lmin, m.lmax - 1), k = s.range(16, 19), n = k < 18 ? m.nx : m.ny, cell = s.range(0, (1 << l) - 1); double big = k < 18 ? std::max(std::fabs(m.box.xl), std::fabs(m.box.xu))/m.box.w() : std::max(std::fabs(m.box.yl), std::fabs(m.box.yu))/m.box.h();
        double hair = std::max(1e-9, 2e-14*big)*(s.chance(50) ? 1 : -1), at = (cell + ((k & 1 ? 0 : n - 1) + 0.5)/n)/(1 << l) + hair; m.pred.hash = false; m.pred.r.shapes = {{k, at, at, 0}};
    }
    return m;
}
// leaf set as (level, x, y) in units of the level's own quadrants
struct Ref {
    std::set<std::array<int, 3>> leaves; Spec m; bool overflow = false;
    explicit Ref(const Spec& sp) : m(sp) { rec(0, 0, 0); if (!overflow) balance(); }
    bool wants(int l, int i, int j) const {
        double w = m.box.w()/(1 << l), h = m.box.h()/(1 << l), x0 = m.box.xl + i*w, y0 = m.box.yl + j*h;
        for (int a = 0; a < m.nx; a++) for (int b = 0; b < m.ny; b++) if (m.pred(x0 + (a + 0.5)*w/m.nx, y0 + (b + 0.5)*h/m.ny)) return true;
        return false;
    }
    void rec(int l, int i, int j) {
        if (int(leaves.size())*m.nx*m.ny > 30000) { overflow = true; return; }
        if (l < m.lmin || (l < m.lmax && wants(l, i, j))) { for (int c = 0; c < 4; c++) rec(l + 1, 2*i + (c & 1), 2*j + (c >> 1)); return; }
        leaves.insert({l, i, j});
    }
    const std::array<int, 3>* containing(int l, int i, int j, std::array<int, 3>& out) const {
        for (; l >= 0; l--, i >>= 1, j >>= 1) { auto it = leaves.find({l, i, j}); if (it != leaves.end()) { out = *it; return &out; } }
        return nullptr;
    }
    void balance() {
        for (bool again = true; again;) {
            again = false; vector<std::array<int, 3>> all(leaves.begin(), leaves.end());
            for (auto& q : all) {
                int n = 1 << q[0];
                for (int dx = -1; dx <= 1; dx++) for (int dy = -1; dy <= 1; dy++) {
                    int i = q[1] + dx, j = q[2] + dy; if (i < 0 || j < 0 || i >= n || j >= n || (!dx && !dy)) continue;
                    std::array<int, 3> o; if (containing(q[0], i, j, o) && o[0] < q[0] - 1) { leaves.erase(o); for (int c = 0; c < 4; c++) leaves.insert({o[0] + 1, 2*o[1] + (c & 1), 2*o[2] + (c >> 1)}); again = true; }
                }
            }
        }
    }
    std::set<string> paths() const {
        std::set<string> s; for (auto& q : leaves) { string p = "0"; for (int l = q[0] - 1; l >= 0; l--) p += char('0' + ((q[1] >> l) & 1) + 2*((q[2] >> l) & 1)); s.insert(p); } return s;
    }
};
// like OwnedMesh, with nx != ny and an arbitrary predicate
struct AnyMesh {
    Mesh mesh; EF::FiniteVolumeNodeFactory factory{MPI_COMM_WORLD}; std::unique_ptr<Grid> grid; std::unique_ptr<Patch> root; bool built = false;
    void build(const Spec& m) {
        release(); grid.reset(new Grid(MPI_COMM_WORLD, m.nx, m.box.xl, m.box.xu, m.ny, m.box.yl, m.box.yu)); root.reset(new Patch(MPI_COMM_WORLD, *grid)); Pred p = m.pred;
        mesh.refineByFunction([p](double x, double y) { return p(x, y); }, 1.0, m.lmin, m.lmax, *root, factory); built = true;
    }
    void release() {
        if (!built) return; for (auto& [k, n] : mesh.quadtree.map) { delete n; n = nullptr; } mesh.quadtree.map.clear();
        p4est_connectivity_t* c = mesh.quadtree.p4est->connectivity; p4est_destroy(mesh.quadtree.p4est); p4est_connectivity_destroy(c); built = false;
    }
    ~AnyMesh() { release(); }
};
inline string firstDiff(const std::set<string>& a, const std::set<string>& b) { for (auto& x : a) if (!b.count(x)) return x; return ""; }
inline void checkBox(Grid& g, Box b, Box dom, int nx, int ny, const string& what) {
    double ux = 1e-12*std::max({std::fabs(dom.xl), std::fabs(dom.xu), dom.w()}), uy = 1e-12*std::max({std::fabs(dom.yl), std::fabs(dom.yu), dom.h()});
    if (int(g.nx()) != nx || int(g.ny()) != ny) fail("patch-cells", what + " has " + to_string(g.nx()) + "x" + to_string(g.ny()) + " cells instead of " + to_string(nx) + "x" + to_string(ny));
    if (!(std::fabs(g.xLower() - b.xl) <= ux && std::fabs(g.xUpper() - b.xu) <= ux && std::fabs(g.yLower() - b.yl) <= uy && std::fabs(g.yUpper() - b.yu) <= uy)) fail("patch-box", what + " covers [" + num(g.xLower()) + "," + num(g.xUpper()) + "]x[" + num(g.yLower()) + "," + num(g.yUpper()) + "] instead of [" + num(b.xl) + "," + num(b.xu) + "]x[" + num(b.yl) + "," + num(b.yu) + "]");
}

} // namespace mref
#endif
