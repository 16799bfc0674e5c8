// Several ranks: C09 (meshes and solves), C23 (messages), C25 (distributed vectors and matrices), C13/C14 (parallel files).
// Every rank decodes the same choices, so each one knows all values; checks never throw (a throw would strand the others).
#include "problem.hpp"
#include "mesh_ref.hpp"
#include "vtu.hpp"

#include <deque>
#include <fcntl.h>
#include <numeric>
#include <unistd.h>

using namespace vf; using namespace vtu; using rig::fail;
using rig::Ctx; using rig::Src;
using std::string; using std::to_string; using std::vector;

static int rk = 0, np = 1; static MPI_Comm own = MPI_COMM_NULL;  // communicator of the checks themselves
static vector<string> gather(const string& mine) {
    vector<int> n(np), d(np); int len = int(mine.size()); MPI_Allgather(&len, 1, MPI_INT, n.data(), 1, MPI_INT, own); int tot = 0; for (int i = 0; i < np; i++) { d[i] = tot; tot += n[i]; }
    string all(tot, 0); MPI_Allgatherv(mine.data(), len, MPI_CHAR, all.data(), n.data(), d.data(), MPI_CHAR, own); vector<string> r; for (int i = 0; i < np; i++) r.push_back(all.substr(d[i], n[i])); return r;
}
static bool allTrue(bool x) { int a = x, b; MPI_Allreduce(&a, &b, 1, MPI_INT, MPI_MIN, own); return b; }

// ---------------------------------------------------------------------------------------------
// C09
static string packSolution(const Solution& s) { string o; for (auto& [k, v] : s) { o += k; o += ' '; o += to_string(v.size()); o += ' '; o.append((const char*) v.data(), v.size()*8); } return o; }
static Solution gatherSolution(const Solution& mine, vector<std::pair<string, int>>* dup = nullptr) {
    Solution all; std::map<string, int> cnt; for (auto& t : gather(packSolution(mine))) for (size_t p = 0; p < t.size();) { size_t a = t.find(' ', p), b = t.find(' ', a + 1); string k = t.substr(p, a - p); size_t n = size_t(atoi(t.substr(a + 1, b - a - 1).c_str())); vector<double> v(n); memcpy(v.data(), t.data() + b + 1, n*8); all[k] = v; cnt[k]++; p = b + 1 + n*8; }
    if (dup) for (auto& [k, n] : cnt) if (n > 1) dup->push_back({k, n}); return all;
}
struct Owners { std::map<string, std::pair<int, int>> range; std::set<string> leaves; };
// leaf ownership, node ranges, node communicators
static Owners checkNodes(Ctx& c, FnMesh& om, const std::set<string>& want, Box box, int nx) {
    Owners o; string mine; auto& map = om.mesh.quadtree.map; for (auto& [k, n] : map) if (n && n->leaf) { mine += k; mine += '\n'; }
    auto all = gather(mine); std::map<string, int> owner; for (int r = 0; r < np; r++) { std::istringstream is(all[r]); string k; while (std::getline(is, k)) { if (owner.count(k)) c.check(false, "leaf-owner", "leaf " + k + " is owned by ranks " + to_string(owner[k]) + " and " + to_string(r)); owner[k] = r; o.leaves.insert(k); } }
    if (o.leaves != want) { string a = mref::firstDiff(want, o.leaves), b = mref::firstDiff(o.leaves, want); c.check(false, "leafset", "leaf set on " + to_string(np) + " ranks: missing " + (a.empty() ? "-" : a) + ", unexpected " + (b.empty() ? "-" : b)); return o; }
    for (auto& [k, r] : owner) for (size_t i = 1; i <= k.size(); i++) { auto p = k.substr(0, i); auto it = o.range.find(p); if (it == o.range.end()) o.range[p] = {r, r}; else { it->second.first = std::min(it->second.first, r); it->second.second = std::max(it->second.second, r); } }
    for (auto& [k, n] : map) if (!o.range.count(k)) c.check(false, "nodeset", "node map has the unknown node " + k);
    for (auto& [k, r] : o.range) {
        bool in = r.first <= rk && rk <= r.second; auto it = map.find(k); Node* n = it == map.end() ? nullptr : it->second; if (it == map.end() && in) { c.check(false, "nodeset", "node " + k + " is not in the map"); continue; }
        if (in != (n != nullptr)) { c.check(false, "node-owner", "node " + k + " lives on ranks " + to_string(r.first) + ".." + to_string(r.second) + (n ? ", found on another rank" : ", missing")); continue; } if (!n) continue;
        if (n->pfirst != r.first || n->plast != r.second) c.check(false, "node-range", "node " + k + " claims ranks " + to_string(n->pfirst) + ".." + to_string(n->plast) + " instead of " + to_string(r.first) + ".." + to_string(r.second));
        if (!n->isOwned()) c.check(false, "node-owned", "node " + k + " does not say it is owned on rank " + to_string(rk));
        int sz = -1, me = -1; MPI_Comm_size(n->node_comm, &sz); MPI_Comm_rank(n->node_comm, &me); if (sz != r.second - r.first + 1 || me != rk - r.first) c.check(false, "node-comm", "communicator of node " + k + " has size " + to_string(sz) + ", my rank " + to_string(me));
        Grid& g = n->data.grid(); Box b = pathBox(box, k); double e = 1e-12*std::max({std::fabs(box.xl), std::fabs(box.xu), std::fabs(box.yl), std::fabs(box.yu), box.w(), box.h()});
        if (n->path != k || n->level != int(k.size()) - 1 || int(g.nx()) != nx || int(g.ny()) != nx || !(std::fabs(g.xLower() - b.xl) <= e && std::fabs(g.xUpper() - b.xu) <= e && std::fabs(g.yLower() - b.yl) <= e && std::fabs(g.yUpper() - b.yu) <= e)) c.check(false, "node-data", "node " + k + " has path " + n->path + ", level " + to_string(n->level) + " or another box or cell count");
    }
    return o;
}
static void preOf(const Owners& o, const string& at, bool post, vector<string>& out) { auto it = o.range.find(at); if (it == o.range.end()) return; bool in = it->second.first <= rk && rk <= it->second.second; if (!in) return; if (!post) out.push_back(at); if (!o.leaves.count(at)) for (char ch = '0'; ch < '4'; ch++) preOf(o, at + ch, post, out); if (post) out.push_back(at); }
static double mark(const string& k, int salt) { uint32_t h = 2166136261u + salt; for (unsigned char ch : k) h = (h ^ ch)*16777619u; return double(h % 100003u); }
static string joined(const vector<string>& v) { string s; for (auto& x : v) s += x + " "; return s; }
static void checkTraversals(Src& s, Ctx& c, FnMesh& om, const Owners& o) {
    auto& qt = om.mesh.quadtree; auto& map = qt.map; vector<string> pre, post, got; preOf(o, "0", false, pre); preOf(o, "0", true, post);
    auto same = [&](const vector<string>& w, const char* what) { c.check(got == w, "traversal", string(what) + " visits " + joined(got) + "instead of " + joined(w)); got.clear(); };
    std::map<Patch*, string> name; for (auto& [k, n] : map) if (n) name[&n->data] = k; auto nm = [&](Patch& p) { auto it = name.find(&p); return it == name.end() ? string("?") : it->second; };
    qt.traversePreOrder([&](Node* n) { got.push_back(n->path); return 1; }); same(pre, "pre-order traversal"); qt.traversePostOrder([&](Node* n) { got.push_back(n->path); return 1; }); same(post, "post-order traversal");
    qt.traversePreOrder([&](Patch& p) { got.push_back(nm(p)); }); same(pre, "pre-order data traversal"); qt.traversePostOrder([&](Patch& p) { got.push_back(nm(p)); }); same(post, "post-order data traversal");
    vector<string> lf; for (auto& k : pre) if (o.leaves.count(k)) lf.push_back(k); om.mesh.iteratePatches([&](Patch& p) { got.push_back(nm(p)); }); same(lf, "patch iteration");
    int rounds = s.range(1, 2), salt = s.range(0, 1000);
    for (int r = 0; r < rounds; r++, salt++) {
        auto family = [&](Node* p, vector<Node*>& ch, bool values) {
            if (ch.size() != 4) { c.check(false, "family", "family of " + p->path + " has " + to_string(ch.size()) + " members"); return false; }
            for (int i = 0; i < 4; i++) { string k = p->path + to_string(i); Node* n = ch[i]; if (!n) { c.check(false, "family", "child " + to_string(i) + " of " + p->path + " is null"); return false; } auto it = o.range.find(k); if (it == o.range.end()) { c.check(false, "family", "node " + p->path + " has no children"); return false; }
                if (n->path != k || n->level != p->level + 1 || n->leaf != bool(o.leaves.count(k)) || n->pfirst != it->second.first || n->plast != it->second.second) c.check(false, "family", "child " + to_string(i) + " of " + p->path + " arrives as " + n->path + " level " + to_string(n->level) + " leaf " + to_string(n->leaf) + " ranks " + to_string(n->pfirst) + ".." + to_string(n->plast));
                if (n->isOwned() != (it->second.first <= rk && rk <= it->second.second)) c.check(false, "node-owned", "child " + k + " in the family of " + p->path + (n->isOwned() ? " says" : " does not say") + " it is owned on rank " + to_string(rk));
                Node* mine = map.count(k) ? map[k] : nullptr; if (mine && mine != n) c.check(false, "family", "child " + k + " is a copy although this rank owns the node");
                if (values) { auto& u = n->data.vectorU(); if (u.size() != 1 || u[0] != mark(k, salt)) c.check(false, "family-data", "child " + k + " does not bring its owner's data to the family of " + p->path); } }
            return true; };
        for (auto& [k, n] : map) if (n) { n->data.vectorU() = EF::Vector<double>(1); n->data.vectorU()[0] = o.leaves.count(k) ? mark(k, salt) : -1; n->data.vectorG() = EF::Vector<double>{}; n->data.n_coarsens = 0; }
        vector<string> fam; for (auto& k : post) if (!o.leaves.count(k)) fam.push_back(k); vector<string> seen;
        qt.merge([&](Node* n) { got.push_back(n->path); return 1; }, [&](Node* p, vector<Node*> ch) { seen.push_back(p->path); if (family(p, ch, true)) { p->data.vectorU()[0] = mark(p->path, salt); for (int i = 0; i < 4; i++) ch[i]->data.n_coarsens = i + 1; } return 1; });
        { vector<string> l2; for (auto& k : post) if (o.leaves.count(k)) l2.push_back(k); same(l2, "leaf callbacks of merge"); got = seen; same(fam, "family callbacks of merge"); }
        if (map.count("0") && map["0"] && map["0"]->data.vectorU()[0] != mark("0", salt)) c.check(false, "family-data", "the merge did not reach the root");
        for (auto& [k, n] : map) if (n && k.size() > 1 && n->data.n_coarsens != k.back() - '0' + 1) c.check(false, "family-data", "a family callback's change of the owned child " + k + " was lost");
        fam.clear(); seen.clear(); for (auto& k : pre) if (!o.leaves.count(k)) fam.push_back(k); if (map["0"]) { map["0"]->data.vectorG() = EF::Vector<double>(1); map["0"]->data.vectorG()[0] = mark("0", salt + 7); }
        qt.split([&](Node* n) { got.push_back(n->path); if (n->data.vectorG().size() != 1 || n->data.vectorG()[0] != mark(n->path, salt + 7)) c.check(false, "family-data", "leaf " + n->path + " did not receive its data before its split callback"); return 1; },
            [&](Node* p, vector<Node*> ch) { seen.push_back(p->path); if (p->data.vectorG().size() != 1 || p->data.vectorG()[0] != mark(p->path, salt + 7)) c.check(false, "family-data", "node " + p->path + " did not receive its data before its split callback"); if (family(p, ch, true)) for (int i = 0; i < 4; i++) { ch[i]->data.vectorG() = EF::Vector<double>(1); ch[i]->data.vectorG()[0] = mark(p->path + to_string(i), salt + 7); } return 1; });
        same(lf, "leaf callbacks of split"); got = seen; same(fam, "family callbacks of split");
        for (auto& [k, n] : map) if (n && (n->data.vectorG().size() != 1 || n->data.vectorG()[0] != mark(k, salt + 7))) c.check(false, "family-data", "node " + k + " did not keep the data its parent's callback gave it");
    }
    for (auto& [k, n] : map) if (n) { n->data.vectorU() = EF::Vector<double>{}; n->data.vectorG() = EF::Vector<double>{}; n->data.n_coarsens = 0; }
}
static mref::Spec npSpec(Src& s, int maxlevel, int nxlo, int nxhi) {
    mref::Spec m = mref::genSpec(s, maxlevel); m.nx = m.ny = s.range(nxlo, nxhi); mref::Ref ref(m); if (int(ref.leaves.size()) < np) { m.lmin = 1; m.lmax = std::max(m.lmax, 1); } return m;
}
static Problem npProblem(Src& s, const mref::Spec& m, Ctx& c) {
    Bc bc = genBc(s, m.box, 40); Pde p = genPde(s, m.box, bc.dirichlet()); MeshSpec ms; ms.nx = m.nx; ms.box = m.box; ms.lmin = m.lmin; ms.lmax = m.lmax; Problem q = makeProblem(ms, p, bc); auto pr = m.pred; q.refine = [pr](double x, double y) { return pr(x, y); }; c.desc << " " << p.str() << " " << bc.str(); return q;
}
static void np_tree(Src& s, Ctx& c) {
    FnMesh om; int rounds = s.chance(25) ? 2 : 1;
    for (int r = 0; r < rounds; r++) {
        mref::Spec m = npSpec(s, 4, 1, 3); mref::Ref ref(m); if (ref.leaves.size() > 150) { m.lmax = m.lmin = std::min(std::max(m.lmin, 1), 3); ref = mref::Ref(m); } c.desc << " " << m.str() << " -> " << ref.leaves.size() << " leaves"; Problem q; q.box = m.box; q.nx = m.nx; q.lmin = m.lmin; q.lmax = m.lmax; auto pr = m.pred; q.refine = [pr](double x, double y) { return pr(x, y); };
        om.build(q); Owners o = checkNodes(c, om, ref.paths(), m.box, m.nx); if (!allTrue(!c.failed)) return; checkTraversals(s, c, om, o); if (!allTrue(!c.failed)) return;
        if (ref.leaves.size() > size_t(np)) c.nontrivial = true; int shared = 0; for (auto& [k, g] : o.range) shared += g.first != g.second; c.tag(shared > 1 ? "several shared branches" : "only the root shared");
    }
}
static void np_solve(Src& s, Ctx& c) {
    mref::Spec m = npSpec(s, 4, 2, 4); mref::Ref ref(m); if (ref.leaves.size() > 60) { m.lmax = m.lmin = 1; ref = mref::Ref(m); } c.desc << m.str() << " -> " << ref.leaves.size() << " leaves"; Problem q = npProblem(s, m, c); std::set<string> want = ref.paths();
    RefTree rt(q.box, q.nx, want); if (rt.nunk > 1100) { c.tag("too big for the dense reference"); return; }
    FnMesh om; om.build(q); Solver sv; setSolver(sv, q); bool fish = false; HPS h(MPI_COMM_WORLD, om.mesh, sv); (void) fish; c.nontrivial = ref.leaves.size() > size_t(np); c.tag("coarsenings=" + to_string(rt.maxtag));
    auto verify = [&](const string& what) {
        vector<std::pair<string, int>> dup; Solution u = gatherSolution(solution(om), &dup); for (auto& [k, n] : dup) c.check(false, "leaf-owner", "leaf " + k + " is on " + to_string(n) + " ranks"); bool ok = true; double e = 0;
        if (rk == 0) { RefTree r2(q.box, q.nx, want); if (keys(u) != want) c.check(false, "leafset", what + ": other leaves than the reference"); else if (!r2.solve(q.coef(), q.bc)) c.tag("singular"); else { for (auto& [k, v] : u) { if (int(v.size()) != q.nx*q.nx) { e = INFINITY; break; } for (size_t i = 0; i < v.size(); i++) { double d = std::fabs(v[i] - r2.u(k, int(i))); if (!(d <= e)) e = std::isnan(d) ? INFINITY : d; } } e /= std::max(r2.scale(), 1e-12); ok = e <= 1e-8; c.maximum("error vs reference", e); } }
        if (rk == 0) c.check(ok, "ranks", what + " on " + to_string(np) + " ranks: solution differs from the reference by " + num(e) + " (relative)");
        // every owner of the root holds the same root operator
        if (auto* n = om.mesh.quadtree.map["0"]) { auto& g = n->data.vectorG(); vector<double> a(g.size()); for (size_t i = 0; i < g.size(); i++) a[i] = g[i]; auto t = gather(string((const char*) a.data(), a.size()*8)); if (rk == 0) { bool same = true; for (int r = 1; r < np; r++) { if (t[r].size() != t[0].size()) { same = false; break; } for (size_t i = 0; i < a.size(); i++) { double x; memcpy(&x, t[r].data() + 8*i, 8); if (!(std::fabs(x - a[i]) <= 1e-8*std::max(1e-9, std::fabs(a[i]) + rt.scale()))) same = false; } } c.check(same, "root-copies", what + ": ranks hold different root boundary data"); } } else { gather(""); c.check(false, "node-owner", "a rank does not hold the root"); }
    };
    h.setupStage(); h.buildStage(); h.upwardsStage(q.f); h.solveStage(wrap(q.bc)); verify("first solve"); if (!allTrue(!c.failed)) return; int ops = s.range(0, 3);
    for (int i = 0; i < ops; i++) {
        int op = s.range(0, 5); c.desc << " op" << op;
        if (op == 0) { Smooth g = genSmooth(s, m.box, 40*(1/(m.box.w()*m.box.w()) + 1/(m.box.h()*m.box.h()))); q.f = g; h.upwardsStage(q.f); h.solveStage(wrap(q.bc)); }
        else if (op == 1) { Fn f = q.f; Smooth g = genSmooth(s, m.box, 4); q.f = [f, g](double x, double y) { return f(x, y) + g(x, y); }; h.upwardsStage([&](Patch& p) { auto& gr = p.grid(); int n = int(gr.nx()); p.vectorF() = EF::Vector<double>(n*n); for (int a = 0; a < n; a++) for (int b = 0; b < n; b++) p.vectorF()[a*n + b] = q.f(gr(0, a), gr(1, b)); }); h.solveStage(wrap(q.bc)); }
        else if (op == 2) { Bc nb = genBc(s, m.box, 50); for (int z = 0; z < 4; z++) { nb.kind[z] = 0; if (nb.ca[z] == 0) nb.ca[z] = 1; } q.bc = [nb](int sd, double x, double y, double* a, double* b) { return nb(sd, x, y, a, b); }; h.solveStage(wrap(q.bc)); }
        else if (op == 3) { h.buildStage(); h.upwardsStage(q.f); h.solveStage(wrap(q.bc)); }
        else if (op == 4) { mref::Spec m2 = npSpec(s, 3, m.nx, m.nx); m2.nx = m2.ny = m.nx; m2.box = m.box; m2.pred.b = m.box; m2.pred.r.b = m.box; mref::Ref r2(m2); RefTree t2(m.box, m.nx, r2.paths()); if (t2.nunk <= 1100 && int(r2.leaves.size()) >= np) { m = m2; want = r2.paths(); auto pr = m.pred; q.refine = [pr](double x, double y) { return pr(x, y); }; q.lmin = m.lmin; q.lmax = m.lmax; om.build(q); c.desc << "(" << m.str() << ")"; } h.buildStage(); h.upwardsStage(q.f); h.solveStage(wrap(q.bc)); }
        else { h.solveStage(wrap(q.bc)); }
        verify("stage history step " + to_string(i)); if (!allTrue(!c.failed)) return;
    }
}

// ---------------------------------------------------------------------------------------------
// C13, C14: parallel files.  Reading errors of a rank become a failed check of that rank.
static void guarded(Ctx& c, const std::function<void()>& f) { try { f(); } catch (const rig::Fail& e) { c.check(false, e.key, "rank " + to_string(rk) + ": " + e.msg); } }
static void np_vtk(Src& s, Ctx& c) {
    mref::AnyMesh am; int rounds = s.chance(40) ? 2 : 1;
    for (int r = 0; r < rounds; r++) {
        mref::Spec m = mref::genSpec(s, 4); mref::Ref ref(m); if (ref.overflow || int(ref.leaves.size())*m.nx*m.ny > 1500) { m.lmax = std::min(m.lmax, 1); m.lmin = std::min(1, m.lmin); ref = mref::Ref(m); } if (int(ref.leaves.size()) < np) { m.lmin = std::max(1, m.lmin); m.lmax = std::max(m.lmax, 1); ref = mref::Ref(m); }
        c.desc << (r ? " then " : "") << m.str() << " -> " << ref.leaves.size() << " leaves"; c.nontrivial |= int(ref.leaves.size()) > np; am.build(m); am.mesh.clearMeshFunctions();
        string mine; for (auto& [k, n] : am.mesh.quadtree.map) if (n && n->leaf) mine += k + "\n"; std::map<string, int> owner; auto lists = gather(mine); for (int q = 0; q < np; q++) { std::istringstream is(lists[q]); string k; while (std::getline(is, k)) { c.check(!owner.count(k), "leaf-owner", "leaf " + k + " has two owners"); owner[k] = q; } }
        auto paths = ref.paths(); for (auto& k : paths) c.check(owner.count(k), "leafset", "leaf " + k + " is missing"); c.check(owner.size() == paths.size(), "leafset", "unexpected leaves"); if (!allTrue(!c.failed)) return;
        vector<Box> cells; size_t first = 0, all = 0; for (auto& k : paths) for (auto& b : leafCells(pathBox(m.box, k), m.nx, m.ny)) { if (owner[k] == rk) { if (cells.empty()) first = all; cells.push_back(b); } all++; }
        int nf = s.range(0, 3); vector<Smooth> fs; vector<string> names; std::unique_ptr<EF::Vector<double>> vec; vector<double> vals; for (int k = 0; k < nf; k++) { Smooth f = genSmooth(s, m.box, 50); fs.push_back(f); names.push_back("f" + to_string(k)); am.mesh.addMeshFunction([f](double x, double y) { return f(x, y); }, names.back()); }
        if (s.chance(40)) { vec.reset(new EF::Vector<double>(cells.size())); vec->name() = "own"; for (size_t k = 0; k < cells.size(); k++) vals.push_back((*vec)[k] = double((first + k)*7 % 101) - 50); am.mesh.addMeshFunction(*vec); names.push_back("own"); }
        int number = s.chance(50) ? -1 : s.range(0, 12000); string base = s.chance(30) ? "np-a.b" : "np"; c.desc << " functions " << names.size() << " number " << number;
        char suf[32] = ""; if (number != -1) snprintf(suf, sizeof suf, "-%04i", number); string stem = base + "-mesh" + suf, qstem = base + "-quadtree" + suf;
        int writes = s.chance(25) ? 2 : 1; for (int w = 0; w < writes; w++) am.mesh.toVTK(base, number); MPI_Barrier(own);
        guarded(c, [&] {
            auto src = checkMeshPvtu(stem + ".pvtu", np, names); checkMeshVtu(src[rk], cells, names, [&](size_t k, size_t q) { return k < fs.size() ? fs[k]((cells[q].xl + cells[q].xu)/2, (cells[q].yl + cells[q].yu)/2) : vals[q]; });
            vector<Box> lb; for (auto& k : paths) if (owner[k] == rk) lb.push_back(pathBox(m.box, k)); checkQuadtree(qstem, np, rk, lb);
        });
        MPI_Barrier(own); for (int q = 0; rk == 0 && q < np; q++) { char t[16]; snprintf(t, sizeof t, "_%04d.vtu", q); unlink((stem + t).c_str()); unlink((qstem + t).c_str()); } if (rk == 0) for (string f : {stem + ".pvtu", qstem + ".pvtu", qstem + ".visit"}) unlink(f.c_str());
        am.mesh.clearMeshFunctions(); MPI_Barrier(own); if (!allTrue(!c.failed)) return;
    }
}
static void np_pvtu(Src& s, Ctx& c) {
    // the ranks are cut into consecutive groups; every group writes its own file
    vector<int> group(np, 0); int cuts = 0; for (int i = 1; i < np; i++) group[i] = group[i - 1] + (s.chance(40) ? 1 : 0); cuts = group[np - 1]; int lo = rk, hi = rk; while (lo > 0 && group[lo - 1] == group[rk]) lo--; while (hi < np - 1 && group[hi + 1] == group[rk]) hi++;
    vector<UMesh> ms(np); int nP = s.range(0, 2), nC = s.range(0, 2); vector<vector<DArr>> P(np), C(np); int pool = s.range(0, 12);
    for (int r = 0; r < np; r++) {
        UMesh& m = ms[r]; m.np = s.range(0, pool); m.nc = s.range(0, 6); m.p = genVec(s, 3*m.np, "points", false); m.co = genVec(s, 4*m.nc, "connectivity"); m.of = genVec(s, m.nc, "offsets"); m.ty = genVec(s, m.nc, "types");
        for (int k = 0; k < nP; k++) P[r].push_back(genVec(s, m.np, "p" + to_string(k))); for (int k = 0; k < nC; k++) C[r].push_back(genVec(s, m.nc, "c" + to_string(k)));
    }
    c.desc << np << " ranks in " << cuts + 1 << " groups, arrays " << nP << "+" << nC; c.nontrivial = np > 1 && nP + nC > 0; c.tag(cuts ? "several groups" : "one group");
    MPI_Comm comm = MPI_COMM_WORLD; if (cuts) { comm = MPI_COMM_NULL; for (int a = 0; a < np;) { int b = a; while (b < np - 1 && group[b + 1] == group[a]) b++; MPI_Comm q; EF::MPI::communicatorSubsetRange(MPI_COMM_WORLD, a, b, 10 + a, &q); if (a <= rk && rk <= b) comm = q; else c.check(q == MPI_COMM_NULL, "comm", "a communicator of other ranks is not null"); a = b + 1; } }
    int sz = 0, me = 0; MPI_Comm_size(comm, &sz); MPI_Comm_rank(comm, &me); c.check(sz == hi - lo + 1 && me == rk - lo, "comm", "group communicator has size " + to_string(sz) + ", my rank " + to_string(me));
    string base = string(s.chance(40) ? "./" : "") + (s.chance(30) ? "g.%d-" : "g") + to_string(group[rk]); int writes = s.chance(30) ? 2 : 1;
    {
        EF::PUnstructuredGridVTK w = cuts || s.chance(50) ? EF::PUnstructuredGridVTK(comm) : EF::PUnstructuredGridVTK(); w.buildMesh(ms[rk]); for (auto& x : P[rk]) w.addPointData(x.node()); for (auto& x : C[rk]) w.addCellData(x.node());
        for (int q = 0; q < writes; q++) w.toVTK(base); MPI_Barrier(own);
    }
    guarded(c, [&] {
        Elem e = readXml(base + ".pvtu"); header(e, "PUnstructuredGrid"); const Elem& g = e.one("PUnstructuredGrid"); auto pcs = g.all("Piece"); if (int(pcs.size()) != sz) fail("pvtu-pieces", to_string(pcs.size()) + " pieces in the file of " + to_string(sz) + " ranks"); std::set<string> names; for (auto* p : pcs) { string f = p->get("Source"); if (!names.insert(f).second) fail("pvtu-pieces", "piece " + f + " twice"); if (!fileExists(f)) fail("pvtu-pieces", "piece " + f + " does not exist"); }
        checkVtu(pcs[me]->get("Source"), ms[rk], P[rk], C[rk]);
        if (me == 0) { auto decl = [&](const char* tag, vector<DArr>& v) { auto gr = g.all(tag); if (v.empty() && gr.empty()) return; auto a = g.one(tag).all("PDataArray"); if (a.size() != v.size()) fail("pvtu-arrays", string(tag) + " declares " + to_string(a.size()) + " arrays"); for (size_t k = 0; k < v.size(); k++) if (a[k]->get("Name") != v[k].name || a[k]->get("type") != v[k].type || a[k]->get("NumberOfComponents") != v[k].comps) fail("pvtu-arrays", string(tag) + " array " + to_string(k) + " is " + a[k]->get("Name")); }; decl("PPointData", P[rk]); decl("PCellData", C[rk]); }
    });
    MPI_Barrier(own); if (me == 0) { unlink((base + ".pvtu").c_str()); } char t[16]; snprintf(t, sizeof t, "_%04d.vtu", me); unlink((base + t).c_str()); if (cuts) MPI_Comm_free(&comm); MPI_Barrier(own);
}

// ---------------------------------------------------------------------------------------------
// C23.  Values of every supported type: gen, same, show.
static EF::Vector<double> mkVec(Src& s, int n) { EF::Vector<double> v(n); for (int i = 0; i < n; i++) v[i] = s.real(100); return v; }
static int genLen(Src& s) { int k = s.range(0, 9); return k < 2 ? 0 : k < 4 ? 1 : k < 9 ? s.range(2, 40) : s.chance(8) ? s.range(3000, 60000) : s.range(1000, 3000); }
template<class T> struct Gen { static T make(Src& s) { return T(s.sint(100)); } };
template<> struct Gen<bool> { static bool make(Src& s) { return s.chance(50); } };
template<> struct Gen<double> { static double make(Src& s) { return s.chance(10) ? -0.0 : s.real(1e6); } };
template<> struct Gen<float> { static float make(Src& s) { return float(s.real(1e3)); } };
template<> struct Gen<long double> { static long double make(Src& s) { return s.real(1e6)/3.0L; } };
template<> struct Gen<unsigned long> { static unsigned long make(Src& s) { return (static_cast<unsigned long>(s.next()) << 33) + s.next(); } };
template<> struct Gen<long> { static long make(Src& s) { return (long(s.next()) << 30) - s.next(); } };
template<> struct Gen<int> { static int make(Src& s) { return int(s.next() + s.next()); } };
template<> struct Gen<string> { static string make(Src& s) { int n = genLen(s); string t; for (int i = 0; i < n; i++) t += char(n < 50 ? s.range(0, 255) : (i*7 + n) % 251); return t; } };
template<class E> struct Gen<vector<E>> { static vector<E> make(Src& s) { int n = genLen(s); vector<E> v; for (int i = 0; i < n; i++) v.push_back(n < 50 ? Gen<E>::make(s) : E((i*37 + n) % 113)); return v; } };
template<class E> struct Gen<EF::Vector<E>> { static EF::Vector<E> make(Src& s) { auto v = Gen<vector<E>>::make(s); EF::Vector<E> w(v.size()); for (size_t i = 0; i < v.size(); i++) w[i] = v[i]; return w; } };
template<class E> struct Gen<EF::Matrix<E>> { static EF::Matrix<E> make(Src& s) { int r = s.range(0, 6), q = s.range(0, 6); if (s.chance(5)) r = 60, q = 50; EF::Matrix<E> m(r, q); E x = Gen<E>::make(s); for (int i = 0; i < r; i++) for (int j = 0; j < q; j++) m(i, j) = r*q < 40 ? Gen<E>::make(s) : E(x + i*q + j); return m; } };
template<> struct Gen<Grid> { static Grid make(Src& s) { Box b = genBox(s); return Grid(MPI_COMM_WORLD, s.range(0, 9), b.xl, b.xu, s.range(0, 9), b.yl, b.yu); } };
template<> struct Gen<Patch> { static Patch make(Src& s) {
    Patch p(MPI_COMM_WORLD, Gen<Grid>::make(s)); p.n_coarsens = s.range(0, 3); bool some = s.chance(50); auto mk = [&] { return some && s.chance(40) ? EF::Matrix<double>(0, 0) : Gen<EF::Matrix<double>>::make(s); }; auto vk = [&] { return some && s.chance(40) ? EF::Vector<double>{} : Gen<EF::Vector<double>>::make(s); };
    p.matrixX() = mk(); p.matrixH() = mk(); p.matrixS() = mk(); p.matrixT() = mk(); p.vectorU() = vk(); p.vectorG() = vk(); p.vectorV() = vk(); p.vectorF() = vk(); p.vectorH() = vk(); p.vectorW() = vk(); return p; } };
template<class D> struct Gen<EF::Node<D>> { static EF::Node<D> make(Src& s) { string path = "0"; int n = s.range(0, 6); for (int i = 0; i < n; i++) path += char('0' + s.range(0, 3)); int a = s.range(0, 9); EF::Node<D> r(MPI_COMM_WORLD, Gen<D>::make(s), path, n, a, a + s.range(0, 9)); r.leaf = s.chance(50); return r; } };
template<class T> static bool eq(T& a, T& b) { return a == b; }
template<> bool eq(double& a, double& b) { return a == b && std::signbit(a) == std::signbit(b); }
template<class E> static bool eq(EF::Vector<E>& a, EF::Vector<E>& b) { if (a.size() != b.size() || a.dataNoConst().size() != b.dataNoConst().size()) return false; for (size_t i = 0; i < a.size(); i++) if (!(a[i] == b[i])) return false; return true; }
template<class E> static bool eq(EF::Matrix<E>& a, EF::Matrix<E>& b) { if (a.nrows() != b.nrows() || a.ncols() != b.ncols() || a.dataNoConst().size() != b.dataNoConst().size()) return false; for (size_t i = 0; i < a.nrows(); i++) for (size_t j = 0; j < a.ncols(); j++) if (!(a(i, j) == b(i, j))) return false; return true; }
template<> bool eq(Grid& a, Grid& b) { bool ok = a.nx() == b.nx() && a.ny() == b.ny() && a.xLower() == b.xLower() && a.xUpper() == b.xUpper() && a.yLower() == b.yLower() && a.yUpper() == b.yUpper(); if (!ok) return false; auto sd = [](double x, double y) { return x == y || (std::isnan(x) && std::isnan(y)); }; if (!sd(a.dx(), b.dx()) || !sd(a.dy(), b.dy())) return false; for (size_t i = 0; i < a.nx(); i++) if (a(0, i) != b(0, i)) return false; for (size_t i = 0; i < a.ny(); i++) if (a(1, i) != b(1, i)) return false; return true; }
template<> bool eq(Patch& a, Patch& b) { return a.n_coarsens == b.n_coarsens && eq(a.grid(), b.grid()) && eq(a.matrixX(), b.matrixX()) && eq(a.matrixH(), b.matrixH()) && eq(a.matrixS(), b.matrixS()) && eq(a.matrixT(), b.matrixT()) && eq(a.vectorU(), b.vectorU()) && eq(a.vectorG(), b.vectorG()) && eq(a.vectorV(), b.vectorV()) && eq(a.vectorF(), b.vectorF()) && eq(a.vectorH(), b.vectorH()) && eq(a.vectorW(), b.vectorW()); }
template<class D> static bool eq(EF::Node<D>& a, EF::Node<D>& b) { return eq(a.data, b.data) && a.path == b.path && a.level == b.level && a.pfirst == b.pfirst && a.plast == b.plast && a.leaf == b.leaf; }
template<class T> static string sz(T&) { return "value"; }
template<> string sz(string& a) { return "string of length " + to_string(a.size()); }
template<class E> static string sz(vector<E>& a) { return "vector of length " + to_string(a.size()); }
template<class E> static string sz(EF::Vector<E>& a) { return "Vector of length " + to_string(a.size()); }
template<class E> static string sz(EF::Matrix<E>& a) { return "Matrix " + to_string(a.nrows()) + "x" + to_string(a.ncols()); }

struct Comm { MPI_Comm comm = MPI_COMM_WORLD; int a = 0, n = 1, me = 0; bool in = true, mine = false; };
struct Msg { Src& s; Ctx& c; Comm& k; };
template<class T> static void bcastOf(Msg& m, const char* name) {
    int root = m.s.range(0, m.k.n - 1); T v = Gen<T>::make(m.s); vector<T> old; for (int i = 0; i < m.k.n; i++) old.push_back(m.s.chance(20) ? v : Gen<T>::make(m.s)); m.c.desc << " bcast<" << name << ">(" << sz(v) << ",root " << root << ")"; if (!m.k.in) return;
    T x = m.k.me == root ? v : old[m.k.me]; string before = sz(x); EF::MPI::broadcast(x, root, m.k.comm); if (!eq(x, v)) m.c.check(false, "broadcast", string(name) + " broadcast from rank " + to_string(root) + " of " + to_string(m.k.n) + ": " + (m.k.me == root ? "sender's value changed" : "receiver (which held a " + before + ") got a " + sz(x) + " instead of the sent " + sz(v)));
}
// every other rank sends to one, which receives in any order of the senders
template<class T> static void faninOf(Msg& m, const char* name) {
    int n = m.k.n, b = m.s.range(0, n - 1), tag = m.s.range(0, 60); vector<int> order; for (int r = 0; r < n; r++) if (r != b) order.push_back(r); for (int r = int(order.size()) - 1; r > 0; r--) std::swap(order[r], order[m.s.range(0, r)]); if (n == 1) return;
    std::deque<T> vs, old; for (int i = 0; i < n; i++) { vs.push_back(Gen<T>::make(m.s)); old.push_back(Gen<T>::make(m.s)); } m.c.desc << " fan-in<" << name << ">(to " << b << ", first from " << order[0] << ")"; m.c.tag("fan-in"); if (!m.k.in) return;
    if (m.k.me != b) { T x = vs[m.k.me]; EF::MPI::send(x, b, tag, m.k.comm); if (!eq(x, vs[m.k.me])) m.c.check(false, "send", string("sending a ") + name + " changed the sender's value"); return; }
    for (int r : order) { T x = old[r]; MPI_Status st; EF::MPI::receive(x, r, tag, m.k.comm, &st); if (!eq(x, vs[r])) m.c.check(false, "receive", string(name) + " from rank " + to_string(r) + " of " + to_string(n) + " senders: got a " + sz(x) + " instead of the sent " + sz(vs[r])); if (st.MPI_SOURCE != r) m.c.check(false, "status", "status names source " + to_string(st.MPI_SOURCE)); }
}
// messages with different tags, taken in another order than they were sent (small ones, which MPI buffers)
template<class T> static void tagsOf(Msg& m, const char* name) {
    int n = m.k.n, a = m.s.range(0, n - 1), b = m.s.range(0, n - 1), cnt = m.s.range(2, 4); if (n == 1) return; if (a == b) b = (a + 1) % n; std::deque<T> vs, old; vector<int> order; for (int i = 0; i < cnt; i++) { vs.push_back(Gen<T>::make(m.s)); old.push_back(Gen<T>::make(m.s)); order.push_back(i); }
    auto len = [](auto& x) -> size_t { if constexpr (requires { x.nrows(); }) return x.nrows()*x.ncols(); else if constexpr (requires { x.size(); }) return x.size(); else return 1; }; bool small = true; for (auto& x : vs) small &= len(x) <= 50; for (int r = cnt - 1; r > 0; r--) { int w = m.s.range(0, r); if (small) std::swap(order[r], order[w]); }
    m.c.desc << " " << cnt << " tags<" << name << ">(" << a << "->" << b << ")"; m.c.tag("several tags"); if (!m.k.in) return;
    if (m.k.me == a) for (int i = 0; i < cnt; i++) { T x = vs[i]; EF::MPI::send(x, b, 10 + 10*i, m.k.comm); }
    if (m.k.me == b) for (int i : order) { T x = old[i]; MPI_Status st; EF::MPI::receive(x, a, 10 + 10*i, m.k.comm, &st); if (!eq(x, vs[i])) m.c.check(false, "receive", string(name) + " with tag " + to_string(10 + 10*i) + ": got a " + sz(x) + " instead of the sent " + sz(vs[i])); }
}
template<class T> static void p2pOf(Msg& m, const char* name) {
    if constexpr (!std::is_same_v<T, Patch> && !std::is_same_v<T, EF::Node<Patch>>) { if (m.s.chance(25)) { tagsOf<T>(m, name); return; } } if (m.s.chance(25)) { faninOf<T>(m, name); return; }
    int n = m.k.n, a = m.s.range(0, n - 1), b = m.s.range(0, n - 1), tag = m.s.range(0, 60), cnt = m.s.range(1, 3); if (n == 1) return; if (a == b) b = (a + 1) % n; std::deque<T> vs, old; for (int i = 0; i < cnt; i++) { vs.push_back(Gen<T>::make(m.s)); old.push_back(m.s.chance(20) ? vs.back() : Gen<T>::make(m.s)); } m.c.desc << " " << cnt << " x send<" << name << ">(" << sz(vs[0]) << "," << a << "->" << b << ")"; if (!m.k.in) return;
    if (m.k.me == a) for (int i = 0; i < cnt; i++) { T x = vs[i]; EF::MPI::send(x, b, tag, m.k.comm); if (!eq(x, vs[i])) m.c.check(false, "send", string("sending a ") + name + " changed the sender's value"); }
    if (m.k.me == b) for (int i = 0; i < cnt; i++) { T x = old[i]; string before = sz(x); MPI_Status st; EF::MPI::receive(x, a, tag, m.k.comm, &st); if (!eq(x, vs[i])) m.c.check(false, "receive", string(name) + " number " + to_string(i) + ": receiver (which held a " + before + ") got a " + sz(x) + " instead of the sent " + sz(vs[i])); if (st.MPI_SOURCE != a) m.c.check(false, "status", "status names source " + to_string(st.MPI_SOURCE)); }
}
template<class T> static void reduceOf(Msg& m, const char* name) {
    int n = m.k.n, op = m.s.range(0, 2), len = genLen(m.s), kind = m.s.range(0, 1); if (kind == 1 && len == 0) len = 1; MPI_Op ops[] = {MPI_SUM, MPI_MIN, MPI_MAX}; vector<vector<T>> all; for (int r = 0; r < n; r++) { vector<T> v; for (int i = 0; i < (kind ? len : 1); i++) v.push_back(T(len < 50 ? m.s.sint(1000) : (i*13 + r*7) % 101)); all.push_back(v); } m.c.desc << " allreduce<" << name << ">(" << all[0].size() << ",op " << op << ")"; if (!m.k.in) return;
    vector<T> want = all[0]; for (int r = 1; r < n; r++) for (size_t i = 0; i < want.size(); i++) want[i] = op == 0 ? T(want[i] + all[r][i]) : op == 1 ? std::min(want[i], all[r][i]) : std::max(want[i], all[r][i]);
    vector<T> x = all[m.k.me], y(want.size(), T(77)); if (kind) EF::MPI::allreduce(x, y, ops[op], m.k.comm); else EF::MPI::allreduce(x[0], y[0], ops[op], m.k.comm);
    if (y != want || x != all[m.k.me]) m.c.check(false, "allreduce", string(name) + (kind ? " vector" : " scalar") + " of " + to_string(want.size()) + " entries: wrong result or changed input");
}
template<class T> static void gatherOf(Msg& m, const char* name) {
    int n = m.k.n, kind = m.s.range(0, 5), len = kind == 0 || kind == 3 ? 1 : genLen(m.s); bool v = kind >= 3; vector<int> cnt(n, len), dis(n); int at = 0; if (kind >= 4) for (int& q : cnt) q = len > 100 ? len : genLen(m.s) % 60; vector<int> order(n); for (int r = 0; r < n; r++) order[r] = r; if (v) for (int r = n - 1; r > 0; r--) std::swap(order[r], order[m.s.range(0, r)]);
    for (int q = 0; q < n; q++) { int r = order[q]; if (v) at += m.s.range(0, 2); dis[r] = at; at += cnt[r]; } if (v) at += m.s.range(0, 2); vector<vector<T>> all; for (int r = 0; r < n; r++) { vector<T> w; for (int i = 0; i < cnt[r]; i++) w.push_back(T((cnt[r] < 50 ? m.s.sint(100) : (i*31 + r) % 97))); all.push_back(w); }
    m.c.desc << " allgather" << (v ? "v" : "") << "<" << name << ">(kind " << kind << ", " << len << ")"; if (!m.k.in) return; vector<T> want(at, T(55)); for (int r = 0; r < n; r++) for (int i = 0; i < cnt[r]; i++) want[dis[r] + i] = all[r][i]; vector<T> x = all[m.k.me], y(at, T(55));
    switch (kind) {
        case 0: EF::MPI::allgather(x[0], y[0], 1, m.k.comm); break;
        case 1: EF::MPI::allgather(x, y, len, m.k.comm); break;
        case 2: { EF::Vector<T> a(x), b(y); EF::MPI::allgather(a, b, len, m.k.comm); for (int i = 0; i < at; i++) y[i] = b[i]; for (size_t i = 0; i < x.size(); i++) if (!(a[i] == x[i])) m.c.check(false, "allgather", "input changed"); break; }
        case 3: EF::MPI::allgatherv(x[0], y[0], cnt, dis, m.k.comm); break;
        case 4: EF::MPI::allgatherv(x, y, cnt, dis, m.k.comm); break;
        default: { EF::Vector<T> a(x), b(y); EF::MPI::allgatherv(a, b, cnt, dis, m.k.comm); for (int i = 0; i < at; i++) y[i] = b[i]; for (size_t i = 0; i < x.size(); i++) if (!(a[i] == x[i])) m.c.check(false, "allgather", "input changed"); } }
    if (y != want) { size_t i = 0; while (i < want.size() && y[i] == want[i]) i++; m.c.check(false, "allgather", string(name) + " kind " + to_string(kind) + ": entry " + to_string(i) + " of " + to_string(at) + " is wrong"); } if (x != all[m.k.me]) m.c.check(false, "allgather", "input changed");
}
template<class T> static void scalarOps(Msg& m, const char* n) { int k = m.s.range(0, 3); if (k == 2 && std::is_same_v<T, char>) k = 1; /* MPI does not define reductions of MPI_CHAR */ if (k == 0) bcastOf<T>(m, n); else if (k == 1) p2pOf<T>(m, n); else if (k == 2) { if constexpr (!std::is_same_v<T, char>) reduceOf<T>(m, n); } else gatherOf<T>(m, n); }
template<class T> static void anyOps(Msg& m, const char* n) { if (m.s.chance(50)) p2pOf<T>(m, n); else bcastOf<T>(m, n); }
static void messages(Src& s, Ctx& c) {
    Comm k; k.n = np; k.me = rk; if (np > 1 && s.chance(40)) {
        int depth = s.chance(30) ? 2 : 1; for (int d = 0; d < depth; d++) { int a = s.range(0, k.n - 1), b = s.range(a, k.n - 1), tag = s.range(0, 9); string nn = "comm " + to_string(s.range(0, 99)); if (s.chance(40)) nn += string(s.range(1, 50), 'n'); MPI_Comm sub = MPI_COMM_NULL; c.desc << " range " << a << ".." << b << " of " << k.n; if (k.in) EF::MPI::communicatorSubsetRange(k.comm, a, b, tag, &sub); bool in = k.in && a <= k.me && k.me <= b;
            if (k.in) { if (in != (sub != MPI_COMM_NULL)) c.check(false, "subrange", "rank " + to_string(k.me) + " of " + to_string(k.n) + (in ? " has no communicator for " : " has a communicator for ") + to_string(a) + ".." + to_string(b)); if (in && sub != MPI_COMM_NULL) { int sz, me; MPI_Comm_size(sub, &sz); MPI_Comm_rank(sub, &me); if (sz != b - a + 1 || me != k.me - a) c.check(false, "subrange", "range " + to_string(a) + ".." + to_string(b) + " gives size " + to_string(sz) + " and rank " + to_string(me) + " for rank " + to_string(k.me)); string nm = EF::MPI::communicatorGetName(sub); if (nm.find(to_string(a) + ":" + to_string(b)) == string::npos && nm.size() < 50) c.check(false, "comm-name", "communicator is called " + nm);
                EF::MPI::communicatorSetName(sub, nn); if (EF::MPI::communicatorGetName(sub) != nn) c.check(false, "comm-name", "name set to '" + nn + "' reads '" + EF::MPI::communicatorGetName(sub) + "'"); } }
            if (k.mine) MPI_Comm_free(&k.comm); k.mine = in && sub != MPI_COMM_NULL; k.comm = sub; k.a += a; k.in = in && sub != MPI_COMM_NULL; k.n = b - a + 1; k.me -= a; }
        c.tag("sub-communicator"); }
    if (!allTrue(!c.failed)) { if (k.mine) MPI_Comm_free(&k.comm); return; }
    Msg m{s, c, k}; int ops = s.range(1, 8); for (int i = 0; i < ops; i++) {
        switch (s.range(0, 20)) {
            case 0: scalarOps<int>(m, "int"); break; case 1: scalarOps<double>(m, "double"); break; case 2: scalarOps<char>(m, "char"); break; case 3: scalarOps<long>(m, "long"); break; case 4: scalarOps<float>(m, "float"); break; case 5: anyOps<bool>(m, "bool"); break; case 6: scalarOps<short>(m, "short"); break; case 7: scalarOps<unsigned long>(m, "unsigned long"); break; case 8: anyOps<long double>(m, "long double"); break;
            case 9: case 10: anyOps<string>(m, "string"); break; case 11: anyOps<vector<int>>(m, "vector<int>"); break; case 12: anyOps<vector<double>>(m, "vector<double>"); break; case 13: anyOps<vector<char>>(m, "vector<char>"); break; case 14: anyOps<EF::Vector<double>>(m, "Vector<double>"); break; case 15: anyOps<EF::Vector<int>>(m, "Vector<int>"); break; case 16: anyOps<EF::Matrix<double>>(m, "Matrix<double>"); break; case 17: anyOps<EF::Matrix<int>>(m, "Matrix<int>"); break;
            case 18: bcastOf<Grid>(m, "grid"); break; case 19: bcastOf<Patch>(m, "patch"); break; default: if (s.chance(50)) bcastOf<EF::Node<Patch>>(m, "node"); else anyOps<EF::Node<double>>(m, "node<double>"); }
        if (k.in) { MPI_Barrier(k.comm); int fl = 0; MPI_Status st; MPI_Iprobe(MPI_ANY_SOURCE, MPI_ANY_TAG, k.comm, &fl, &st); if (fl) c.check(false, "left-behind", "a message from rank " + to_string(st.MPI_SOURCE) + " was never received"); }
        if (!allTrue(!c.failed)) break;
    }
    c.nontrivial = np > 1 && ops > 1; if (k.mine) MPI_Comm_free(&k.comm);
}

// ---------------------------------------------------------------------------------------------
// C28: log messages.  Whatever this process writes to its standard output while f runs:
static string captured(const std::function<void()>& f) {
    string file = "log" + to_string(rk) + ".txt"; fflush(stdout); std::ostringstream co; auto* cb = std::cout.rdbuf(co.rdbuf()); int save = dup(fileno(stdout)), fd = open(file.c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0600); dup2(fd, fileno(stdout)); close(fd);
    f(); fflush(stdout); dup2(save, fileno(stdout)); close(save); std::cout.rdbuf(cb); std::ifstream in(file, std::ios::binary); std::ostringstream o; o << in.rdbuf(); unlink(file.c_str()); return o.str() + co.str();
}
static void np_log(Src& s, Ctx& c) {
    auto& app = EF::EllipticForestApp::getInstance(); int n = s.range(1, 6); c.nontrivial = n > 1;
    for (int k = 0; k < n; k++) {
        bool head = s.chance(40); int form = s.range(0, 5), iv = s.sint(100000); double dv = s.real(1000); string w = word(s, 12, false), pre = word(s, 10, false), want; if (s.chance(4)) pre += string(s.range(100, 4000), 'm'); char t[6000]; int who = s.chance(60) ? -1 : s.range(0, np - 1); bool calls = who < 0 || who == rk;
        auto log = [&](auto&&... a) { if (!calls) return; if (head) app.logHead(a...); else app.log(a...); };
        string got = captured([&] {
            if (form == 0) { log(pre); snprintf(t, sizeof t, "%s", pre.c_str()); }
            else if (form == 1) { log(pre + " %i", iv + rk); snprintf(t, sizeof t, "%s %i", pre.c_str(), iv + rk); }
            else if (form == 2) { log(pre + " %s", w.c_str()); snprintf(t, sizeof t, "%s %s", pre.c_str(), w.c_str()); }
            else if (form == 3) { log(pre + " %f %8.3e", dv, dv); snprintf(t, sizeof t, "%s %f %8.3e", pre.c_str(), dv, dv); }
            else if (form == 4) { log(pre + " %d%% %c%s|%5d", iv, 'x', w.c_str(), iv); snprintf(t, sizeof t, "%s %d%% %c%s|%5d", pre.c_str(), iv, 'x', w.c_str(), iv); }
            else { log(pre + " [%s] %i %f", w.c_str(), iv, dv); snprintf(t, sizeof t, "%s [%s] %i %f", pre.c_str(), w.c_str(), iv, dv); } });
        bool prints = calls && (!head || rk == 0); want = "[EllipticForest " + to_string(rk) + "] " + t + "\n"; c.desc << (head ? " head" : " all") << form;
        c.check(got == (prints ? want : ""), "log", string(head ? "head " : "") + "message of rank " + to_string(rk) + (calls ? "" : " (not calling)") + " appears as '" + got + "'" + (prints ? " instead of '" + want + "'" : "")); if (!allTrue(!c.failed)) return;
    }
}

// ---------------------------------------------------------------------------------------------
// C25: distributed vectors and matrices against a plain array.  Entries are small integers, so sums are exact in any order.
static long liveObjects = 0; static PetscErrorCode objCreated(PetscObject) { liveObjects++; return PETSC_SUCCESS; } static PetscErrorCode objDestroyed(PetscObject) { liveObjects--; return PETSC_SUCCESS; }
struct CountObjects { decltype(PetscLogPHC) a; decltype(PetscLogPHD) b; CountObjects() { a = PetscLogPHC; b = PetscLogPHD; liveObjects = 0; PetscLogPHC = objCreated; PetscLogPHD = objDestroyed; } ~CountObjects() { PetscLogPHC = a; PetscLogPHD = b; } };
using PVec = EF::ParallelVector<double>; using PMat = EF::ParallelMatrix<double>;
static vector<int> split(Src& s, int N, int parts) { vector<int> n(parts, 0); if (s.chance(30)) { for (int i = 0; i < parts; i++) n[i] = N/parts + (i < N % parts); return n; } int left = N; for (int i = 0; i < parts - 1; i++) { n[i] = s.range(0, left); left -= n[i]; } n[parts - 1] = left; return n; }
static string show(const vector<int>& v) { string o = "["; for (size_t i = 0; i < v.size(); i++) o += (i ? "," : "") + to_string(v[i]); return o + "]"; }
struct VecModel { PVec v; vector<double> x; vector<int> lay; bool explicitLay = false; };  // lay: local sizes when they were given
template<class M> struct Slot { std::unique_ptr<M> m; };
static vector<double> gatherDoubles(const vector<double>& mine) { vector<double> r; for (auto& t : gather(string((const char*) mine.data(), mine.size()*8))) { size_t n = t.size()/8, o = r.size(); r.resize(o + n); if (n) memcpy(r.data() + o, t.data(), n*8); } return r; }
static bool okc(Ctx& c, PetscErrorCode e, const char* what) { if (e) c.check(false, "error", string(what) + " returned error " + to_string(e)); return !e; }
static void compareVec(Ctx& c, Vec v, const vector<double>& x, const vector<int>* lay, const char* what) {
    PetscInt N = -1, n = -1, a = -1, b = -1; VecGetSize(v, &N); VecGetLocalSize(v, &n); VecGetOwnershipRange(v, &a, &b); if (N != PetscInt(x.size())) { c.check(false, "size", string(what) + ": global size " + to_string(N) + " instead of " + to_string(x.size())); }
    auto rs = gather(string((const char*) &a, sizeof a) + string((const char*) &b, sizeof b)); PetscInt at = 0; for (int r = 0; r < np; r++) { PetscInt p, q; memcpy(&p, rs[r].data(), sizeof p); memcpy(&q, rs[r].data() + sizeof p, sizeof q); if (p != at || q < p) c.check(false, "ranges", string(what) + ": rank " + to_string(r) + " owns " + to_string(p) + ".." + to_string(q)); if (lay && q - p != (*lay)[r]) c.check(false, "ranges", string(what) + ": rank " + to_string(r) + " owns " + to_string(q - p) + " entries instead of the requested " + to_string((*lay)[r])); at = q; } if (at != N) c.check(false, "ranges", "local ranges end at " + to_string(at) + " of " + to_string(N));
    if (n != b - a) c.check(false, "ranges", "local size and local range differ"); const PetscScalar* p; VecGetArrayRead(v, &p); vector<double> mine(p, p + (b - a)); VecRestoreArrayRead(v, &p); auto all = gatherDoubles(mine); for (size_t i = 0; i < x.size() && i < all.size(); i++) if (!(all[i] == x[i])) { c.check(false, "entries", string(what) + ": entry " + to_string(i) + " is " + vf::num(all[i]) + " instead of " + vf::num(x[i])); return; }
}
// One phase of writes: every index is inserted by one rank only; any rank may add anywhere.
template<class Put> static void phase(Src& s, int N, bool add, vector<double>& x, Put put) {
    vector<int> writer(N); { Src wide = N > 60 ? rig::expand(s, N) : Src(); Src& w = N > 60 ? wide : s; for (int i = 0; i < N; i++) writer[i] = w.range(0, np - 1); } int k = s.range(0, 4);
    for (int w = 0; w < k; w++) { int r = s.range(0, np - 1), len = s.range(0, std::min(N, 7)); bool one = s.chance(30); if (one) len = std::min(N, 1); if (N > 60 && s.chance(25)) len = s.range(8, N); Src wide = len > 7 ? rig::expand(s, len) : Src(); Src& sv = len > 7 ? wide : s; int stride = s.range(1, 3), a = N ? s.range(0, N - 1) : 0; vector<int> idx; vector<double> val; std::set<int> used;
        for (int i = 0; i < len; i++) { int j = (a + i*stride) % N; if (!add) { if (used.count(j) || writer[j] < 0) continue; r = idx.empty() ? writer[j] : r; if (writer[j] != r) continue; } used.insert(j); idx.push_back(j); val.push_back(sv.sint(50)); }
        if (s.chance(50)) { std::reverse(idx.begin(), idx.end()); std::reverse(val.begin(), val.end()); }
        if (!add) for (int j : idx) writer[j] = -1;  // an inserted index is not written again in this phase
        for (size_t i = 0; i < idx.size(); i++) x[idx[i]] = add ? x[idx[i]] + val[i] : val[i];
        put(r, idx, val, one && idx.size() == 1); }
}
static void par_vec(Src& s, Ctx& c) {
    CountObjects count; long before = liveObjects;
    {
        std::vector<std::unique_ptr<VecModel>> pool; int ops = s.range(1, 8), created = 0;
        auto make = [&]() { auto m = std::make_unique<VecModel>(); int kind = s.range(0, 5), N = s.chance(80) ? s.range(0, 12) : s.chance(15) ? s.range(91, 1500) : s.range(13, 90); vector<int> lay = split(s, N, np); bool typed = s.chance(40); string t = typed ? (np == 1 && s.chance(50) ? VECSEQ : s.chance(50) ? VECMPI : VECSTANDARD) : ""; if (typed && t == VECSEQ && np > 1) t = VECMPI;
            vector<double> x(N, 0.0); c.desc << " new(kind " << kind << ", N " << N << ", " << show(lay) << ", " << t << ")";
            if (kind == 0) { m->v.~PVec(); if (typed) new (&m->v) PVec(MPI_COMM_WORLD, PETSC_DECIDE, N, t.c_str()); else new (&m->v) PVec(MPI_COMM_WORLD, PETSC_DECIDE, N); }
            else if (kind == 1 || kind == 2) { m->v.~PVec(); int g = kind == 1 ? N : int(PETSC_DETERMINE); if (typed) new (&m->v) PVec(MPI_COMM_WORLD, lay[rk], g, t.c_str()); else new (&m->v) PVec(MPI_COMM_WORLD, lay[rk], g); m->explicitLay = true; }
            else if (kind == 3) { m->v.create(); m->v.setSizes(lay[rk], N); if (typed) m->v.setType(t.c_str()); else m->v.setFromOptions(); m->explicitLay = true; }
            else { EF::Vector<double> sv(N); Src wide = N > 60 ? rig::expand(s, N) : Src(); Src& z = N > 60 ? wide : s; for (int i = 0; i < N; i++) sv[i] = x[i] = z.sint(50); m->v.~PVec(); if (typed) new (&m->v) PVec(MPI_COMM_WORLD, sv, t.c_str()); else new (&m->v) PVec(MPI_COMM_WORLD, sv); okc(c, m->v.beginAssembly(), "beginAssembly"); okc(c, m->v.endAssembly(), "endAssembly"); }
            if (kind < 4) VecSet(m->v.vec, 0.0); m->x = x; m->lay = lay; created++; return m; };
        pool.push_back(make());
        for (int o = 0; o < ops; o++) {
            int at = s.range(0, int(pool.size()) - 1); VecModel& m = *pool[at]; int N = int(m.x.size()), kind = s.range(0, 9);
            if (kind == 0 && pool.size() < 4) pool.push_back(make());
            else if (kind == 1 && pool.size() < 4) { c.desc << " copy"; auto n = std::make_unique<VecModel>(m); pool.push_back(std::move(n)); created++; }
            else if (kind == 2) { int b = s.range(0, int(pool.size()) - 1); c.desc << " assign"; if (s.chance(30)) { if (b != at) { *pool[b] = std::move(m); pool.erase(pool.begin() + at); } } else *pool[b] = m; created++; }
            else if (kind == 3 && pool.size() > 1) { c.desc << " drop"; pool.erase(pool.begin() + at); }
            else if (kind == 4) { int b = s.range(0, int(pool.size()) - 1); VecModel& n = *pool[b]; if (b != at && n.x.size() == m.x.size() && !(m.explicitLay || n.explicitLay)) { double a = s.sint(4); c.desc << " axpy"; VecAXPY(n.v.vec, a, m.v.vec); for (int i = 0; i < N; i++) n.x[i] += a*m.x[i]; double d = 0; PetscScalar e = 0; for (int i = 0; i < N; i++) d += n.x[i]*m.x[i]; VecDot(n.v.vec, m.v.vec, &e); if (std::fabs(d - e) > 1e-9*(1 + std::fabs(d))) c.check(false, "dot", "dot product is " + vf::num(e) + " instead of " + vf::num(d)); } }
            else { bool add = s.chance(40); c.desc << (add ? " add" : " insert"); auto mode = add ? ADD_VALUES : INSERT_VALUES; bool mine = s.chance(50); (void) mine;
                phase(s, N, add, m.x, [&](int r, const vector<int>& idx, const vector<double>& val, bool one) { if (r != rk) return; if (one) okc(c, m.v.setValue(idx[0], val[0], mode), "setValue"); else okc(c, m.v.setValues(EF::Vector<int>(idx), EF::Vector<double>(val), mode), "setValues"); });
                okc(c, m.v.beginAssembly(), "beginAssembly"); okc(c, m.v.endAssembly(), "endAssembly"); }
            for (auto& p : pool) compareVec(c, p->v.vec, p->x, p->explicitLay ? &p->lay : nullptr, "vector"); if (!allTrue(!c.failed)) break;
        }
        c.nontrivial = ops > 1 && np > 1; if (created > 1) c.tag("copies");
    }
    if (liveObjects != before) c.check(false, "leak", to_string(liveObjects - before) + " PETSc objects remain after every vector is gone");
}
static void par_mat(Src& s, Ctx& c) {
    CountObjects count; long before = liveObjects;
    {
        struct Model { std::unique_ptr<PMat> m; vector<double> x; int M = 0, N = 0; vector<int> rl, cl; bool lay = false, fixedVals = false, frozen = false; };  // fixedVals: no getValues; frozen: PETSc keeps the nonzero pattern
        if (s.chance(10)) { int n = s.range(1, 24); EF::ParallelIdentityMatrix<double> own(MPI_COMM_SELF, size_t(n)); bool good = true; for (int i = 0; i < n; i++) { PetscInt nc; const PetscInt* cj; const PetscScalar* cv; if (MatGetRow(own.mat, i, &nc, &cj, &cv)) { good = false; break; } double sum = 0; for (int q = 0; q < nc; q++) { sum += cv[q]; good &= cv[q] == 0 || (cj[q] == i && cv[q] == 1); } good &= sum == 1; MatRestoreRow(own.mat, i, &nc, &cj, &cv); } c.check(good, "entries", "identity of order " + to_string(n) + " on the communicator of one rank"); c.tag("identity on one rank"); }
        std::vector<Model> pool; int ops = s.range(1, 8), extra = 0;
        auto assemble = [&](PMat& m) { okc(c, m.beginAssembly(MAT_FINAL_ASSEMBLY), "beginAssembly"); okc(c, m.endAssembly(MAT_FINAL_ASSEMBLY), "endAssembly"); };
        auto make = [&]() { Model m; int kind = s.range(0, 6); m.M = s.range(0, 9); m.N = s.chance(50) ? m.M : s.range(0, 9); if (s.chance(6)) m.M = s.range(10, 40); if (s.chance(4)) m.N = s.range(10, 120); m.rl = split(s, m.M, np); m.cl = split(s, m.N, np); bool typed = s.chance(50); vector<string> types{MATAIJ, MATDENSE, np == 1 ? MATSEQAIJ : MATMPIAIJ, np == 1 ? MATSEQDENSE : MATMPIDENSE}; string t = s.pick(types); m.x.assign(size_t(m.M)*m.N, 0.0);
            c.desc << " new(kind " << kind << ", " << m.M << "x" << m.N << (typed ? ", " + t : "") << ")";
            if (kind == 0) m.m.reset(typed ? new PMat(MPI_COMM_WORLD, PETSC_DECIDE, PETSC_DECIDE, m.M, m.N, t.c_str()) : new PMat(MPI_COMM_WORLD, PETSC_DECIDE, PETSC_DECIDE, m.M, m.N));
            else if (kind == 1) { int gm = s.chance(40) ? int(PETSC_DETERMINE) : m.M, gn = s.chance(40) ? int(PETSC_DETERMINE) : m.N; m.m.reset(typed ? new PMat(MPI_COMM_WORLD, m.rl[rk], m.cl[rk], gm, gn, t.c_str()) : new PMat(MPI_COMM_WORLD, m.rl[rk], m.cl[rk], gm, gn)); m.lay = true; }
            else if (kind == 2) { m.m.reset(new PMat(MPI_COMM_WORLD)); m.m->create(); m.m->setSizes(m.rl[rk], m.cl[rk], PETSC_DETERMINE, PETSC_DETERMINE); if (typed) m.m->setType(t.c_str()); else m.m->setFromOptions(); m.lay = true; }
            else if (kind == 3 || kind == 4) { EF::Matrix<double> sm(m.M, m.N); Src wide = m.M*m.N > 60 ? rig::expand(s, m.M*m.N) : Src(); Src& z = m.M*m.N > 60 ? wide : s; for (int i = 0; i < m.M; i++) for (int j = 0; j < m.N; j++) sm(i, j) = m.x[size_t(i)*m.N + j] = z.sint(50); m.m.reset(typed ? new PMat(MPI_COMM_WORLD, sm, t.c_str()) : new PMat(MPI_COMM_WORLD, sm)); }
            else if (kind == 5) { Mat h; MatCreate(MPI_COMM_WORLD, &h); MatSetSizes(h, m.rl[rk], m.cl[rk], m.M, m.N); MatSetType(h, typed ? t.c_str() : MATAIJ); MatSetUp(h); m.m.reset(new PMat(MPI_COMM_WORLD, h)); m.lay = true; }
            else { m.N = m.M; m.x.assign(size_t(m.M)*m.M, 0.0); for (int i = 0; i < m.M; i++) m.x[size_t(i)*m.M + i] = 1; int k = s.range(0, 2); using PId = EF::ParallelIdentityMatrix<double>; m.m.reset(k == 0 ? new PId(size_t(m.M)) : k == 1 ? new PId(MPI_COMM_WORLD, size_t(m.M)) : new PId(MPI_COMM_WORLD, size_t(m.M), t.c_str())); c.desc << " identity " << k; m.fixedVals = true; return m; }
            if (kind <= 2) MatSetUp(m.m->mat); if (kind <= 2 || kind >= 3) { assemble(*m.m); } return m; };
        auto compare = [&](Model& m) {
            PetscInt M, N, ml, nl, a, b; MatGetSize(m.m->mat, &M, &N); MatGetLocalSize(m.m->mat, &ml, &nl); MatGetOwnershipRange(m.m->mat, &a, &b); string what = to_string(m.M) + "x" + to_string(m.N) + " matrix"; if (M != m.M || N != m.N) c.check(false, "size", what + " has size " + to_string(M) + "x" + to_string(N));
            auto rs = gather(string((const char*) &a, sizeof a) + string((const char*) &b, sizeof b) + string((const char*) &nl, sizeof nl)); PetscInt at = 0, ct = 0; for (int r = 0; r < np; r++) { PetscInt q[3]; memcpy(q, rs[r].data(), sizeof q); if (q[0] != at || q[1] < q[0]) c.check(false, "ranges", what + ": rank " + to_string(r) + " owns rows " + to_string(q[0]) + ".." + to_string(q[1])); if (m.lay && (q[1] - q[0] != m.rl[r] || q[2] != m.cl[r])) c.check(false, "ranges", what + ": rank " + to_string(r) + " has a local size other than the requested one"); at = q[1]; ct += q[2]; } if (at != M || ct != N) c.check(false, "ranges", what + ": local sizes do not add up");
            if (ml != b - a) c.check(false, "ranges", "local size"); if (m.m->globalRows() != M || m.m->globalCols() != N || m.m->localRows() != ml || m.m->localCols() != nl) c.check(false, "reported-size", what + " reports " + to_string(m.m->globalRows()) + "x" + to_string(m.m->globalCols()) + " (local " + to_string(m.m->localRows()) + "x" + to_string(m.m->localCols()) + "), local size " + to_string(ml) + "x" + to_string(nl)); vector<int> rows, cols; for (int i = a; i < b; i++) rows.push_back(i); for (int j = 0; j < N; j++) cols.push_back(j); vector<double> mine;
            if (m.fixedVals) { for (int i : rows) { vector<double> row(N, 0.0); PetscInt nc; const PetscInt* cj; const PetscScalar* cv; if (!okc(c, MatGetRow(m.m->mat, i, &nc, &cj, &cv), "MatGetRow")) break; for (int q = 0; q < nc; q++) row[cj[q]] = cv[q]; MatRestoreRow(m.m->mat, i, &nc, &cj, &cv); mine.insert(mine.end(), row.begin(), row.end()); } }
            else if (!rows.empty() && !cols.empty()) { EF::Matrix<double> blk(rows.size(), cols.size(), -99.); okc(c, m.m->getValues(EF::Vector<int>(rows), EF::Vector<int>(cols), blk), "getValues"); EF::Vector<double> lin(rows.size()*cols.size()); okc(c, m.m->getValues(EF::Vector<int>(rows), EF::Vector<int>(cols), lin), "getValues"); for (size_t i = 0; i < rows.size(); i++) for (size_t j = 0; j < cols.size(); j++) { mine.push_back(blk(i, j)); double one = 7; okc(c, m.m->getValue(rows[i], cols[j], one), "getValue"); if (!(one == blk(i, j)) || !(lin[i*cols.size() + j] == one)) c.check(false, "get", what + ": getValue and getValues disagree"); } }
            auto all = gatherDoubles(mine); for (size_t i = 0; i < m.x.size() && i < all.size(); i++) if (!(all[i] == m.x[i])) { c.check(false, "entries", what + ": entry (" + to_string(i/m.N) + "," + to_string(i % m.N) + ") is " + vf::num(all[i]) + " instead of " + vf::num(m.x[i])); return; } };
        pool.push_back(make());
        for (int o = 0; o < ops; o++) {
            int at = s.range(0, int(pool.size()) - 1), kind = s.range(0, 11); Model& m = pool[at];
            if (kind == 0 && pool.size() < 4) pool.push_back(make());
            else if (kind == 1 && pool.size() < 4) { if (m.fixedVals) continue; c.desc << " copy"; Model n; n.x = m.x; n.M = m.M; n.N = m.N; n.rl = m.rl; n.cl = m.cl; n.lay = m.lay; n.frozen = m.frozen; n.m.reset(new PMat(*m.m)); if (n.m->globalRows() != m.m->globalRows() || n.m->globalCols() != m.m->globalCols() || n.m->localRows() != m.m->localRows() || n.m->localCols() != m.m->localCols()) c.check(false, "size", "a copy reports other sizes"); pool.push_back(std::move(n)); extra++; }
            else if (kind == 2 && pool.size() > 1) { int b = s.range(0, int(pool.size()) - 1); if (b == at) continue; c.desc << " move-assign"; Model& n = pool[b]; *n.m = std::move(*m.m); n.x = m.x; n.M = m.M; n.N = m.N; n.rl = m.rl; n.cl = m.cl; n.lay = m.lay; n.fixedVals = m.fixedVals; n.frozen = m.frozen; pool.erase(pool.begin() + at); extra++; }
            else if (kind == 3 && pool.size() > 1) { c.desc << " drop"; pool.erase(pool.begin() + at); }
            else if (kind == 4 && pool.size() < 4 && !m.fixedVals) {  // sub-matrix: every rank asks for a run of rows and a share of the columns
                MatType ty; MatGetType(m.m->mat, &ty); if (np > 1 && strstr(ty, "dense")) continue;  // PETSc only takes local rows of a distributed dense matrix
                vector<vector<int>> rows(np), cols(np); Model n; for (int r = 0; r < np; r++) { int k = m.M ? s.range(0, std::min(m.M, 3)) : 0, a = k ? s.range(0, m.M - k) : 0; for (int i = 0; i < k; i++) rows[r].push_back(a + i); int q = m.N ? s.range(0, std::min(m.N, 3)) : 0, b = q ? s.range(0, m.N - q) : 0; for (int i = 0; i < q; i++) cols[r].push_back(b + i); }
                vector<int> R, C; std::set<int> seen; for (auto& x : rows) for (int i : x) R.push_back(i); for (auto& x : cols) { vector<int> y; for (int i : x) if (seen.insert(i).second) y.push_back(i); x = y; for (int i : x) C.push_back(i); } if (!std::is_sorted(C.begin(), C.end()) || R.empty() || C.empty()) continue; { std::set<int> rr(R.begin(), R.end()); if (rr.size() != R.size()) continue; }
                c.desc << " sub(" << R.size() << "x" << C.size() << ")"; IS ir, ic; ISCreateGeneral(MPI_COMM_WORLD, int(rows[rk].size()), rows[rk].data(), PETSC_COPY_VALUES, &ir); ISCreateGeneral(MPI_COMM_WORLD, int(cols[rk].size()), cols[rk].data(), PETSC_COPY_VALUES, &ic); n.m.reset(new PMat(MPI_COMM_WORLD, *m.m, ir, ic)); ISDestroy(&ir); ISDestroy(&ic);
                n.M = int(R.size()); n.N = int(C.size()); n.lay = n.frozen = true; for (int r = 0; r < np; r++) { n.rl.push_back(int(rows[r].size())); n.cl.push_back(int(cols[r].size())); } for (int i : R) for (int j : C) n.x.push_back(m.x[size_t(i)*m.N + j]); if (n.m->globalRows() != n.M || n.m->globalCols() != n.N || n.m->localRows() != n.rl[rk] || n.m->localCols() != n.cl[rk]) c.check(false, "size", "a sub-matrix reports wrong sizes"); pool.push_back(std::move(n)); extra++; }
            else if (kind == 5 && pool.size() < 4) {  // matrices of single ranks, stacked on the world communicator
                MPI_Comm one; EF::MPI::communicatorSubsetRange(MPI_COMM_WORLD, rk, rk, 0, &one); Model n; n.N = s.range(1, 4); if (s.chance(4)) n.N = s.range(5, 16); vector<int> h(np); for (int r = 0; r < np; r++) h[r] = s.chance(60) ? n.N : s.range(1, 5); c.desc << " stack(" << show(h) << "x" << n.N << ")"; { EF::Matrix<double> mine(h[rk], n.N); for (int r = 0; r < np; r++) for (int i = 0; i < h[r]; i++) for (int j = 0; j < n.N; j++) { double v = s.sint(50); n.x.push_back(v); if (r == rk) mine(i, j) = v; } n.M = std::accumulate(h.begin(), h.end(), 0);
                    int form = s.range(0, 2); PMat local = form == 0 ? PMat(one, mine) : form == 1 ? PMat(one, h[rk], n.N, PETSC_DETERMINE, PETSC_DETERMINE, MATAIJ) : PMat(one); if (form == 2) { local.create(); local.setSizes(h[rk], n.N, h[rk], n.N); local.setType(MATAIJ); } if (form) { MatSetUp(local.mat); okc(c, local.setValues(EF::vectorRange(0, h[rk] - 1), EF::vectorRange(0, n.N - 1), mine, INSERT_VALUES), "setValues"); } assemble(local); n.m.reset(new PMat(MPI_COMM_WORLD, local)); } MPI_Comm_free(&one); if (n.m->globalRows() != n.M || n.m->globalCols() != n.N) c.check(false, "size", "a stacked matrix reports " + to_string(n.m->globalRows()) + "x" + to_string(n.m->globalCols()) + " instead of " + to_string(n.M) + "x" + to_string(n.N)); n.fixedVals = true; pool.push_back(std::move(n)); extra++; }
            else if (kind == 6) {  // product with a distributed vector
                Vec xv, yv; MatCreateVecs(m.m->mat, &xv, &yv); PetscInt a, b; VecGetOwnershipRange(xv, &a, &b); vector<double> x(m.N), y(m.M, 0.0); Src wide = m.N > 60 ? rig::expand(s, m.N) : Src(); for (double& v : x) v = (m.N > 60 ? wide : s).sint(9); for (int j = a; j < b; j++) VecSetValue(xv, j, x[j], INSERT_VALUES); VecAssemblyBegin(xv); VecAssemblyEnd(xv); MatMult(m.m->mat, xv, yv); for (int i = 0; i < m.M; i++) for (int j = 0; j < m.N; j++) y[i] += m.x[size_t(i)*m.N + j]*x[j]; c.desc << " product"; compareVec(c, yv, y, nullptr, "product"); VecDestroy(&xv); VecDestroy(&yv); }
            else if (!m.fixedVals && !m.frozen) { bool add = s.chance(40); auto mode = add ? ADD_VALUES : INSERT_VALUES; c.desc << (add ? " add" : " insert"); int k = s.range(0, 3); vector<int> writer(m.x.size()); for (int& w : writer) w = -1; if (!m.M || !m.N) continue; Model& t = m;
                int mx = s.chance(6) ? 30 : 3; for (int w = 0; w < k; w++) { int r = s.range(0, np - 1), a = s.range(0, m.M - 1), h = s.range(1, std::min(mx, m.M - a)), b = s.range(0, m.N - 1), q = s.range(1, std::min(mx, m.N - b)), form = s.range(0, 2); if (form == 0) h = q = 1; vector<int> ri, ci; for (int i = 0; i < h; i++) ri.push_back(a + i); for (int j = 0; j < q; j++) ci.push_back(b + j); if (s.chance(30)) std::reverse(ri.begin(), ri.end()); if (s.chance(30)) std::reverse(ci.begin(), ci.end());
                    bool clash = false; if (!add) for (int i : ri) for (int j : ci) clash |= writer[size_t(i)*m.N + j] >= 0; if (clash) continue; EF::Matrix<double> blk(h, q); EF::Vector<double> lin(h*q); Src wide = h*q > 9 ? rig::expand(s, h*q) : Src(); for (int i = 0; i < h; i++) for (int j = 0; j < q; j++) { double v = (h*q > 9 ? wide : s).sint(50); blk(i, j) = v; lin[i*q + j] = v; size_t e = size_t(ri[i])*m.N + ci[j]; t.x[e] = add ? t.x[e] + v : v; writer[e] = r; }
                    if (r == rk) { if (form == 0) okc(c, m.m->setValue(ri[0], ci[0], blk(0, 0), mode), "setValue"); else if (form == 1) okc(c, m.m->setValues(EF::Vector<int>(ri), EF::Vector<int>(ci), blk, mode), "setValues"); else okc(c, m.m->setValues(EF::Vector<int>(ri), EF::Vector<int>(ci), lin, mode), "setValues"); } }
                assemble(*m.m); }
            for (auto& p : pool) compare(p); if (!allTrue(!c.failed)) break;
        }
        c.nontrivial = ops > 1 && np > 1; if (extra) c.tag("derived matrices");
    }
    if (liveObjects != before) c.check(false, "leak", to_string(liveObjects - before) + " PETSc objects remain after every matrix is gone");
}

int main(int argc, char** argv) {
    Session S(argc, argv); MPI_Comm_set_errhandler(MPI_COMM_WORLD, MPI_ERRORS_ARE_FATAL); MPI_Comm_dup(MPI_COMM_WORLD, &own); MPI_Comm_rank(own, &rk); MPI_Comm_size(own, &np);
    int r = rig::run(argc, argv, {
        {"np_tree", 120, np_tree, "more leaves than ranks"},
        {"np_log", 100, np_log, "at least two messages"},
        {"messages", 400, messages, "two or more ranks and operations"},
        {"par_vec", 300, par_vec, "two or more ranks and operations"},
        {"par_mat", 500, par_mat, "two or more ranks and operations"},
        {"np_vtk", 200, np_vtk, "more leaves than ranks"},
        {"np_pvtu", 300, np_pvtu, "two or more ranks and arrays"},
        {"np_solve", 260, np_solve, "more leaves than ranks"},
    });
    MPI_Comm_free(&own); return r;
}
