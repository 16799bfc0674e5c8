// Refinement, quadtree traversals and mesh output: C10, C11, C13.
#include "mesh_ref.hpp"
#include "vtu.hpp"

#include <unistd.h>

using namespace vf;
using namespace mref; using namespace vtu;
using rig::Ctx; using rig::Src; using rig::fail;
using std::string; using std::to_string; using std::vector;

// ---------------------------------------------------------------------------------------------
// C10
static void refine(Src& s, Ctx& c) {
    AnyMesh am; int rounds = s.chance(30) ? 2 : 1;
    for (int r = 0; r < rounds; r++) {
        Spec m = genSpec(s, 5); if (s.chance(3)) (s.chance(50) ? m.nx : m.ny) = s.range(9, 60); c.desc << (r ? " then " : "") << m.str(); Ref ref(m); if (ref.overflow || int(ref.leaves.size())*m.nx*m.ny > 30000) { c.tag("large"); m.lmin = std::min(m.lmin, 2); m.lmax = m.lmin; ref = Ref(m); }
        std::set<string> want = ref.paths(); am.build(m); auto& map = am.mesh.quadtree.map; c.desc << " -> " << want.size() << " leaves";
        std::set<string> got, anc, nodes; for (auto& [k, n] : map) { if (!n) fail("null-node", "node " + k + " is null on the only rank"); if (n->path != k) fail("path", "node stored under " + k + " has path " + n->path); nodes.insert(k); if (n->leaf) got.insert(k); if (n->level != int(k.size()) - 1) fail("level", "node " + k + " has level " + to_string(n->level)); }
        if (got != want) { string a = firstDiff(want, got), b = firstDiff(got, want); fail("leafset", "leaf set differs from the specified refinement: expected leaf " + (a.empty() ? "-" : a) + ", unexpected leaf " + (b.empty() ? "-" : b)); }
        for (auto& p : want) for (size_t k = 1; k <= p.size(); k++) anc.insert(p.substr(0, k)); if (anc != nodes) fail("nodeset", "node map is not the leaves and their ancestors: " + firstDiff(anc, nodes) + " / " + firstDiff(nodes, anc));
        std::set<int> levels; for (auto& q : ref.leaves) levels.insert(q[0]); if (levels.size() > 1) c.nontrivial = true; c.tag("levels " + to_string(levels.size())); if (*levels.rbegin() > 5) c.tag("deep"); if (m.nx != m.ny) c.tag("nx != ny");
        for (auto& [k, n] : map) checkBox(n->data.grid(), pathBox(m.box, k), m.box, m.nx, m.ny, "patch " + k);
        // iterators: every leaf once, z-order; cells in the order of the patches, x-index slowest
        vector<string> order(want.begin(), want.end()); size_t at = 0; vector<std::pair<double, double>> centres;
        am.mesh.iteratePatches([&](Patch& p) { if (at >= order.size()) fail("iterate-patches", "more patches than leaves"); Node* n = map[order[at]]; if (&n->data != &p) fail("iterate-patches", "patch " + to_string(at) + " of the iteration is not leaf " + order[at]); at++;
            Grid& g = p.grid(); for (int i = 0; i < m.nx; i++) for (int j = 0; j < m.ny; j++) centres.push_back({g(0, i), g(1, j)}); });
        if (at != order.size()) fail("iterate-patches", "visited " + to_string(at) + " of " + to_string(order.size()) + " leaves");
        double ex = 1e-12*std::max({std::fabs(m.box.xl), std::fabs(m.box.xu), m.box.w()}), ey = 1e-12*std::max({std::fabs(m.box.yl), std::fabs(m.box.yu), m.box.h()}); size_t ci = 0; am.mesh.iterateCells([&](double x, double y) { if (ci >= centres.size() || std::fabs(x - centres[ci].first) > ex || std::fabs(y - centres[ci].second) > ey) fail("iterate-cells", "cell " + to_string(ci) + " of the iteration is (" + num(x) + "," + num(y) + ")"); ci++; });
        if (ci != centres.size()) fail("iterate-cells", "visited " + to_string(ci) + " of " + to_string(centres.size()) + " cells");
        Smooth f = genSmooth(s, m.box, 3); am.mesh.clearMeshFunctions(); am.mesh.addMeshFunction([f](double x, double y) { return f(x, y); }, "f"); if (am.mesh.mesh_functions.size() != 1) fail("mesh-function", "mesh function not added"); auto& v = *am.mesh.mesh_functions[0];
        if (v.size() != centres.size() || v.name() != "f") fail("mesh-function", "mesh function has " + to_string(v.size()) + " values for " + to_string(centres.size()) + " cells");
        for (size_t k = 0; k < centres.size(); k++) if (!(std::fabs(v[k] - f(centres[k].first, centres[k].second)) <= 1e-10*(std::fabs(f.c0) + std::fabs(f.c1) + std::fabs(f.c2) + std::fabs(f.c3) + std::fabs(f.c4) + 1e-9)*(1 + (ex + ey)*1e12/std::min(m.box.w(), m.box.h())))) fail("mesh-function", "value " + to_string(k) + " of the mesh function belongs to another cell");
        am.mesh.clearMeshFunctions();
    }
    am.mesh.mesh_functions.clear();
}

// ---------------------------------------------------------------------------------------------
// C11 on a light-weight node type.
struct Item { double value = 0; int tag = 0; string where; };
class ItemFactory : public EF::AbstractNodeFactory<Item> {
public:
    int created = 0; bool badparent = false;
    EF::Node<Item>* createNode(Item d, string path, int level, int pf, int pl) override { created++; return new EF::Node<Item>(MPI_COMM_WORLD, d, path, level, pf, pl); }
    EF::Node<Item>* createChildNode(EF::Node<Item>* parent, int sib, int pf, int pl) override { created++; if (!parent) { badparent = true; return createNode(Item{}, "?", 0, pf, pl); } Item d; d.tag = parent->data.tag + 1; d.where = parent->data.where + char('a' + sib); return new EF::Node<Item>(MPI_COMM_WORLD, d, parent->path + to_string(sib), parent->level + 1, pf, pl); }
    EF::Node<Item>* createParentNode(vector<EF::Node<Item>*> ch, int pf, int pl) override { created++; return new EF::Node<Item>(MPI_COMM_WORLD, Item{}, ch[0]->path.substr(0, ch[0]->path.size() - 1), ch[0]->level - 1, pf, pl); }
};
inline int broadcast(Item&, int, MPI_Comm) { return 0; }  // found by argument-dependent lookup; one rank only here
struct Forest {  // p4est forest with an arbitrary (unbalanced) refinement given by a path hash
    p4est_connectivity_t* conn; p4est_t* p; uint32_t seed; int pct, lmax, lmin;
    static int want(p4est_t* p, p4est_topidx_t, p4est_quadrant_t* q) {
        auto& f = *(Forest*) p->user_pointer; if (q->level >= f.lmax) return 0; if (q->level < f.lmin) return 1;
        uint32_t h = f.seed; string s = EF::p4est::p4est_quadrant_path(q); for (unsigned char ch : s) { h = (h ^ ch)*16777619u; h ^= h >> 13; } return int(h % 100u) < f.pct;
    }
    Forest(Src& s) { seed = s.next(); lmax = s.range(0, 5); lmin = s.range(0, std::min(lmax, 2)); pct = s.range(0, 90); if (s.chance(10)) { lmax = s.range(6, 12); pct = s.range(10, 26); } conn = EF::p4est::p4est_connectivity_new_square_domain(0, 1, 0, 1); p = p4est_new_ext(MPI_COMM_WORLD, conn, 0, 0, 1, 0, nullptr, this); p->user_pointer = this; p4est_refine(p, 1, want, nullptr); if (s.chance(30)) p4est_balance(p, P4EST_CONNECT_FULL, nullptr); }
    ~Forest() { p4est_destroy(p); p4est_connectivity_destroy(conn); }
    // paths of the forest's leaves, computed from coordinates
    vector<string> leaves() const {
        vector<string> v; p4est_tree_t* t = p4est_tree_array_index(p->trees, 0);
        for (size_t i = 0; i < t->quadrants.elem_count; i++) { p4est_quadrant_t* q = p4est_quadrant_array_index(&t->quadrants, i); string s = "0"; for (int l = 1; l <= q->level; l++) { int sh = P4EST_MAXLEVEL - l; s += char('0' + ((q->x >> sh) & 1) + 2*((q->y >> sh) & 1)); } v.push_back(s); }
        return v;
    }
};
using Tree = EF::Quadtree<Item>; using TNode = EF::Node<Item>;
static void preList(const std::set<string>& nodes, const string& at, const std::set<string>& stop, vector<string>& out) { if (!nodes.count(at)) return; out.push_back(at); if (stop.count(at)) return; for (char ch = '0'; ch < '4'; ch++) preList(nodes, at + ch, stop, out); }
static void postList(const std::set<string>& nodes, const string& at, vector<string>& out) { if (!nodes.count(at)) return; for (char ch = '0'; ch < '4'; ch++) postList(nodes, at + ch, out); out.push_back(at); }
static string show(const vector<string>& v) { string o; for (size_t i = 0; i < v.size() && i < 24; i++) o += v[i] + " "; return o + "(" + to_string(v.size()) + ")"; }
static void checkSeq(const vector<string>& got, const vector<string>& want, const string& key, const string& what) { if (got != want) { size_t k = 0; while (k < got.size() && k < want.size() && got[k] == want[k]) k++; fail(key, what + ": position " + to_string(k) + " differs; visited " + show(got) + ", expected " + show(want)); } }
static void tree(Src& s, Ctx& c) {
    Forest F(s); ItemFactory fac; Item rootItem; rootItem.value = 1.5; rootItem.where = "r"; void* dummy = s.chance(50) ? (void*) &F : nullptr; F.p->user_pointer = dummy;
    Tree first(MPI_COMM_WORLD, F.p, rootItem, fac); if (F.p->user_pointer != dummy) fail("user-pointer", "construction left the forest's user pointer changed"); if (fac.badparent) fail("parent-missing", "a child was created before its parent");
    std::unique_ptr<Tree> moved; Tree* T = &first; if (s.chance(50)) { moved.reset(new Tree); *moved = std::move(first); T = moved.get(); c.tag("moved"); }
    vector<string> leaves = F.leaves(); std::set<string> leafset(leaves.begin(), leaves.end()), nodes; for (auto& l : leaves) for (size_t k = 1; k <= l.size(); k++) nodes.insert(l.substr(0, k));
    c.nontrivial = leaves.size() > 4; c.desc << leaves.size() << " leaves, seed " << F.seed << " pct " << F.pct << " levels " << F.lmin << ".." << F.lmax << (moved ? " moved" : "");
    struct Free { Tree*& t; ~Free() { for (auto& [k, n] : t->map) delete n; t->map.clear(); } } freer{T};
    auto intact = [&](const string& when) {
        if (T->map.size() != nodes.size()) fail("node-map", when + ": " + to_string(T->map.size()) + " entries for " + to_string(nodes.size()) + " nodes");
        for (auto& [k, n] : T->map) { if (!nodes.count(k) || !n) fail("node-map", when + ": entry " + k + (n ? " is not a node of the forest" : " is null")); if (n->path != k || n->level != int(k.size()) - 1 || n->leaf != bool(leafset.count(k)) || n->pfirst != 0 || n->plast != 0 || !n->isOwned()) fail("node-data", when + ": node " + k + " has path " + n->path + ", level " + to_string(n->level) + ", leaf " + to_string(n->leaf)); string w = "r"; for (size_t q = 1; q < k.size(); q++) w += char('a' + k[q] - '0'); if (n->data.where != w || n->data.tag != n->level) fail("node-parent", when + ": node " + k + " was created from another parent: " + n->data.where); }
        if (&T->root() != &T->map["0"]->data) fail("root", "root() is not the data of node 0");
    };
    intact("after construction"); int ops = s.chance(3) ? s.range(6, 20) : s.range(1, 6); double kv = 1;
    for (int o = 0; o < ops; o++) {
        int op = s.range(0, 7); vector<string> got, want; std::map<const Item*, string> owner; for (auto& [k, n] : T->map) owner[&n->data] = k;
        std::set<string> stop; if (s.chance(60)) { int n = s.range(1, 3); vector<string> all(nodes.begin(), nodes.end()); for (int i = 0; i < n; i++) stop.insert(s.pick(all)); }
        auto children = [&](TNode* n, vector<TNode*>& ch, const string& what) { if (ch.size() != 4) fail("family", what + ": " + to_string(ch.size()) + " children"); for (int q = 0; q < 4; q++) { auto it = T->map.find(n->path + char('0' + q)); if (it == T->map.end() || ch[q] != it->second) fail("family", what + ": child " + to_string(q) + " of " + n->path + " is not node " + n->path + to_string(q)); } if (leafset.count(n->path)) fail("family", what + ": leaf " + n->path + " visited as a family"); };
        if (op == 0) { c.desc << " pre"; c.tag("pre-node"); T->traversePreOrder([&](TNode* n) { got.push_back(n->path); return stop.count(n->path) ? 0 : 1; }); preList(nodes, "0", stop, want); checkSeq(got, want, "preorder", "pre-order traversal"); }
        else if (op == 1) { c.desc << " pre-data"; c.tag("pre-data"); T->traversePreOrder([&](Item& d) { got.push_back(owner.count(&d) ? owner[&d] : "?"); }); preList(nodes, "0", {}, want); checkSeq(got, want, "preorder-data", "pre-order data traversal"); }
        else if (op == 2) { c.desc << " post"; c.tag("post-node"); int ret = s.range(0, 1); T->traversePostOrder([&](TNode* n) { got.push_back(n->path); return ret; }); postList(nodes, "0", want); checkSeq(got, want, "postorder", "post-order traversal"); }
        else if (op == 3) { c.desc << " post-data"; c.tag("post-data"); T->traversePostOrder([&](Item& d) { got.push_back(owner.count(&d) ? owner[&d] : "?"); }); postList(nodes, "0", want); checkSeq(got, want, "postorder-data", "post-order data traversal"); }
        else if (op == 4) {  // bottom-up sum of leaf weights
            c.desc << " merge"; c.tag("merge"); kv += 1; double w = kv; std::set<string> done; for (auto& [k, n] : T->map) n->data.value = -7;
            auto leafw = [w](const string& p) { double v = w; for (char ch : p) v = v*3 + (ch - '0' + 1); return std::fmod(v, 1009.0); };
            T->merge([&](TNode* n) { got.push_back(n->path); if (!leafset.count(n->path)) fail("merge-leaf", "merge visited branch " + n->path + " as a leaf"); n->data.value = leafw(n->path); done.insert(n->path); return 1; },
                     [&](TNode* n, vector<TNode*> ch) { children(n, ch, "merge"); got.push_back(n->path); double v = 0; for (auto* q : ch) { if (!done.count(q->path)) fail("merge-order", "merge visited family " + n->path + " before child " + q->path); v += q->data.value; } n->data.value = v; done.insert(n->path); return 1; });
            postList(nodes, "0", want); checkSeq(got, want, "merge", "merge"); double sum = 0; for (auto& l : leaves) sum += leafw(l); if (T->root().value != sum) fail("merge-sum", "sum over the leaves merged to " + num(T->root().value) + " instead of " + num(sum));
        } else if (op == 5) {  // top-down assignment
            c.desc << " split"; c.tag("split"); T->root().value = ++kv; for (auto& [k, n] : T->map) if (k != "0") n->data.value = -7; std::set<string> st; for (auto& p : stop) if (!leafset.count(p)) st.insert(p);
            T->split([&](TNode* n) { got.push_back(n->path); if (!leafset.count(n->path)) fail("split-leaf", "split visited branch " + n->path + " as a leaf"); return 1; },
                     [&](TNode* n, vector<TNode*> ch) { children(n, ch, "split"); got.push_back(n->path); for (int q = 0; q < 4; q++) ch[q]->data.value = n->data.value*2 + q; return st.count(n->path) ? 0 : 1; });
            preList(nodes, "0", st, want); checkSeq(got, want, "split", "split");
            for (auto& p : want) { double v = kv; for (size_t q = 1; q < p.size(); q++) v = v*2 + (p[q] - '0'); if (T->map[p]->data.value != v) fail("split-value", "node " + p + " received " + num(T->map[p]->data.value) + " instead of " + num(v)); }
        } else if (op == 6) {  // move the tree to another object
            c.desc << " move"; c.tag("move-again"); std::unique_ptr<Tree> t(new Tree); *t = std::move(*T); moved = std::move(t); T = moved.get(); if (s.chance(50)) F.p->user_pointer = nullptr;
        } else {  // move the tree onto an object that holds another tree already
            c.desc << " move-over"; c.tag("move-over"); auto F2 = std::make_unique<Forest>(s); auto r2 = std::make_unique<Item>(); auto fac2 = std::make_unique<ItemFactory>(); auto t = std::make_unique<Tree>(MPI_COMM_WORLD, F2->p, *r2, *fac2); vector<TNode*> olds; for (auto& [k, n] : t->map) olds.push_back(n); c.desc << "(" << olds.size() << ")";
            *t = std::move(*T); moved = std::move(t); T = moved.get(); std::set<TNode*> now; for (auto& [k, n] : T->map) now.insert(n); bool stale = false; for (auto* n : olds) { stale |= now.count(n) > 0; delete n; } if (stale) { T->map.clear(); fail("node-map", "after move assignment the tree still holds nodes of the tree it replaced"); }
        }
        intact("after operation " + to_string(o));
    }
}

// ---------------------------------------------------------------------------------------------
// C13
static void vtk(Src& s, Ctx& c) {
    AnyMesh am; int rounds = s.chance(40) ? 2 : 1; char dir[200]; int counter = 0; 
    for (int r = 0; r < rounds; r++) {
        Spec m = genSpec(s, 3); if (s.chance(3)) (s.chance(50) ? m.nx : m.ny) = s.range(9, 40); Ref ref(m); if (ref.overflow || int(ref.leaves.size())*m.nx*m.ny > 1500) { m.lmax = std::min(m.lmax, 1); m.lmin = std::min(1, m.lmin); ref = Ref(m); }
        c.desc << (r ? " then " : "") << m.str(); c.nontrivial |= ref.leaves.size() > 1; if (r) c.tag("refined again"); am.build(m); am.mesh.clearMeshFunctions();
        int nf = s.range(0, 3); vector<Smooth> fs; vector<string> names; std::unique_ptr<EF::Vector<double>> own; vector<double> ownv;
        vector<Box> cells; for (auto& p : ref.paths()) for (auto& b : leafCells(pathBox(m.box, p), m.nx, m.ny)) cells.push_back(b);
        for (int k = 0; k < nf; k++) { Smooth f = genSmooth(s, m.box, 50); fs.push_back(f); names.push_back("f" + to_string(k)); am.mesh.addMeshFunction([f](double x, double y) { return f(x, y); }, names.back()); }
        if (s.chance(40)) { own.reset(new EF::Vector<double>(cells.size())); own->name() = "own"; for (size_t k = 0; k < cells.size(); k++) ownv.push_back((*own)[k] = double(k*7 % 101) - 50); am.mesh.addMeshFunction(*own); }
        int few[] = {0, 1, 9, 10, 99, 999, 1000, 9999, 10000}; int number = s.chance(40) ? -1 : s.chance(50) ? few[s.range(0, 8)] : s.range(0, 12000); string base = "mesh" + to_string(counter++); if (s.chance(20)) base += "-a.b"; c.desc << " functions " << am.mesh.mesh_functions.size() << " number " << number;
        // in memory
        size_t N = cells.size();
        if (am.mesh.npoints != int(4*N) || am.mesh.ncells != int(N) || am.mesh.getNumberOfPoints() != to_string(4*N) || am.mesh.getNumberOfCells() != to_string(N)) fail("counts", "mesh reports " + to_string(am.mesh.npoints) + " points and " + to_string(am.mesh.ncells) + " cells for " + to_string(N) + " leaf cells");
        if (am.mesh.points.size() != 12*N || am.mesh.connectivity.size() != 4*N || am.mesh.offsets.size() != N || am.mesh.types.size() != N) fail("array-sizes", "points/connectivity/offsets/types have " + to_string(am.mesh.points.size()) + "/" + to_string(am.mesh.connectivity.size()) + "/" + to_string(am.mesh.offsets.size()) + "/" + to_string(am.mesh.types.size()) + " entries for " + to_string(N) + " cells");
        char suf[32] = ""; if (number != -1) snprintf(suf, sizeof suf, "-%04i", number); string stem = base + "-mesh" + suf, qstem = base + "-quadtree" + suf;
        auto clean = [&] { for (string f : {stem + ".pvtu", stem + "_0000.vtu", qstem + ".pvtu", qstem + "_0000.vtu", qstem + ".visit"}) unlink(f.c_str()); }; clean();
        int writes = s.chance(25) ? 2 : 1; for (int w = 0; w < writes; w++) am.mesh.toVTK(base, number);
        if (own) names.push_back("own"); vector<string> src = checkMeshPvtu(stem + ".pvtu", 1, names);
        checkMeshVtu(src[0], cells, names, [&](size_t k, size_t q) { return k < fs.size() ? fs[k]((cells[q].xl + cells[q].xu)/2, (cells[q].yl + cells[q].yu)/2) : ownv[q]; });
        vector<Box> lb; for (auto& p : ref.paths()) lb.push_back(pathBox(m.box, p)); checkQuadtree(qstem, 1, 0, lb);
        clean(); am.mesh.clearMeshFunctions();
    }
}

int main(int argc, char** argv) {
    Session S(argc, argv);
    return rig::run(argc, argv, {
        {"refine", 120, refine, "leaves on more than one level"},
        {"tree", 160, tree, "more than four leaves"},
        {"vtk", 160, vtk, "more than one leaf"},
    });
}
