// C26: repeated stages on an existing mesh keep the number of PETSc objects, communicators and heap bytes bounded.
#include "problem.hpp"
#include "mesh_ref.hpp"

#include <dlfcn.h>
#include <malloc.h>
#include <unistd.h>

using namespace vf;
using rig::Ctx; using rig::Src;
using std::string; using std::to_string; using std::vector;

static int rk = 0, np = 1; static MPI_Comm own = MPI_COMM_NULL;
static long comms = 0, objects = 0;
// Communicators created and freed through MPI by this program and the libraries it loads.
extern "C" {
int MPI_Comm_dup(MPI_Comm c, MPI_Comm* n) { int e = PMPI_Comm_dup(c, n); if (!e && *n != MPI_COMM_NULL) comms++; return e; }
int MPI_Comm_create_group(MPI_Comm c, MPI_Group g, int t, MPI_Comm* n) { int e = PMPI_Comm_create_group(c, g, t, n); if (!e && *n != MPI_COMM_NULL) comms++; return e; }
int MPI_Comm_create(MPI_Comm c, MPI_Group g, MPI_Comm* n) { int e = PMPI_Comm_create(c, g, n); if (!e && *n != MPI_COMM_NULL) comms++; return e; }
int MPI_Comm_split(MPI_Comm c, int k, int o, MPI_Comm* n) { int e = PMPI_Comm_split(c, k, o, n); if (!e && *n != MPI_COMM_NULL) comms++; return e; }
int MPI_Comm_split_type(MPI_Comm c, int t, int k, MPI_Info i, MPI_Comm* n) { int e = PMPI_Comm_split_type(c, t, k, i, n); if (!e && *n != MPI_COMM_NULL) comms++; return e; }
int MPI_Comm_free(MPI_Comm* c) { int e = PMPI_Comm_free(c); if (!e) comms--; return e; }
}
// Bytes held through operator new (the libraries below keep their own pools through malloc).
static long live = 0;
#if !defined(__SANITIZE_ADDRESS__)
static void* take(std::size_t n) { char* p = (char*) malloc(n + 16); if (!p) throw std::bad_alloc(); *(std::size_t*) p = n; live += long(n) + 16; return p + 16; }
static void give(void* q) { if (!q) return; char* p = (char*) q - 16; live -= long(*(std::size_t*) p) + 16; free(p); }
void* operator new(std::size_t n) { return take(n); }
void* operator new[](std::size_t n) { return take(n); }
void operator delete(void* p) noexcept { give(p); }
void operator delete[](void* p) noexcept { give(p); }
void operator delete(void* p, std::size_t) noexcept { give(p); }
void operator delete[](void* p, std::size_t) noexcept { give(p); }
#endif
static PetscErrorCode objCreated(PetscObject) { objects++; return PETSC_SUCCESS; }
static PetscErrorCode objDestroyed(PetscObject) { objects--; return PETSC_SUCCESS; }
static bool allTrue(bool x) { int a = x, b; MPI_Allreduce(&a, &b, 1, MPI_INT, MPI_MIN, own); return b; }
static long heap() { return live; }

struct Round { vector<int> ops; };
static void growth(Src& s, Ctx& c) {
    mref::Spec m = mref::genSpec(s, 3); m.nx = m.ny = s.range(2, 4); { mref::Ref r(m); if (int(r.leaves.size()) < np) { m.lmin = 1; m.lmax = std::max(m.lmax, 1); } mref::Ref r2(m); if (r2.leaves.size() > 40) m.lmin = m.lmax = 1; }
    mref::Ref ref(m); bool cache = s.chance(30), hom = s.chance(20), fish = false; Bc bc = genBc(s, m.box, 40); Pde p = genPde(s, m.box, bc.dirichlet()); MeshSpec ms; ms.nx = m.nx; ms.box = m.box; ms.lmin = m.lmin; ms.lmax = m.lmax; Problem q = makeProblem(ms, p, bc); auto pr = m.pred; q.refine = [pr](double x, double y) { return pr(x, y); };
    vector<int> ops; int k = s.range(1, 5); for (int i = 0; i < k; i++) ops.push_back(s.range(0, 10)); int rounds = 9; string names[] = {"build", "upwards", "upwards(f)", "solve(bc)", "solve(0)", "setup", "traverse", "merge/split", "vtk", "clear+add function", "rebuild"};
    c.desc << m.str() << " -> " << ref.leaves.size() << " leaves, cache " << cache << ", repeated:"; for (int o : ops) c.desc << " " << names[o]; c.nontrivial = ref.leaves.size() > 1; for (int o : ops) c.tag(names[o]);
    auto& app = EF::EllipticForestApp::getInstance(); app.options.setOption("cache-operators", cache); app.options.setOption("homogeneous-rhs", hom); string dir = getenv("VERIF_SCRATCH") ? getenv("VERIF_SCRATCH") : "."; string base = dir + "/grow";
    PetscLogPHC = objCreated; PetscLogPHD = objDestroyed;
    {
        FnMesh om; om.build(q); Solver sv; setSolver(sv, q, fish); HPS h(MPI_COMM_WORLD, om.mesh, sv); h.setupStage(); h.buildStage(); h.upwardsStage(q.f); h.solveStage(wrap(q.bc)); om.mesh.clearMeshFunctions(); om.mesh.addMeshFunction([](double x, double y) { return x + y; }, "f");
        vector<long> H, C, O;
        for (int r = 0; r < rounds; r++) {
            for (int o : ops) switch (o) {
                case 0: h.buildStage(); break; case 1: h.upwardsStage([&](Patch& t) { auto& g = t.grid(); int n = int(g.nx()); t.vectorF() = EF::Vector<double>(n*n); for (int a = 0; a < n; a++) for (int b = 0; b < n; b++) t.vectorF()[a*n + b] = q.f(g(0, a), g(1, b)); }); break; case 2: h.upwardsStage(q.f); break; case 3: h.solveStage(wrap(q.bc)); break;
                case 4: h.solveStage([&](Patch& t) { t.vectorG() = EF::Vector<double>(4*t.size(), 0.0); }); break; case 5: h.setupStage(); break; case 6: { int z = 0; om.mesh.iteratePatches([&](Patch&) { z++; }); om.mesh.quadtree.traversePreOrder([&](Node*) { z++; return 1; }); om.mesh.quadtree.traversePostOrder([&](Patch&) { z++; }); break; }
                case 7: { int z = 0; om.mesh.quadtree.merge([&](Node*) { z++; return 1; }, [&](Node*, vector<Node*>) { return 1; }); om.mesh.quadtree.split([&](Node*) { z++; return 1; }, [&](Node*, vector<Node*>) { return 1; }); break; }
                case 8: om.mesh.toVTK(base, 0); break;
                case 10: om.build(q); h.buildStage(); h.upwardsStage(q.f); h.solveStage(wrap(q.bc)); break;
                default: om.mesh.clearMeshFunctions(); om.mesh.addMeshFunction([](double x, double y) { return x*y; }, "f"); om.mesh.addMeshFunction([](double x, double y) { return x - y; }, "g"); }
            MPI_Barrier(own); H.push_back(heap()); C.push_back(comms); O.push_back(objects);
        }
        auto rising = [&](const vector<long>& v) { for (int r = 3; r < rounds; r++) if (v[r] < v[r - 1] + 1) return false; return true; };
        auto show = [](const vector<long>& v) { string t; for (long x : v) t += to_string(x - v[0]) + " "; return t; };
        if (rising(O)) c.check(false, "objects", "live PETSc objects grow with every round: " + show(O)); if (rising(C)) c.check(false, "communicators", "live communicators grow with every round: " + show(C)); 
        if (rising(H)) c.check(false, "heap", "heap bytes in use grow with every round: " + show(H));
        
    }
    (void) allTrue(true); app.options.setOption("cache-operators", false); app.options.setOption("homogeneous-rhs", false);
}

int main(int argc, char** argv) {
    Session S(argc, argv); MPI_Comm_set_errhandler(MPI_COMM_WORLD, MPI_ERRORS_ARE_FATAL); MPI_Comm_dup(MPI_COMM_WORLD, &own); MPI_Comm_rank(own, &rk); MPI_Comm_size(own, &np);
    int r = rig::run(argc, argv, {{"growth", 200, growth, "more than one leaf"}});
    MPI_Comm_free(&own); return r;
}
