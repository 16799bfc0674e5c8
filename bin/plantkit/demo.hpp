// Helpers of the demonstrations: run the solver on a mesh, report what fails.
#pragma once
#include <mpi.h>
#include <cmath>
#include <cstdio>
#include <fstream>
#include <functional>
#include <iostream>
#include <map>
#include <memory>
#include <sstream>
#include <string>
#include <vector>
#include <EllipticForest.hpp>
#include <Patches/FiniteVolume/FiniteVolume.hpp>
#include <HPSAlgorithm.hpp>
#include <Mesh.hpp>
namespace EF = EllipticForest;
using std::string; using std::vector;
using Grid = EF::FiniteVolumeGrid; using Patch = EF::FiniteVolumePatch; using Node = EF::Node<Patch>; using Solver = EF::FiniteVolumeSolver;
using HPS = EF::HPSAlgorithm<Grid, Solver, Patch, double>;
using Fn = std::function<double(double, double)>;
static int failures = 0;
static void expect(bool ok, const string& what) { if (!ok) { failures++; fprintf(stderr, "FAILED: %s\n", what.c_str()); } }
struct App { std::unique_ptr<EF::EllipticForestApp> a; int argc = 1; char name[5] = "demo"; char* av[2] = {name, nullptr}; char** argv = av; std::ofstream null; std::streambuf* saved;
    App() { null.open("/dev/null"); saved = std::cout.rdbuf(null.rdbuf()); FILE* f = freopen("/dev/null", "w", stdout); (void) f; a.reset(new EF::EllipticForestApp(&argc, &argv)); options(false, false); }
    void options(bool cache, bool hom) { a->options.setOption("cache-operators", cache); a->options.setOption("homogeneous-rhs", hom); }
    ~App() { a.reset(); std::cout.rdbuf(saved); } };
struct Problem { double xl = 0, xu = 1, yl = 0, yu = 1; int nx = 4, lmin = 0, lmax = 0; std::function<bool(double, double)> refine = [](double, double) { return false; };
    Fn alpha = [](double, double) { return 1.0; }, beta = [](double, double) { return 1.0; }, lambda = [](double, double) { return 0.0; }, f = [](double, double) { return 0.0; };
    std::function<double(int, double, double, double*, double*)> bc = [](int, double, double, double* a, double* b) { *a = 1; *b = 0; return 0.0; }; bool fishpack = false; };
struct Run { Problem p; std::unique_ptr<Patch> root; std::unique_ptr<EF::FiniteVolumeNodeFactory> factory; EF::Mesh<Patch> mesh; Solver solver; std::unique_ptr<HPS> hps;
    Run(const Problem& q) : p(q) { Grid g(MPI_COMM_WORLD, p.nx, p.xl, p.xu, p.nx, p.yl, p.yu); root.reset(new Patch(MPI_COMM_WORLD, g)); factory.reset(new EF::FiniteVolumeNodeFactory(MPI_COMM_WORLD));
        mesh.refineByFunction(p.refine, 1.0, p.lmin, p.lmax, *root, *factory); solver.solver_type = p.fishpack ? EF::FiniteVolumeSolverType::FISHPACK90 : EF::FiniteVolumeSolverType::FivePointStencil;
        solver.alpha_function = p.alpha; solver.beta_function = p.beta; solver.lambda_function = p.lambda; solver.rhs_function = p.f; hps.reset(new HPS(MPI_COMM_WORLD, mesh, solver)); }
    std::map<string, vector<double>> solve() { hps->setupStage(); hps->buildStage(); hps->upwardsStage(p.f); hps->solveStage(p.bc); return values(); }
    std::map<string, vector<double>> values() { std::map<string, vector<double>> m; for (auto& [k, n] : mesh.quadtree.map) if (n && n->leaf) { vector<double> v; for (size_t i = 0; i < n->data.vectorU().size(); i++) v.push_back(n->data.vectorU()[i]); m[k] = v; } return m; }
    // largest difference of the cell values from u(x, y)
    double error(Fn u) { double e = 0; for (auto& [k, n] : mesh.quadtree.map) if (n && n->leaf) { auto& g = n->data.grid(); int m = int(g.nx()); for (int i = 0; i < m; i++) for (int j = 0; j < m; j++) { double d = std::fabs(n->data.vectorU()[j + i*m] - u(g(0, i), g(1, j))); if (!(d <= e)) e = std::isnan(d) ? INFINITY : d; } } return e; } };
static double difference(const std::map<string, vector<double>>& a, const std::map<string, vector<double>>& b) { if (a.size() != b.size()) return INFINITY; double e = 0; for (auto& [k, v] : a) { auto i = b.find(k); if (i == b.end() || i->second.size() != v.size()) return INFINITY; for (size_t q = 0; q < v.size(); q++) { double d = std::fabs(v[q] - i->second[q]); if (!(d <= e)) e = std::isnan(d) ? INFINITY : d; } } return e; }
template<class F> static bool throws(F f) { try { f(); } catch (const std::exception&) { return true; } return false; }
