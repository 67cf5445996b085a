// Helpers of the demonstrations: a forest from branch paths, and a DEMO line for a broken expectation.
#pragma once
#include "EllipticForest.hpp"
#include <p4est_algorithms.h>
#include "Patches/FiniteVolume/FiniteVolume.hpp"
#include <cmath>
#include <fstream>
#include <memory>
#include <set>
#include <sstream>
using namespace EllipticForest;
using HPS = HPSAlgorithm<FiniteVolumeGrid, FiniteVolumeSolver, FiniteVolumePatch, double>;

static int failures = 0;
#define EXPECT(c) do { if (!(c)) { failures++; fprintf(stderr, "\nDEMO broken: %s (line %d)\n", #c, __LINE__); } } while (0)

static EllipticForestApp* start(int argc, char** argv) {
    static int ac = 1; static char* av[2] = {argv[0], nullptr}; static char** avp = av;
    auto* app = new EllipticForestApp(&ac, &avp);
    sc_set_log_defaults(NULL, NULL, SC_LP_SILENT);
    bool no = false;
    app->options.setOption("cache-operators", no); app->options.setOption("homogeneous-rhs", no);
    return app;
}
static int finish() {
    int all = 0; MPI_Allreduce(&failures, &all, 1, MPI_INT, MPI_SUM, MPI_COMM_WORLD);
    MPI_Finalize(); fflush(stdout); fflush(stderr);
    _Exit(all ? 1 : 0);
}
static std::set<std::string> branches_;
static int refine_(p4est_t*, p4est_topidx_t, p4est_quadrant_t* q) { return branches_.count(p4est::p4est_quadrant_path(q)) ? 1 : 0; }
// counts: leaves per process (empty: even)
static p4est_t* forest(std::set<std::string> branches, double x0, double x1, double y0, double y1, std::vector<p4est_locidx_t> counts = {}) {
    branches_ = branches;
    p4est_t* f = p4est_new_ext(MPI_COMM_WORLD, p4est::p4est_connectivity_new_square_domain(x0, x1, y0, y1), 0, 0, true, 0, NULL, NULL);
    p4est_refine(f, 1, refine_, NULL);
    p4est_partition(f, 0, NULL);
    if (!counts.empty()) p4est_partition_given(f, counts.data());
    return f;
}
struct Setup {                 // a mesh with a solver and the algorithm on it
    FiniteVolumeGrid grid; FiniteVolumePatch root; FiniteVolumeNodeFactory factory; Mesh<FiniteVolumePatch> mesh; FiniteVolumeSolver solver; HPS hps;
    Setup(p4est_t* f, int nx, double x0, double x1, double y0, double y1) :
        grid(MPI_COMM_WORLD, nx, x0, x1, nx, y0, y1), root(MPI_COMM_WORLD, grid), factory(MPI_COMM_WORLD), mesh(MPI_COMM_WORLD, f, root, factory), hps(MPI_COMM_WORLD, mesh, solver) {
        solver.solver_type = FiniteVolumeSolverType::FivePointStencil;
        hps.patch_solver.alpha_function = solver.alpha_function = [](double, double) { return 1.0; };
        hps.patch_solver.beta_function = solver.beta_function = [](double, double) { return 1.0; };
        hps.patch_solver.lambda_function = solver.lambda_function = [](double, double) { return 0.0; };
        hps.patch_solver.solver_type = FiniteVolumeSolverType::FivePointStencil;
    }
    void leaves(std::function<void(Node<FiniteVolumePatch>*)> fn) {
        mesh.quadtree.traversePreOrder(std::function<int(Node<FiniteVolumePatch>*)>([&](Node<FiniteVolumePatch>* n) { if (n->leaf) fn(n); return 1; }));
    }
    // largest deviation of the solution from u at the cell centres, over all processes
    double error(std::function<double(double, double)> u) {
        double m = 0;
        leaves([&](Node<FiniteVolumePatch>* n) {
            auto& g = n->data.grid(); auto& v = n->data.vectorU();
            for (size_t i = 0; i < g.nx(); i++) for (size_t j = 0; j < g.ny(); j++) { double e = fabs(v[j + i * g.ny()] - u(g(0, i), g(1, j))); m = e > m || std::isnan(e) ? e : m; }
        });
        double all; MPI_Allreduce(&m, &all, 1, MPI_DOUBLE, MPI_MAX, MPI_COMM_WORLD); return all;
    }
};
