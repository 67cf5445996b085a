// Runs scripts of HPS stages (mesh, coefficients, options, build, upwards, solve) and logs what the leaves and branches hold.
// drv_hps <script> <log prefix> <k> <l>: values in units of 2^k, lengths in units of 2^l (the second-order and Robin coefficients follow); every process writes <log prefix>.<rank> and <log prefix>.mpi.<rank>
// Positions are given to and computed by the script's functions in half-widths of the finest cells, counted from the lower-left corner.
#include "io.hpp"
#include "team.hpp"
#include "pmpi.hpp"
#include "EllipticForest.hpp"
#include "Patches/FiniteVolume/FiniteVolume.hpp"
#include <p4est_algorithms.h>
#include <fstream>
#include <memory>
#include <set>
#include <cmath>
using namespace EllipticForest;
using HPS = HPSAlgorithm<FiniteVolumeGrid, FiniteVolumeSolver, FiniteVolumePatch, double>;

static std::ofstream lg;
static Ints digits(const std::string& path) { Ints r; for (size_t i = 1; i < path.size(); i++) r.push_back(path[i] - '0'); if (path.empty() || path[0] != '0') r.insert(r.begin(), 9); return r; }
static std::string pathOf(const Ints& d) { std::string s = "0"; for (auto x : d) s += std::to_string(x); return s; }

// kind, c, p, q, s, m: 0 constant c; 1 c + pX + qY; 2 c + (pX + qY + sXY mod m)
struct Fn { Ints k{0, 0, 0, 0, 0, 1};
    double operator()(long X, long Y) const {
        if (k[0] == 0) return k[1];
        if (k[0] == 1) return k[1] + k[2] * X + k[3] * Y;
        return k[1] + ((k[2] * X + k[3] * Y + k[4] * X * Y) % k[5]);
    } };

static double unit = 1, len = 1;       // powers of two, so the exact problem is the same one
struct Problem {
    long nx, lev; double hx, hy, x0, y0;
    p4est_t* forest = nullptr;
    std::unique_ptr<FiniteVolumePatch> root;
    std::unique_ptr<FiniteVolumeNodeFactory> factory;
    std::unique_ptr<Mesh<FiniteVolumePatch>> mesh;
    FiniteVolumeSolver solver;
    std::unique_ptr<HPS> hps;
    Fn alpha, beta, lambda;
    bool off = false;
    long at(double x, double lo, double h) { double v = (x - lo) / h * 2; long r = lround(v); if (fabs(v - r) > 1e-6) off = true; return r; }
    double eval(const Fn& f, double x, double y) { return f(at(x, x0, hx), at(y, y0, hy)); }
};

static std::set<std::string> branchSet;
static int refineFn(p4est_t*, p4est_topidx_t, p4est_quadrant_t* q) { return branchSet.count(p4est::p4est_quadrant_path(q)) ? 1 : 0; }
static p4est_t* makeForest(const Lists& L, int ranks, double x0, double x1, double y0, double y1) {
    branchSet.clear();
    for (size_t i = 1; i < L.size(); i++) branchSet.insert(pathOf(L[i]));
    auto* conn = p4est::p4est_connectivity_new_square_domain(x0, x1, y0, y1);
    p4est_t* f = p4est_new_ext(TEAM, conn, 0, 0, true, 0, NULL, NULL);
    p4est_refine(f, 1, refineFn, NULL);
    p4est_partition(f, 0, NULL);
    if (!L[0].empty()) {
        std::vector<p4est_locidx_t> n;
        for (int i = 0; i < ranks; i++) n.push_back(L[0][i]);
        p4est_partition_given(f, n.data());
    }
    return f;
}

static p4est_t* uniform(int level, double x0, double x1, double y0, double y1) { return p4est_new_ext(TEAM, p4est::p4est_connectivity_new_square_domain(x0, x1, y0, y1), 0, level, true, 0, NULL, NULL); }
template<class V> static std::string fixed(V&& v, double S) {
    std::string s = "[";
    for (size_t i = 0; i < v.size(); i++) { s += (i ? "," : ""); double x = v[i] * S; s += std::isfinite(x) && fabs(x) < 2e9 ? std::to_string(lround(x)) : "2000000000"; }
    return s + "]";
}
static double scaleFor(double mx, double lim) {
    double all; PMPI_Allreduce(&mx, &all, 1, MPI_DOUBLE, MPI_MAX, TEAM);
    if (!std::isfinite(all)) return 1;
    double S = 1; while (all * S * 10 <= lim && S < 1e6) S *= 10;
    return S;
}
static double maxAbs(Vector<double>& v) { double m = 0; for (size_t i = 0; i < v.size(); i++) { if (!std::isfinite(v[i])) return INFINITY; m = std::max(m, fabs(v[i])); } return m; }
static std::vector<double> flat(Matrix<double>& A) { std::vector<double> r; for (size_t i = 0; i < A.nrows(); i++) for (size_t j = 0; j < A.ncols(); j++) r.push_back(A(i, j)); return r; }

int main(int argc, char** argv) {
    static int ac = 1; static char* av[2] = {argv[0], nullptr}; char** avp = av;
    std::cout.setstate(std::ios::failbit); freopen("/dev/null", "w", stdout);
    auto* app = new EllipticForestApp(&ac, &avp);
    team::join(); int rank = team::rank, ranks = team::ranks;
    sc_set_log_defaults(NULL, NULL, SC_LP_SILENT);
    bool no = false;
    app->options.setOption("cache-operators", no); app->options.setOption("homogeneous-rhs", no);
    lg.open(std::string(argv[2]) + team::suffix + "." + std::to_string(rank));
    unit = std::ldexp(1.0, std::atoi(argv[3])); len = std::ldexp(1.0, std::atoi(argv[4]));
    std::ifstream in(std::string(argv[1]) + team::suffix);
    std::vector<std::unique_ptr<Problem>> problems(8);
    Call c;
    auto leavesOf = [&](Problem& p, std::function<void(Node<FiniteVolumePatch>*)> fn) {
        p.mesh->quadtree.traversePreOrder(std::function<int(Node<FiniteVolumePatch>*)>([&](Node<FiniteVolumePatch>* n) { if (n->leaf) fn(n); return 1; }));
    };
    while (readCall(in, c)) {
        auto& a = c.a; auto& L = c.L;
        lg << "{\"ev\":\"call\",\"op\":" << js(c.op) << ",\"a\":" << js(a) << ",\"L\":" << js(L) << "}\n"; lg.flush();
        std::string err;
        rec::on = c.op == "build" || c.op == "up" || c.op == "solve" || c.op == "mesh" || c.op == "refine";
        try {
        if (c.op == "mesh" || c.op == "refine") {     // mesh: id nx x0 y0 hx hy lev | counts, branches    refine: id nx x0 y0 hx hy lev min max | hot cells (finest cell x, y)
            if (c.op == "mesh") { problems[a[0]] = std::make_unique<Problem>(); }
            else if (!problems[a[0]]) problems[a[0]] = std::make_unique<Problem>();
            auto& p = *problems[a[0]];
            p.nx = a[1]; p.x0 = a[2] * len; p.y0 = a[3] * len; p.hx = a[4] * len; p.hy = a[5] * len; p.lev = a[6];
            double x1 = p.x0 + p.nx * p.hx * (1 << p.lev), y1 = p.y0 + p.nx * p.hy * (1 << p.lev);
            FiniteVolumeGrid grid(TEAM, p.nx, p.x0, x1, p.nx, p.y0, y1);
            p.root = std::make_unique<FiniteVolumePatch>(TEAM, grid);
            if (!p.factory) p.factory = std::make_unique<FiniteVolumeNodeFactory>(TEAM);
            if (c.op == "mesh") {
                p.forest = makeForest(L, ranks, p.x0, x1, p.y0, y1);
                p.mesh = std::make_unique<Mesh<FiniteVolumePatch>>(TEAM, p.forest, *p.root, *p.factory);
            } else {
                if (!p.mesh && team::suffix.empty()) p.mesh = std::make_unique<Mesh<FiniteVolumePatch>>();
                if (!p.mesh) p.mesh = std::make_unique<Mesh<FiniteVolumePatch>>(TEAM, uniform(2, p.x0, x1, p.y0, y1), *p.root, *p.factory);   // a default mesh is on all processes
                std::set<std::pair<long, long>> hot; for (auto& h : L) hot.insert({h[0], h[1]});
                p.mesh->refineByFunction([&](double x, double y) {
                    return hot.count({(long) floor((x - p.x0) / p.hx), (long) floor((y - p.y0) / p.hy)}) > 0;
                }, 0.5, (int) a[7], (int) a[8], *p.root, *p.factory);
            }
            if (!p.hps) p.hps = std::make_unique<HPS>(TEAM, *p.mesh, p.solver);
            p.alpha.k[1] = p.beta.k[1] = 1; 
            auto* pp = &p;
            p.solver.alpha_function = [pp](double x, double y) { return pp->eval(pp->alpha, x, y); };
            p.solver.beta_function = [pp](double x, double y) { return pp->eval(pp->beta, x, y) * len * len; };
            p.solver.lambda_function = [pp](double x, double y) { if (pp->solver.solver_type == FiniteVolumeSolverType::FISHPACK90) return pp->lambda(0, 0); return pp->eval(pp->lambda, x, y); };
            Lists own; leavesOf(p, [&](Node<FiniteVolumePatch>* n) { own.push_back(digits(n->path)); });
            lg << "{\"ev\":\"own\",\"leaves\":" << js(own) << "}\n";
        }
        else if (c.op == "coef") { auto& p = *problems[a[0]]; (a[1] == 0 ? p.alpha : a[1] == 1 ? p.beta : p.lambda).k = L[0]; }
        else if (c.op == "type") problems[a[0]]->solver.solver_type = a[1] ? FiniteVolumeSolverType::FISHPACK90 : FiniteVolumeSolverType::FivePointStencil;
        else if (c.op == "opt") { bool v = a[1]; app->options.setOption(a[0] ? "homogeneous-rhs" : "cache-operators", v); }
        else if (c.op == "setup") problems[a[0]]->hps->setupStage();
        else if (c.op == "build") problems[a[0]]->hps->buildStage();
        else if (c.op == "up") {              // id mode | fn
            auto& p = *problems[a[0]]; Fn f{L[0]};
            if (a[1] == 0) p.hps->upwardsStage([&](double x, double y) { return p.eval(f, x, y) * unit; });
            else p.hps->upwardsStage([&](FiniteVolumePatch& patch) {
                auto& g = patch.grid();
                patch.vectorF() = Vector<double>(g.nx() * g.ny());
                for (size_t i = 0; i < g.nx(); i++) for (size_t j = 0; j < g.ny(); j++) patch.vectorF()[i * g.ny() + j] = p.eval(f, g(0, i), g(1, j)) * unit;
            });
        }
        else if (c.op == "solve") {           // id mode | mode 0: g per side; mode 1: a per side, b per side, r per side
            auto& p = *problems[a[0]];
            if (a[1] == 1) p.hps->solveStage([&](int side, double x, double y, double* pa, double* pb) {
                if (side < 0 || side > 3) { p.off = true; *pa = 1; *pb = 0; return 0.0; }
                *pa = p.eval(Fn{L[side]}, x, y); *pb = p.eval(Fn{L[4 + side]}, x, y) * len;
                return p.eval(Fn{L[8 + side]}, x, y) * unit;
            });
            else p.hps->solveStage([&](FiniteVolumePatch& root) {
                auto& g = root.grid(); long n = g.nx();
                Vector<double> v(4 * n);
                for (long i = 0; i < n; i++) {
                    v[i] = p.eval(Fn{L[0]}, g.xLower(), g(1, i)); v[n + i] = p.eval(Fn{L[1]}, g.xUpper(), g(1, i));
                    v[2 * n + i] = p.eval(Fn{L[2]}, g(0, i), g.yLower()); v[3 * n + i] = p.eval(Fn{L[3]}, g(0, i), g.yUpper());
                }
                for (long i = 0; i < 4 * n; i++) v[i] *= unit;
                root.vectorG() = v;
            });
            rec::on = false;
            double m = 0;
            leavesOf(p, [&](Node<FiniteVolumePatch>* n) { m = std::max({m, maxAbs(n->data.vectorU()), maxAbs(n->data.vectorG())}); });
            m /= unit; double S = scaleFor(m, 2e6);
            lg << "{\"ev\":\"sol\",\"S\":" << (long) S << ",\"off\":" << (p.off ? 1 : 0) << ",\"leaves\":[";
            bool first = true;
            leavesOf(p, [&](Node<FiniteVolumePatch>* n) {
                lg << (first ? "" : ",") << "{\"p\":" << js(digits(n->path)) << ",\"u\":" << fixed(n->data.vectorU(), S / unit) << ",\"g\":" << fixed(n->data.vectorG(), S / unit) << ",\"f\":" << fixed(n->data.vectorF(), 1000 / unit) << "}";
                first = false;
            });
            lg << "]}\n";
        }
        else if (c.op == "ops") {             // operators and particular data of every node held
            auto& p = *problems[a[0]];
            double m = 0;
            for (auto& [k, n] : p.mesh->quadtree.map) if (n) {
                auto& d = n->data;
                for (double x : flat(d.matrixT())) m = std::isfinite(x) ? std::max(m, fabs(x) * len) : INFINITY;
                for (double x : flat(d.matrixS())) m = std::isfinite(x) ? std::max(m, fabs(x)) : INFINITY;
                if (a[1]) m = std::max({m, maxAbs(d.vectorH()) * len / unit, maxAbs(d.vectorW()) / unit});
            }
            double S = scaleFor(m, 1e7);
            lg << "{\"ev\":\"ops\",\"S\":" << (long) S << ",\"nodes\":[";
            bool first = true;
            for (auto& [k, n] : p.mesh->quadtree.map) if (n) {
                auto& d = n->data;
                // solution data of a branch is in terms of its traces; the leaf flag tells which
                lg << (first ? "" : ",") << "{\"p\":" << js(digits(k)) << ",\"T\":" << fixed(flat(d.matrixT()), S * len) << ",\"S\":" << (n->leaf ? "[]" : fixed(flat(d.matrixS()), S))
                   << ",\"h\":" << (a[1] ? fixed(d.vectorH(), S * len / unit) : "[]") << ",\"w\":" << (a[1] && !n->leaf ? fixed(d.vectorW(), S / unit) : "[]") << "}";
                first = false;
            }
            lg << "]}\n";
        }
        else { std::cerr << "unknown op " << c.op << std::endl; MPI_Abort(MPI_COMM_WORLD, 3); }
        } catch (const std::exception& e) { err = e.what(); }
        rec::on = false;
        if (!err.empty()) {
            lg << "{\"ev\":\"threw\",\"what\":" << js(err.substr(0, 200)) << "}\n"; lg.flush();
            if (ranks > 1) MPI_Abort(MPI_COMM_WORLD, 5);
        }
        lg << "{\"ev\":\"end\"}\n"; lg.flush();
    }
    std::ofstream mp(std::string(argv[2]) + ".mpi." + std::to_string(team::world));
    for (auto& e : rec::events) mp << e << "\n";
    mp.close();
    lg << "{\"ev\":\"done\"}\n"; lg.flush(); lg.close();
    MPI_Finalize();
    fflush(stdout);
    _Exit(0);
}
