// Does the same work again and again and records what the process holds after each round: drv_keep <script> <log> <directory>
// Script: calls that prepare, a line "loop 1 <rounds> 0", and the calls of a round.  Every process writes {"bytes", "comms", "files"} per round to <log>.<rank>.
#include "io.hpp"
#include "EllipticForest.hpp"
#include "Patches/FiniteVolume/FiniteVolume.hpp"
#include <p4est_algorithms.h>
#include <dirent.h>
#include <fstream>
#include <malloc.h>
#include <memory>
#include <set>
using namespace EllipticForest;
namespace EF = EllipticForest::MPI;
using HPS = HPSAlgorithm<FiniteVolumeGrid, FiniteVolumeSolver, FiniteVolumePatch, double>;

// ---- communicators in existence, counted through the profiling interface
static long comms = 0;
static int born(int r, MPI_Comm* c) { if (r == MPI_SUCCESS && c && *c != MPI_COMM_NULL) comms++; return r; }
extern "C" {
int MPI_Comm_dup(MPI_Comm c, MPI_Comm* n) { return born(PMPI_Comm_dup(c, n), n); }
int MPI_Comm_create(MPI_Comm c, MPI_Group g, MPI_Comm* n) { return born(PMPI_Comm_create(c, g, n), n); }
int MPI_Comm_create_group(MPI_Comm c, MPI_Group g, int t, MPI_Comm* n) { return born(PMPI_Comm_create_group(c, g, t, n), n); }
int MPI_Comm_split(MPI_Comm c, int k, int o, MPI_Comm* n) { return born(PMPI_Comm_split(c, k, o, n), n); }
int MPI_Comm_split_type(MPI_Comm c, int k, int o, MPI_Info i, MPI_Comm* n) { return born(PMPI_Comm_split_type(c, k, o, i, n), n); }
int MPI_Comm_free(MPI_Comm* c) { int r = PMPI_Comm_free(c); if (r == MPI_SUCCESS) comms--; return r; }
}
static long files() { long n = 0; DIR* d = opendir("/proc/self/fd"); if (!d) return -1; while (readdir(d)) n++; closedir(d); return n; }
static long bytes() { struct mallinfo2 m = mallinfo2(); return (long) (m.uordblks + m.hblkhd); }

static Vector<double> linspace(double b, int n) { Vector<double> v(n); for (int k = 0; k < n; k++) v[k] = b * k / n; return v; }
static int rank, ranks;
static int shape(p4est_t*, p4est_topidx_t, p4est_quadrant_t* q) { return q->level == 0 || (q->level < 3 && p4est_quadrant_child_id(q) == 1); }
static p4est_t* forest(int kind, long counts, const Ints& n) {      // kind: 0 a single patch, 1 four, 2 sixteen, 3 graded
    auto* conn = p4est::p4est_connectivity_new_square_domain(0, 4, 0, 4);
    p4est_t* f = p4est_new_ext(MPI_COMM_WORLD, conn, 0, kind < 3 ? kind : 0, true, 0, NULL, NULL);
    if (kind == 3) { p4est_refine(f, 1, shape, NULL); p4est_partition(f, 0, NULL); }
    if (!n.empty()) { std::vector<p4est_locidx_t> v(n.begin(), n.end()); p4est_partition_given(f, v.data()); }
    return f;
}
struct Item {
    std::unique_ptr<FiniteVolumePatch> root; std::unique_ptr<FiniteVolumeNodeFactory> factory; std::unique_ptr<Mesh<FiniteVolumePatch>> mesh;
    FiniteVolumeSolver solver; std::unique_ptr<HPS> hps; Vector<double> own;
};
template<class T> static void pass(T x, T y, int tag) {       // around the ring, then from process 0 to all
    if (ranks == 1) { EF::broadcast(x, 0, MPI_COMM_WORLD); return; }
    if (rank == 0) { EF::send(x, 1, tag, MPI_COMM_WORLD); EF::receive(y, ranks - 1, tag, MPI_COMM_WORLD, MPI_STATUS_IGNORE); }
    else { EF::receive(y, rank - 1, tag, MPI_COMM_WORLD, MPI_STATUS_IGNORE); EF::send(y, (rank + 1) % ranks, tag, MPI_COMM_WORLD); }
    EF::broadcast(y, 0, MPI_COMM_WORLD);
}

int main(int argc, char** argv) {
    static int ac = 1; static char* av[2] = {argv[0], nullptr}; char** avp = av;
    std::cout.setstate(std::ios::failbit); freopen("/dev/null", "w", stdout);
    auto* app = new EllipticForestApp(&ac, &avp);
    MPI_Comm_rank(MPI_COMM_WORLD, &rank); MPI_Comm_size(MPI_COMM_WORLD, &ranks);
    sc_set_log_defaults(NULL, NULL, SC_LP_SILENT);
    bool no = false; app->options.setOption("cache-operators", no); app->options.setOption("homogeneous-rhs", no);
    std::vector<Call> before, round; long rounds = 0;
    { std::ifstream in(argv[1]); Call c; while (readCall(in, c)) { if (c.op == "loop") rounds = c.a[0]; else (rounds ? round : before).push_back(c); } }
    std::string dir = argv[3];
    std::vector<std::unique_ptr<Item>> items(4);
    std::map<std::string, double> sink; double sum = 0;
    auto one = [](double x, double y) { return 1 + x + y; };
    FiniteVolumeNodeFactory factory(MPI_COMM_WORLD);
    auto perform = [&](const Call& c) {
        auto& a = c.a; auto& L = c.L; const std::string& op = c.op;
        if (op == "mesh") {              // slot nx kind | counts
            items[a[0]] = std::make_unique<Item>(); auto& p = *items[a[0]];
            FiniteVolumeGrid grid(MPI_COMM_WORLD, a[1], 0, 4, a[1], 0, 4);
            p.root = std::make_unique<FiniteVolumePatch>(MPI_COMM_WORLD, grid); p.factory = std::make_unique<FiniteVolumeNodeFactory>(MPI_COMM_WORLD);
            p.mesh = std::make_unique<Mesh<FiniteVolumePatch>>(MPI_COMM_WORLD, forest(a[2], 0, L[0]), *p.root, *p.factory);
            p.hps = std::make_unique<HPS>(MPI_COMM_WORLD, *p.mesh, p.solver);
            p.solver.alpha_function = p.solver.beta_function = [](double, double) { return 1.0; }; p.solver.lambda_function = [](double, double) { return 0.0; };
            return;
        }
        if (op == "option") { bool v = a[1]; app->options.setOption(a[0] ? "homogeneous-rhs" : "cache-operators", v); return; }
        if (op == "opts") { bool v = a[0]; app->options.setOption("flag", v); app->options["text"] = "a text that is too long for small strings " + std::to_string(a[0]); app->options["x"] = 1.5 * a[0];
            Options o = app->options; std::ofstream(dir + "/o" + std::to_string(rank) + ".ini") << "[EllipticForest]\nn = 3\nname = something long enough to be on the heap\n"; o.setFromFile(dir + "/o" + std::to_string(rank) + ".ini"); app->options.setFromFile(dir + "/o" + std::to_string(rank) + ".ini"); return; }
        if (op == "timer") { app->addTimer("a timer with a long name for the heap"); auto& t = app->timers["a timer with a long name for the heap"]; t.start(); t.stop(); return; }
        if (op == "cache") { static DataCache<std::vector<long>> cache; for (int k = 0; k < 4; k++) cache["key " + std::to_string(k)] = std::vector<long>(100 * (k + 1), a[0]); sum += cache.contains("key 7"); return; }
        if (op == "xml") { XMLNode r("root"), s("a"), t("b"); r.addAttribute("k", "a value that is long enough to be on the heap"); r.addChild(s); r.addChild(t); s.data = std::string(1000, 'x'); XMLTree tree(r); tree.write(dir + "/x" + std::to_string(rank) + ".xml"); return; }
        if (op == "interp") { Vector<double> x = linspace(4.0, 40), y = x; LinearInterpolant f(x, y); for (int k = 0; k < 30; k++) sum += f((k * 7 % 30) / 8.0); Vector<double> z = x; sum += f(z)[3]; return; }
        if (op == "vec") { Vector<double> v = linspace(1.0, 200); Vector<double> w = v + 2.0 * v; w.append(v); w.setSegment(3, v); Vector<double> u = concatenate({v, w, v}); sum += u[5] + vectorInfNorm(v, v) + v.getSegment(3, 20)[1]; try { sum += v[200]; } catch (std::exception&) {} return; }
        if (op == "mat") { Matrix<double> A(20, 20); for (int i = 0; i < 20; i++) A(i, i) = i + 1; Matrix<double> AT = A.T(), B = A * A; B = B + AT; Vector<double> v(20); v[3] = 1; sum += solve(B, v)[3] + solve(A, B)(2, 2) + (A * v)[3]; Matrix<double> C = A.getBlock(2, 2, 4, 4); A.setBlock(1, 1, C); std::vector<Matrix<double>> D{A, B}; sum += blockDiagonalMatrix(D)(25, 25); try { sum += A(20, 0); } catch (std::exception&) {} return; }
        if (op == "leaf") {              // kind nx
            FiniteVolumeSolver s; s.solver_type = a[0] % 2 ? FiniteVolumeSolverType::FISHPACK90 : FiniteVolumeSolverType::FivePointStencil;
            s.alpha_function = s.beta_function = [](double, double) { return 1.0; }; s.lambda_function = [](double, double) { return 0.0; };
            long n = a[1]; FiniteVolumeGrid g(MPI_COMM_SELF, n, 0, 1, n, 0, 1); Vector<double> d(4 * n, 1.0), f(n * n, 2.0);
            sum += s.solve(g, d, f)[0] + s.mapD2N(g, d, f)[0] + s.particularNeumannData(g, f)[0] + s.buildD2N(g)(0, 0); return; }
        if (op == "pass") {              // kind size
            long n = a[1]; FiniteVolumeGrid g(MPI_COMM_WORLD, 4, 0, 1, 4, 0, 1); FiniteVolumePatch p(MPI_COMM_WORLD, g); p.vectorU() = Vector<double>(n, 1.0); p.matrixT() = Matrix<double>(3, n, 1.0);
            switch (a[0]) {
                case 0: pass(Vector<double>(n, 1.0), Vector<double>(), 3); break;
                case 1: pass(Matrix<double>(n, 3, 1.0), Matrix<double>(), 4); break;
                case 2: pass(std::string(n, 'x'), std::string(), 5); break;
                case 3: pass(std::vector<double>(n, 1.0), std::vector<double>(), 6); break;
                case 4: EF::broadcast(p, 0, MPI_COMM_WORLD); break;
                case 5: { Node<FiniteVolumePatch> x(MPI_COMM_WORLD, p, "0123", 3, 0, 0); EF::broadcast(x, 0, MPI_COMM_WORLD); break; }
                case 6: { std::vector<double> s(3, 1.0), r(3 * ranks); EF::allgather(s, r, 3, MPI_COMM_WORLD); EF::allreduce(s, r, MPI_SUM, MPI_COMM_WORLD); break; }
                default: { Node<Vector<double>> x(MPI_COMM_WORLD, Vector<double>(n, 1.0), "01", 1, 0, 0), y(MPI_COMM_WORLD); if (ranks > 1) { if (rank == 0) EF::send(x, 1, 8, MPI_COMM_WORLD); if (rank == 1) EF::receive(y, 0, 8, MPI_COMM_WORLD, MPI_STATUS_IGNORE); } }
            }
            return; }
        if (op == "group") { MPI_Comm c = MPI_COMM_NULL; EF::communicatorSubsetRange(MPI_COMM_WORLD, 0, a[0] % ranks, 7, &c); if (c != MPI_COMM_NULL) { sum += EF::communicatorGetName(c).size(); MPI_Comm_free(&c); } return; }
        if (op == "object") {            // distributed objects: kind size
            typedef ParallelVector<double> PV; typedef ParallelMatrix<double> PM; long n = a[1]; auto assemble = [](auto& m) { m.beginAssembly(MAT_FINAL_ASSEMBLY); m.endAssembly(MAT_FINAL_ASSEMBLY); }; Vector<double> sv(n, 1.0); Matrix<double> sm(n, n, 2.0);
            if (a[0] == 0) { PV v(MPI_COMM_WORLD, sv), w = v, u; u = w; v = PV(MPI_COMM_WORLD, PETSC_DECIDE, n); if (rank == 0) w.setValue(n / 2, 2.0, INSERT_VALUES); w.beginAssembly(); w.endAssembly(); u = std::move(w); }
            else if (a[0] == 1) { PM m(MPI_COMM_WORLD, sm, MATDENSE), k = m; PM z(MPI_COMM_WORLD, PETSC_DECIDE, PETSC_DECIDE, n, n, MATAIJ); if (rank == 0) z.setValue(n / 2, n - 1, 2.0, INSERT_VALUES); z.beginAssembly(MAT_FINAL_ASSEMBLY); z.endAssembly(MAT_FINAL_ASSEMBLY); k = std::move(z); }
            else if (a[0] == 2) { ParallelIdentityMatrix<double> i(MPI_COMM_WORLD, n, MATAIJ), j(MPI_COMM_WORLD, n); assemble(i); PV v(MPI_COMM_WORLD, sv), w(MPI_COMM_WORLD, PETSC_DECIDE, n); v.beginAssembly(); v.endAssembly(); MatMult(i.mat, v.vec, w.vec); }
            else { PM m(MPI_COMM_WORLD, sm, MATDENSE); assemble(m); int lo, hi; MatGetOwnershipRange(m.mat, &lo, &hi); IS is; ISCreateStride(MPI_COMM_WORLD, hi - lo, lo, 1, &is); { PM s(MPI_COMM_WORLD, m, is, is); } ISDestroy(&is);
                PM mine(MPI_COMM_SELF, sm, MATDENSE); assemble(mine); PM all(MPI_COMM_WORLD, mine); }
            return; }
        auto& p = *items[a[0]]; auto& m = *p.mesh; auto& t = m.quadtree;
        typedef std::vector<Node<FiniteVolumePatch>*> Nodes;
        if (op == "build") p.hps->buildStage();
        else if (op == "setup") p.hps->setupStage();
        else if (op == "up") { if (a[1]) p.hps->upwardsStage([](double x, double y) { return x - y; }); else p.hps->upwardsStage([](FiniteVolumePatch& q) { q.vectorF() = Vector<double>(q.grid().nx() * q.grid().ny(), 1.0); }); }
        else if (op == "solve") {
            if (a[1] == 0) p.hps->solveStage([](FiniteVolumePatch& r) { r.vectorG() = Vector<double>(4 * r.grid().nx(), 1.0); });
            else p.hps->solveStage([&](int s, double x, double, double* pa, double* pb) { *pa = 1; *pb = a[1] == 1 ? 0 : s % 2 ? 1 : -1; return x; });
        }
        else if (op == "walk") {         // slot kind
            auto fn = std::function<int(Node<FiniteVolumePatch>*)>([&](Node<FiniteVolumePatch>* n) { sum += n->level; return 1; });
            auto fd = std::function<void(FiniteVolumePatch&)>([&](FiniteVolumePatch& q) { sum += q.grid().nx(); });
            auto ff = std::function<int(Node<FiniteVolumePatch>*, Nodes)>([&](Node<FiniteVolumePatch>* n, Nodes c) { sum += c.size(); return 1; });
            switch (a[1]) { case 0: t.traversePreOrder(fn); break; case 1: t.traversePostOrder(fn); break; case 2: t.traversePreOrder(fd); break; case 3: t.traversePostOrder(fd); break;
                            case 4: t.merge(fn, ff); break; default: t.split(fn, ff); }
        }
        else if (op == "iterate") { m.iteratePatches([&](FiniteVolumePatch& q) { sum += q.grid().dx(); }); m.iterateCells([&](double x, double y) { sum += x * y; }); }
        else if (op == "fn") m.addMeshFunction([&](double x, double y) { return x + y; }, "a name that is long enough for the heap");
        else if (op == "own") { p.own = Vector<double>(); p.own.name() = "mine"; m.iteratePatches([&](FiniteVolumePatch& q) { Vector<double> u(q.grid().nx() * q.grid().ny()); p.own.append(u); }); m.addMeshFunction(p.own); }
        else if (op == "clear") m.clearMeshFunctions();
        else if (op == "vtk") m.toVTK(dir + "/out", (int) a[1]);
        else if (op == "refine") { m.refineByFunction([&](double x, double y) { return x + y < 2 + a[1]; }, 0.5, 1, 2 + (int) a[1], *p.root, *p.factory); }
        else if (op == "family") { auto* r = factory.createNode(*p.root, "0", 0, rank, rank); Nodes c; for (int k = 0; k < 4; k++) c.push_back(factory.createChildNode(r, k, rank, rank)); auto* q = factory.createParentNode(c, rank, rank); for (auto* n : c) delete n; delete q; delete r; }
        else { std::cerr << "unknown op " << op << std::endl; MPI_Abort(MPI_COMM_WORLD, 3); }
    };
    std::ofstream lg(std::string(argv[2]) + "." + std::to_string(rank));
    try {
        for (auto& c : before) perform(c);
        static long seen[1000][3]; rounds = std::min(rounds, 1000L);
        for (long k = 0; k < rounds; k++) {
            for (auto& c : round) perform(c);
            MPI_Barrier(MPI_COMM_WORLD);
            seen[k][0] = bytes(); seen[k][1] = comms; seen[k][2] = files();
        }
        for (long k = 0; k < rounds; k++) lg << js(Ints(seen[k], seen[k] + 3)) << "\n";
        lg << "[]\n";
    } catch (const std::exception& e) { lg << js(std::string(e.what()).substr(0, 200)) << "\n"; lg.flush(); if (ranks > 1) MPI_Abort(MPI_COMM_WORLD, 5); }
    lg.close();
    if (sum == 0.123) std::cerr << sum;
    MPI_Finalize(); fflush(stdout);
    _Exit(0);
}
