// Runs scripts on meshes (refinement, iteration, mesh functions, VTK output); every process writes one JSON line per call to <log>.<rank>.
// drv_mesh <script> <log> <directory> <k>: lengths and values are in units of 2^k; output files go to <directory>/out, and after every writing call its contents are copied to <directory>/snap.<call>
#include "io.hpp"
#include "team.hpp"
#include "pmpi.hpp"
#include "EllipticForest.hpp"
#include "Patches/FiniteVolume/FiniteVolume.hpp"
#include <p4est_algorithms.h>
#include <filesystem>
#include <fstream>
#include <memory>
#include <set>
using namespace EllipticForest;
namespace fs = std::filesystem;

static Ints digits(const std::string& path) { Ints r; for (size_t i = 1; i < path.size(); i++) r.push_back(path[i] - '0'); if (path.empty() || path[0] != '0') r.insert(r.begin(), 9); return r; }
static std::string pathOf(const Ints& d) { std::string s = "0"; for (auto x : d) s += std::to_string(x); return s; }
static double unit = 1;
struct Fn { Ints k;                     // c, p, q, m, over: (c + (pX + qY mod m)) / 8, X and Y in half-widths of the finest cells from the lower-left corner
    double operator()(long X, long Y) const { return (k[0] + ((k[1] * X + k[2] * Y) % k[3])) / 8.0 * unit; } };
struct Item {
    long nx, ny, lev; double hx, hy, x0, y0;
    std::unique_ptr<FiniteVolumePatch> root; std::unique_ptr<FiniteVolumeNodeFactory> factory; std::unique_ptr<Mesh<FiniteVolumePatch>> mesh;
    std::vector<std::unique_ptr<Vector<double>>> owned;
    long X(double x) { return toInt((x - x0) / hx * 2); }
    long Y(double y) { return toInt((y - y0) / hy * 2); }
};
static std::set<std::string> branchSet;
static int refineFn(p4est_t*, p4est_topidx_t, p4est_quadrant_t* q) { return branchSet.count(p4est::p4est_quadrant_path(q)) ? 1 : 0; }
static p4est_t* makeForest(const Lists& L, double x0, double x1, double y0, double y1) {
    branchSet.clear();
    for (size_t i = 1; i < L.size(); i++) branchSet.insert(pathOf(L[i]));
    p4est_t* f = p4est_new_ext(TEAM, p4est::p4est_connectivity_new_square_domain(x0, x1, y0, y1), 0, 0, true, 0, NULL, NULL);
    p4est_refine(f, 1, refineFn, NULL);
    p4est_partition(f, 0, NULL);
    std::vector<p4est_locidx_t> n(L[0].begin(), L[0].end());
    if (!n.empty()) p4est_partition_given(f, n.data());
    return f;
}
static p4est_t* uniform(int level, double x0, double x1, double y0, double y1) { return p4est_new_ext(TEAM, p4est::p4est_connectivity_new_square_domain(x0, x1, y0, y1), 0, level, true, 0, NULL, NULL); }
static std::string baseOf(const std::string& kind, long k) {   // output names: plain, in a directory, with a percent sign, long
    std::string n = kind + std::to_string(k);
    return k % 4 == 0 ? n : k % 4 == 1 ? "d/" + n : k % 4 == 2 ? "5%d %s-" + n : "d.x/" + std::string(210, 'l') + n;
}
struct RGrid : RectilinearGridNodeBase {
    Vector<double> x, y; std::vector<Vector<double>> cell, point; RectilinearGridVTK vtr; long nx, ny;
    std::string extent() { return "0 " + std::to_string(nx) + " 0 " + std::to_string(ny) + " 0 0"; }
    std::string getWholeExtent() { return extent(); }
    std::string getExtent() { return extent(); }
};
static Vector<double> thousandths(const Ints& v, const std::string& name) { Vector<double> r(v.size()); r.name() = name; for (size_t i = 0; i < v.size(); i++) r[i] = v[i] / 1000.0 * unit; return r; }
static std::string nameOf(long k) { return k == 0 ? "u" : k == 1 ? "load_f" : k == 2 ? "error" : k == 3 ? "x velocity" : k == 4 ? "|u| < 1 & \"v\"" : "q" + std::to_string(k); }

int main(int argc, char** argv) {
    static int ac = 1; static char* av[2] = {argv[0], nullptr}; char** avp = av;
    std::cout.setstate(std::ios::failbit); freopen("/dev/null", "w", stdout);
    new EllipticForestApp(&ac, &avp);
    team::join(); int rank = team::rank;
    sc_set_log_defaults(NULL, NULL, SC_LP_SILENT);
    std::ofstream lg(std::string(argv[2]) + team::suffix + "." + std::to_string(rank));
    std::ifstream in(std::string(argv[1]) + team::suffix);
    unit = std::ldexp(1.0, std::atoi(argv[4]));
    std::string dir = argv[3] + team::suffix, out = dir + "/out";
    std::vector<std::unique_ptr<Item>> items(8);
    std::vector<std::unique_ptr<PUnstructuredGridVTK>> writers(8);
    std::vector<std::unique_ptr<UnstructuredGridVTK>> serial(8);
    std::vector<std::unique_ptr<Vector<double>>> pointData(8);
    std::vector<std::unique_ptr<RGrid>> rgrids(8);
    if (rank == 0) { fs::create_directories(out + "/d"); fs::create_directories(out + "/d.x"); }
    MPI_Barrier(TEAM);
    Call c; int at = 0;
    while (readCall(in, c)) {
        auto& a = c.a; auto& L = c.L; at++;
        lg << "{\"op\":" << js(c.op) << ",\"a\":" << js(a) << ",\"L\":" << js(L); lg.flush();
        rec::on = c.op == "mesh" || c.op == "refine" || c.op == "vtk" || c.op == "write";
        try {
        if (c.op == "mesh" || c.op == "refine") {
            if (!items[a[0]]) items[a[0]] = std::make_unique<Item>();
            auto& p = *items[a[0]];
            p.nx = a[1]; p.x0 = a[2] * unit; p.y0 = a[3] * unit; p.hx = a[4] * unit; p.hy = a[5] * unit; p.lev = a[6]; p.ny = a[7];
            double x1 = p.x0 + p.nx * p.hx * (1 << p.lev), y1 = p.y0 + p.ny * p.hy * (1 << p.lev);
            FiniteVolumeGrid grid(TEAM, p.nx, p.x0, x1, p.ny, p.y0, y1);
            p.root = std::make_unique<FiniteVolumePatch>(TEAM, grid);
            if (!p.factory) p.factory = std::make_unique<FiniteVolumeNodeFactory>(TEAM);
            if (c.op == "mesh") p.mesh = std::make_unique<Mesh<FiniteVolumePatch>>(TEAM, makeForest(L, p.x0, x1, p.y0, y1), *p.root, *p.factory);
            else {
                if (!p.mesh && team::suffix.empty()) p.mesh = std::make_unique<Mesh<FiniteVolumePatch>>();
                if (!p.mesh) p.mesh = std::make_unique<Mesh<FiniteVolumePatch>>(TEAM, uniform(2, p.x0, x1, p.y0, y1), *p.root, *p.factory);   // a default mesh is on all processes
                std::set<std::pair<long, long>> hot; for (auto& h : L) hot.insert({h[0], h[1]});
                p.mesh->refineByFunction([&](double x, double y) { return hot.count({(long) floor((x - p.x0) / p.hx + 1e-9), (long) floor((y - p.y0) / p.hy + 1e-9)}) > 0; },
                                         0.5, (int) a[8], (int) a[9], *p.root, *p.factory);
            }
            Lists paths, rects;
            p.mesh->quadtree.traversePreOrder(std::function<int(Node<FiniteVolumePatch>*)>([&](Node<FiniteVolumePatch>* n) {
                if (n->leaf) { paths.push_back(digits(n->path)); auto& g = n->data.grid();
                    rects.push_back({p.X(g.xLower()), p.Y(g.yLower()), p.X(g.xUpper()), p.Y(g.yUpper()), (long) g.nx(), (long) g.ny()}); }
                return 1; }));
            auto& m = *p.mesh;
            lg << ",\"leaves\":" << js(paths) << ",\"rects\":" << js(rects) << ",\"npoints\":" << m.getNumberOfPoints() << ",\"ncells\":" << m.getNumberOfCells()
               << ",\"fns\":" << m.mesh_functions.size();
        }
        else if (c.op == "patches") {
            auto& p = *items[a[0]]; Lists rects;
            p.mesh->iteratePatches([&](FiniteVolumePatch& q) { auto& g = q.grid(); rects.push_back({p.X(g.xLower()), p.Y(g.yLower()), p.X(g.xUpper()), p.Y(g.yUpper()), (long) g.nx(), (long) g.ny()}); });
            lg << ",\"rects\":" << js(rects);
        }
        else if (c.op == "cells") {
            auto& p = *items[a[0]]; Lists r;
            p.mesh->iterateCells([&](double x, double y) { r.push_back({p.X(x), p.Y(y)}); });
            lg << ",\"cells\":" << js(r);
        }
        else if (c.op == "addfn" || c.op == "addpw") {     // id name | formula
            auto& p = *items[a[0]]; Fn f{L[0]}; auto& m = *p.mesh;
            size_t before = m.mesh_functions.size();
            if (c.op == "addfn") m.addMeshFunction([&](double x, double y) { return f(p.X(x), p.Y(y)); }, nameOf(a[1]));
            else {
                p.owned.push_back(std::make_unique<Vector<double>>());
                auto& v = *p.owned.back(); v.name() = nameOf(a[1]);
                m.iteratePatches([&](FiniteVolumePatch& q) {
                    auto& g = q.grid(); Vector<double> u(g.nx() * g.ny());
                    for (size_t i = 0; i < g.nx(); i++) for (size_t j = 0; j < g.ny(); j++) u[j + i * g.ny()] = f(p.X(g(0, i)), p.Y(g(1, j)));
                    q.vectorU() = u; v.append(q.vectorU());
                });
                m.addMeshFunction(v);
            }
            auto& v = *m.mesh_functions.back();
            Ints vals; for (size_t i = 0; i < v.size(); i++) vals.push_back(toInt(v[i] / unit, 1000));
            lg << ",\"added\":" << m.mesh_functions.size() - before << ",\"name\":" << js(v.getName()) << ",\"vals\":" << js(vals);
        }
        else if (c.op == "clear") { items[a[0]]->mesh->clearMeshFunctions(); lg << ",\"fns\":" << items[a[0]]->mesh->mesh_functions.size(); }
        else if (c.op == "vtk") {        // id base number
            items[a[0]]->mesh->toVTK(out + "/" + baseOf("b", a[1]), (int) a[2]);
            lg << ",\"base\":" << js(baseOf("b", a[1]));
        }
        else if (c.op == "writer") {     // writer id, serial?, point data?
            auto& m = *items[a[1]]->mesh;
            auto fill = [&](auto& w) {
                w.buildMesh(m);
                for (auto* f : m.mesh_functions) w.addCellData(*f);
                if (a[3]) { auto& v = pointData[a[0]]; v = std::make_unique<Vector<double>>(m.npoints); v->name() = "at_points";
                            for (int k = 0; k < m.npoints; k++) (*v)[k] = (k % 97) / 4.0 * unit; w.addPointData(*v); }
            };
            writers[a[0]].reset(); serial[a[0]].reset();
            if (a[2]) { serial[a[0]] = std::make_unique<UnstructuredGridVTK>(); fill(*serial[a[0]]); }
            else { writers[a[0]] = std::make_unique<PUnstructuredGridVTK>(TEAM); fill(*writers[a[0]]); }
        }
        else if (c.op == "write") {      // writer base
            std::string b = baseOf("w", a[1]);
            if (serial[a[0]]) serial[a[0]]->toVTK(out + "/" + b + "-" + std::to_string(rank) + ".vtu");
            else writers[a[0]]->toVTK(out + "/" + b);
            lg << ",\"base\":" << js(b);
        }
        else if (c.op == "rgrid") {      // id, number of cell arrays | x | y | arrays in thousandths (cell arrays first)
            rgrids[a[0]] = std::make_unique<RGrid>(); auto& g = *rgrids[a[0]];
            g.nx = L[0].size() - 1; g.ny = L[1].size() - 1; g.x = thousandths(L[0], "x"); g.y = thousandths(L[1], "y");
            for (size_t k = 2; k < L.size(); k++) (k < (size_t) a[1] + 2 ? g.cell : g.point).push_back(thousandths(L[k], "r" + std::to_string(k - 1)));
            g.vtr.buildMesh(g, &g.x, &g.y, nullptr);
            for (size_t k = 0; k < g.cell.size(); k++) g.cell[k].name() = "r" + std::to_string(k + 1);             // copies of a vector do not carry its name
            for (size_t k = 0; k < g.point.size(); k++) g.point[k].name() = "r" + std::to_string(g.cell.size() + k + 1);
            for (auto& v : g.cell) g.vtr.addCellData(v);
            for (auto& v : g.point) g.vtr.addPointData(v);
        }
        else if (c.op == "rwrite") {     // id base
            std::string b = baseOf("r", a[1]);
            if (rank == 0) rgrids[a[0]]->vtr.toVTK(out + "/" + b + ".vtr");
            lg << ",\"base\":" << js(b);
        }
        else { std::cerr << "unknown op " << c.op << std::endl; MPI_Abort(MPI_COMM_WORLD, 3); }
        lg << ",\"threw\":0}" << std::endl;
        } catch (const std::exception& e) { lg << ",\"threw\":1,\"what\":" << js(std::string(e.what()).substr(0, 200)) << "}" << std::endl; }
        rec::on = false;
        if (c.op == "vtk" || c.op == "write" || c.op == "rwrite") {
            MPI_Barrier(TEAM);
            if (rank == 0) fs::copy(out, dir + "/snap." + std::to_string(at), fs::copy_options::recursive);
            MPI_Barrier(TEAM);
        }
    }
    std::ofstream mp(std::string(argv[2]) + ".mpi." + std::to_string(team::world));
    for (auto& e : rec::events) mp << e << "\n";
    mp.close(); lg.close();
    MPI_Finalize(); fflush(stdout);
    _Exit(0);
}
