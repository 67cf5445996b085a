// drv_leaf <script> <log> <k> <l>: values in units of 2^k, lengths in units of 2^l (coefficients follow, so the exact problem is the same one).
// Leaf solver, families of four patches, structured matrices, patch grids and node factory: one call per line, one JSON line each.
#include "io.hpp"
#include "EllipticForest.hpp"
#include "Patches/FiniteVolume/FiniteVolume.hpp"
#include <fstream>
#include <memory>
using namespace EllipticForest;
using HPS = HPSAlgorithm<FiniteVolumeGrid, FiniteVolumeSolver, FiniteVolumePatch, double>;

struct Fn { Ints k{0, 1, 0, 0, 0, 1};
    double operator()(long X, long Y) const {
        if (k[0] == 0) return k[1];
        if (k[0] == 1) return k[1] + k[2] * X + k[3] * Y;
        return k[1] + ((k[2] * X + k[3] * Y + k[4] * X * Y) % k[5]);
    } };
static double pw2(long e) { return std::ldexp(1.0, (int) e); }
static double unit = 1, len = 1;
// the frame in which coefficient functions are evaluated: half cells from the corner of the grid in use
struct Frame { double x0 = 0, y0 = 0, dx = 1, dy = 1; bool off = false;
    long at(double v, double lo, double d) { double t = (v - lo) / d * 2; long r = lround(t); if (fabs(t - r) > 1e-6) off = true; return r; }
    double eval(const Fn& f, double x, double y) { return f(at(x, x0, dx), at(y, y0, dy)); } };
struct Solver { Fn al, be, la; FiniteVolumeSolver s; };
static Frame frame;

template<class V> static std::string fixed(V&& v, double S) {
    std::string s = "[";
    for (size_t i = 0; i < v.size(); i++) { s += (i ? "," : ""); double x = v[i] * S; s += std::isfinite(x) && fabs(x) < 2e9 ? std::to_string(lround(x)) : "2000000000"; }
    return s + "]";
}
static std::string fixedM(Matrix<double>& A, double S) {      // a sequence of rows
    std::string s = "[";
    for (size_t i = 0; i < A.nrows(); i++) { std::vector<double> r; for (size_t j = 0; j < A.ncols(); j++) r.push_back(A(i, j)); s += (i ? "," : "") + fixed(r, S); }
    return s + "]";
}
static double maxAbs(Vector<double>& v) { double m = 0; for (size_t i = 0; i < v.size(); i++) { if (!std::isfinite(v[i])) return INFINITY; m = std::max(m, fabs(v[i])); } return m; }
static double maxAbs(Matrix<double>& A) { double m = 0; for (size_t i = 0; i < A.nrows(); i++) for (size_t j = 0; j < A.ncols(); j++) { if (!std::isfinite(A(i, j))) return INFINITY; m = std::max(m, fabs(A(i, j))); } return m; }
static double scaleFor(double mx, double lim) { if (!std::isfinite(mx)) return 1; double S = 1; while (mx * S * 10 <= lim && S < 1e6) S *= 10; return S; }
static Vector<double> vec(const Ints& l, double s = 1) { Vector<double> v(l.size()); for (size_t i = 0; i < l.size(); i++) v[i] = l[i] * s; return v; }
static Matrix<double> mat(const Ints& l, size_t r, size_t c, double s = 1) { Matrix<double> A(r, c); for (size_t i = 0; i < r; i++) for (size_t j = 0; j < c; j++) A(i, j) = l[i * c + j] * s; return A; }
static std::vector<double> sides(FiniteVolumeGrid& g) { return {g.xLower(), g.xUpper(), g.yLower(), g.yUpper(), g.dx(), g.dy()}; }

int main(int argc, char** argv) {
    static int ac = 1; static char* av[2] = {argv[0], nullptr}; char** avp = av;
    std::cout.setstate(std::ios::failbit); freopen("/dev/null", "w", stdout);
    auto* app = new EllipticForestApp(&ac, &avp);
    bool no = false;
    app->options.setOption("cache-operators", no); app->options.setOption("homogeneous-rhs", no);
    unit = std::ldexp(1.0, std::atoi(argv[3])); len = std::ldexp(1.0, std::atoi(argv[4]));
    std::ofstream lg(argv[2]); std::ifstream in(argv[1]);
    std::vector<std::unique_ptr<Solver>> solvers(4);
    struct Family { std::vector<std::unique_ptr<FiniteVolumePatch>> c; std::unique_ptr<FiniteVolumePatch> tau; };
    std::vector<Family> fams(8);
    FiniteVolumeSolver dummy; Mesh<FiniteVolumePatch> nomesh; HPS hps(MPI_COMM_WORLD, nomesh, dummy);
    std::vector<std::unique_ptr<Node<FiniteVolumePatch>>> nodes(100);
    FiniteVolumeNodeFactory factory(MPI_COMM_WORLD);
    Call c;
    while (readCall(in, c)) {
        auto& a = c.a; auto& L = c.L;
        lg << "{\"op\":" << js(c.op) << ",\"a\":" << js(a) << ",\"L\":" << js(L);
        lg.flush();
        try {
        if (c.op == "solver") {               // id type | alpha beta lambda
            if (!solvers[a[0]]) solvers[a[0]] = std::make_unique<Solver>();
            auto* s = solvers[a[0]].get();
            s->al.k = L[0]; s->be.k = L[1]; s->la.k = L[2];
            s->s.solver_type = a[1] ? FiniteVolumeSolverType::FISHPACK90 : FiniteVolumeSolverType::FivePointStencil;
            s->s.alpha_function = [s](double x, double y) { return frame.eval(s->al, x, y); };
            s->s.beta_function = [s](double x, double y) { return frame.eval(s->be, x, y) * len * len; };
            s->s.lambda_function = [s](double x, double y) { return s->s.solver_type == FiniteVolumeSolverType::FISHPACK90 ? s->la(0, 0) / len / len : frame.eval(s->la, x, y); };
        }
        else if (c.op == "leaf") {            // id nx x0 y0 hx hy e order | g, f        cells hx/2^e by hy/2^e
            auto& s = *solvers[a[0]];
            long n = a[1]; double q = pw2(-a[6]) * len, x0 = a[2] * len, y0 = a[3] * len, dx = a[4] * q, dy = a[5] * q;
            double fu = s.s.solver_type == FiniteVolumeSolverType::FISHPACK90 ? unit / len / len : unit;    // it takes no second-order coefficient
            frame = Frame{x0, y0, dx, dy, false};
            FiniteVolumeGrid grid(MPI_COMM_SELF, n, x0, x0 + n * dx, n, y0, y0 + n * dy);
            Vector<double> g = vec(L[0], unit), f = vec(L[1], fu), u, h, p; Matrix<double> T;
            bool thrown = false; long d = a[7];
            for (int k = 0; k < 4; k++, d /= 10) switch (d % 10) {
                case 0: u = s.s.solve(grid, g, f); break;
                case 1: h = s.s.mapD2N(grid, g, f); break;
                case 2: p = s.s.particularNeumannData(grid, f); break;
                default: T = s.s.buildD2N(grid);
            }
            double S = scaleFor(std::max({maxAbs(u) / unit, maxAbs(h) * len / unit, maxAbs(p) * len / unit, maxAbs(T) * len}), 1e6);
            lg << ",\"S\":" << (long) S << ",\"u\":" << fixed(u, S / unit) << ",\"h\":" << fixed(h, S * len / unit) << ",\"p\":" << fixed(p, S * len / unit) << ",\"T\":" << fixedM(T, S * len)
               << ",\"g\":" << fixed(g, 1000 / unit) << ",\"f\":" << fixed(f, 1000 / fu) << ",\"off\":" << (frame.off ? 1 : 0);
        }
        else if (c.op == "family") {          // id s0 s1 s2 s3 x0 y0 w h (of one child) | T of each child
            auto& F = fams[a[0]]; F.c.clear();
            for (int k = 0; k < 4; k++) {
                double x = (a[5] + (k % 2) * a[7]) * len, y = (a[6] + (k / 2) * a[8]) * len;
                FiniteVolumeGrid grid(MPI_COMM_SELF, a[1 + k], x, x + a[7] * len, a[1 + k], y, y + a[8] * len);
                F.c.push_back(std::make_unique<FiniteVolumePatch>(MPI_COMM_SELF, grid));
                F.c[k]->matrixT() = mat(L[k], 4 * a[1 + k], 4 * a[1 + k], 1 / len);
            }
            FiniteVolumeGrid pg(MPI_COMM_SELF, a[1], a[5] * len, (a[5] + 2 * a[7]) * len, a[1], a[6] * len, (a[6] + 2 * a[8]) * len);
            F.tau = std::make_unique<FiniteVolumePatch>(MPI_COMM_SELF, pg);
        }
        else if (c.op == "merge") {
            auto& F = fams[a[0]]; hps.merge4to1(*F.tau, *F.c[0], *F.c[1], *F.c[2], *F.c[3]);
            auto& T = F.tau->matrixT(); double S = scaleFor(maxAbs(T) * len, 1e6);
            lg << ",\"S\":" << (long) S << ",\"T\":" << fixedM(T, S * len) << ",\"size\":" << F.tau->size() << ",\"grid\":" << fixed(sides(F.tau->grid()), 1000 / len)
               << ",\"nx\":" << F.tau->grid().nx() << ",\"ny\":" << F.tau->grid().ny();
        }
        else if (c.op == "upwards") {         // id | h of each child
            auto& F = fams[a[0]];
            for (int k = 0; k < 4; k++) F.c[k]->vectorH() = vec(L[k], unit / len);
            hps.upwards4to1(*F.tau, *F.c[0], *F.c[1], *F.c[2], *F.c[3]);
            auto& h = F.tau->vectorH(); double S = scaleFor(maxAbs(h) * len / unit, 1e6);
            lg << ",\"S\":" << (long) S << ",\"h\":" << fixed(h, S * len / unit);
        }
        else if (c.op == "split") {           // id | g
            auto& F = fams[a[0]]; F.tau->vectorG() = vec(L[0], unit);
            hps.split1to4(*F.tau, *F.c[0], *F.c[1], *F.c[2], *F.c[3]);
            double m = 0; for (auto& x : F.c) m = std::max(m, maxAbs(x->vectorG()));
            double S = scaleFor(m / unit, 1e6);
            lg << ",\"S\":" << (long) S << ",\"g\":[";
            for (int k = 0; k < 4; k++) lg << (k ? "," : "") << fixed(F.c[k]->vectorG(), S / unit);
            lg << "],\"tau\":" << fixed(F.tau->vectorG(), 1000 / unit);
        }
        else if (c.op == "special") {         // kind n | values      kinds: 0 identity, 1 diagonal, 2 fine to coarse (n coarse), 3 coarse to fine (n coarse)
            Matrix<double> M;
            if (a[0] == 0) M = IdentityMatrix<double>(a[1]);
            else if (a[0] == 1) M = DiagonalMatrix<double>(vec(L[0]));
            else if (a[0] == 2) M = InterpolationMatrixFine2Coarse<double>(a[1]);
            else M = InterpolationMatrixCoarse2Fine<double>(2 * a[1]);
            std::string s = "["; for (size_t i = 0; i < M.nrows(); i++) { Ints r; for (size_t j = 0; j < M.ncols(); j++) r.push_back(toInt(M(i, j), 32)); s += (i ? "," : "") + js(r); }
            lg << ",\"r\":" << M.nrows() << ",\"c\":" << M.ncols() << ",\"m\":" << s << "]";
        }
        else if (c.op == "blocks") {          // r1 c1 r2 c2 ... | entries of each
            std::vector<Matrix<double>> b; for (size_t k = 0; k < L.size(); k++) b.push_back(mat(L[k], a[2 * k], a[2 * k + 1]));
            Matrix<double> M = blockDiagonalMatrix(b);
            std::string s = "["; for (size_t i = 0; i < M.nrows(); i++) { Ints r; for (size_t j = 0; j < M.ncols(); j++) r.push_back(toInt(M(i, j), 32)); s += (i ? "," : "") + js(r); }
            lg << ",\"r\":" << M.nrows() << ",\"c\":" << M.ncols() << ",\"m\":" << s << "]";
        }
        else if (c.op == "grid") {            // nx x0 wx e ny y0 wy: bounds x0 .. x0 + wx, in 1/2^e; positions logged in units of 1/(2 nx 2^e)
            double q = pw2(-a[3]) * len;
            FiniteVolumeGrid g(MPI_COMM_SELF, a[0], a[1] * q, (a[1] + a[2]) * q, a[4], a[5] * q, (a[5] + a[6]) * q);
            Ints X, Y, X2, Y2; double ux = 2 * a[0] / q, uy = 2 * a[4] / q;
            for (int i = -1; i <= a[0]; i++) { X.push_back(toInt(g.point(DimensionIndex::X, i), ux)); if (i >= 0) X2.push_back(toInt(g(0, i), ux)); }
            for (int i = -1; i <= a[4]; i++) { Y.push_back(toInt(g.point(DimensionIndex::Y, i), uy)); if (i >= 0) Y2.push_back(toInt(g(1, i), uy)); }
            lg << ",\"x\":" << js(X) << ",\"y\":" << js(Y) << ",\"x2\":" << js(X2) << ",\"y2\":" << js(Y2)
               << ",\"box\":" << js(Ints{toInt(g.xLower(), ux), toInt(g.xUpper(), ux), toInt(g.yLower(), uy), toInt(g.yUpper(), uy), toInt(g.dx(), ux), toInt(g.dy(), uy)})
               << ",\"n\":" << js(Ints{(long) g.nx(), (long) g.ny()});
        }
        else if (c.op == "node" || c.op == "child" || c.op == "parent") {
            // node: id nx ny x0 y0 x1 y1 pf pl level | path digits     child: id of k pf pl     parent: id c0 c1 c2 c3 pf pl
            if (c.op == "node") {
                FiniteVolumeGrid g(MPI_COMM_WORLD, a[1], a[3] * len, a[5] * len, a[2], a[4] * len, a[6] * len);
                FiniteVolumePatch p(MPI_COMM_WORLD, g);
                std::string path; for (auto x : L[0]) path += std::to_string(x);
                nodes[a[0]].reset(factory.createNode(p, path, a[9], a[7], a[8]));
            } else if (c.op == "child") nodes[a[0]].reset(factory.createChildNode(nodes[a[1]].get(), a[2], a[3], a[4]));
            else nodes[a[0]].reset(factory.createParentNode({nodes[a[1]].get(), nodes[a[2]].get(), nodes[a[3]].get(), nodes[a[4]].get()}, a[5], a[6]));
            auto& n = *nodes[a[0]]; auto& g = n.data.grid(); Ints path; for (char ch : n.path) path.push_back(ch - '0');
            lg << ",\"path\":" << js(path) << ",\"level\":" << n.level << ",\"ranks\":" << js(Ints{n.pfirst, n.plast}) << ",\"n\":" << js(Ints{(long) g.nx(), (long) g.ny()})
               << ",\"box\":" << js(Ints{toInt(g.xLower(), 4096 / len), toInt(g.yLower(), 4096 / len), toInt(g.xUpper(), 4096 / len), toInt(g.yUpper(), 4096 / len)}) << ",\"leaf\":" << (n.leaf ? 1 : 0);
        }
        else { std::cerr << "unknown op " << c.op << std::endl; _Exit(3); }
        lg << ",\"ok\":1}\n";
        } catch (const std::exception& e) { lg << ",\"ok\":0,\"what\":" << js(std::string(e.what()).substr(0, 200)) << "}\n"; }
        lg.flush();
    }
    lg.close();
    MPI_Finalize();
    _Exit(0);
}
