// Runs scripts of calls on distributed vectors and matrices; every process writes one JSON line per call to <log>.<rank>.   drv_par <script> <log>
#include "io.hpp"
#include "EllipticForest.hpp"
#include <fstream>
#include <memory>
using namespace EllipticForest;
namespace EF = EllipticForest::MPI;
typedef ParallelVector<double> PV; typedef ParallelMatrix<double> PM;
static std::vector<double> reals(const Ints& l) { return std::vector<double>(l.begin(), l.end()); }
static Vector<int> indices(const Ints& l) { return Vector<int>(std::vector<int>(l.begin(), l.end())); }
template<class T> void copyAssign(T& to, T& from) { if constexpr (std::is_copy_assignable_v<T>) to = from; else { T t(from); to = std::move(t); } }

int main(int argc, char** argv) {
    static int ac = 1; static char* av[2] = {argv[0], nullptr}; char** avp = av;
    std::cout.setstate(std::ios::failbit); freopen("/dev/null", "w", stdout);
    new EllipticForestApp(&ac, &avp);
    PetscPushErrorHandler(PetscReturnErrorHandler, nullptr);
    int rank; MPI_Comm_rank(MPI_COMM_WORLD, &rank);
    std::ofstream lg(std::string(argv[2]) + "." + std::to_string(rank));
    std::ifstream in(argv[1]);
    std::map<long, std::unique_ptr<PV>> V; std::map<long, std::unique_ptr<PM>> M;
    std::vector<MPI_Comm> comms(64, MPI_COMM_NULL); comms[0] = MPI_COMM_WORLD;
    Call c;
    while (readCall(in, c)) {
        auto& a = c.a; auto& L = c.L; std::string x; int err = 0;
        lg << "{\"op\":" << js(c.op) << ",\"a\":" << js(a) << ",\"L\":" << js(L); lg.flush();
        auto me = [&](MPI_Comm cm) { int r = -1; if (cm != MPI_COMM_NULL) MPI_Comm_rank(cm, &r); return r; };
        auto members = [&](long id, bool vec) { return vec ? V.count(id) > 0 : M.count(id) > 0; };
        static const char* types[] = {MATAIJ, MATDENSE};
        try {
        if (c.op == "comm") {
            comms[a[0]] = MPI_COMM_NULL;
            if (comms[a[1]] != MPI_COMM_NULL) EF::communicatorSubsetRange(comms[a[1]], a[2], a[3], 1000 + (int) a[0], &comms[a[0]]);
        }
        // vectors
        else if (c.op == "vnew") {       // id comm typed N | local sizes or nothing
            int r = me(comms[a[1]]); if (r >= 0) { int l = L[0].empty() ? PETSC_DECIDE : L[0][r];
                V[a[0]] = a[2] ? std::make_unique<PV>(comms[a[1]], l, (int) a[3], VECSTANDARD) : std::make_unique<PV>(comms[a[1]], l, (int) a[3]); }
        }
        else if (c.op == "vser") {       // id comm typed | values
            if (me(comms[a[1]]) >= 0) { Vector<double> s(reals(L[0])); V[a[0]] = a[2] ? std::make_unique<PV>(comms[a[1]], s, VECSTANDARD) : std::make_unique<PV>(comms[a[1]], s);
                bool same = s.data() == reals(L[0]); x += ",\"own\":" + std::to_string(same); }
        }
        else if (c.op == "vset") {       // id mode form | per member: indices, values
            if (members(a[0], true)) { auto& v = *V[a[0]]; int r = me(v.getComm()); auto mode = a[1] ? ADD_VALUES : INSERT_VALUES; auto& I = L[2 * r]; auto& X = L[2 * r + 1];
                if (a[2]) { if (!I.empty()) err |= v.setValues(indices(I), Vector<double>(reals(X)), mode); } else for (size_t i = 0; i < I.size(); i++) err |= v.setValue(I[i], X[i], mode); }
        }
        else if (c.op == "vasm") { if (members(a[0], true)) { err |= V[a[0]]->beginAssembly(); err |= V[a[0]]->endAssembly(); } }
        else if (c.op == "vget") {
            if (members(a[0], true)) { Vec v = V[a[0]]->vec; int lo, hi, n; err |= VecGetOwnershipRange(v, &lo, &hi); err |= VecGetSize(v, &n);
                const double* p; Ints g; err |= VecGetArrayRead(v, &p); for (int i = 0; i < hi - lo; i++) g.push_back(toInt(p[i])); err |= VecRestoreArrayRead(v, &p);
                x += ",\"lo\":" + std::to_string(lo) + ",\"hi\":" + std::to_string(hi) + ",\"n\":" + std::to_string(n) + ",\"val\":" + js(g); }
        }
        else if (c.op == "vcopy") { if (members(a[1], true)) V[a[0]] = std::make_unique<PV>(*V[a[1]]); }
        else if (c.op == "vassign") { if (members(a[1], true)) *V[a[0]] = *V[a[1]]; }
        else if (c.op == "vmove") { if (members(a[1], true)) *V[a[0]] = std::move(*V[a[1]]); }
        else if (c.op == "vdel") V.erase(a[0]);
        else if (c.op == "vnone") V[a[0]] = a[1] ? std::make_unique<PV>(MPI_COMM_WORLD) : std::make_unique<PV>();
        else if (c.op == "vaxpy") { if (members(a[0], true)) err |= VecAXPY(V[a[0]]->vec, a[1], V[a[2]]->vec); }
        // matrices
        else if (c.op == "mnew") {       // id comm type (-1: default) M N | local rows, local columns (or nothing)
            int r = me(comms[a[1]]); if (r >= 0) { int l = L[0].empty() ? PETSC_DECIDE : L[0][r], k = L[1].empty() ? PETSC_DECIDE : L[1][r];
                M[a[0]] = a[2] >= 0 ? std::make_unique<PM>(comms[a[1]], l, k, (int) a[3], (int) a[4], types[a[2]]) : std::make_unique<PM>(comms[a[1]], l, k, (int) a[3], (int) a[4]); }
        }
        else if (c.op == "mser") {       // id comm type M N | values
            if (me(comms[a[1]]) >= 0) { Matrix<double> s(a[3], a[4], reals(L[0])); M[a[0]] = a[2] >= 0 ? std::make_unique<PM>(comms[a[1]], s, types[a[2]]) : std::make_unique<PM>(comms[a[1]], s);
                x += ",\"own\":" + std::to_string(s.data() == reals(L[0])); }
        }
        else if (c.op == "mid") {        // id comm kind N
            if (me(comms[a[1]]) >= 0) { if (a[2] < 0) M[a[0]] = std::make_unique<ParallelIdentityMatrix<double>>(a[3]); else if (a[2] == 0) M[a[0]] = std::make_unique<ParallelIdentityMatrix<double>>(comms[a[1]], a[3]);
                else M[a[0]] = std::make_unique<ParallelIdentityMatrix<double>>(comms[a[1]], a[3], types[a[2] - 1]); }
        }
        else if (c.op == "mown") {       // id comm M N: takes control of an existing matrix
            if (me(comms[a[1]]) >= 0) { Mat m; err |= MatCreateDense(comms[a[1]], PETSC_DECIDE, PETSC_DECIDE, a[2], a[3], nullptr, &m); M[a[0]] = std::make_unique<PM>(comms[a[1]], m); }
        }
        else if (c.op == "mset") {       // id mode form | per member: rows, columns, values
            if (members(a[0], false)) { auto& m = *M[a[0]]; int r = me(m.getComm()); auto mode = a[1] ? ADD_VALUES : INSERT_VALUES; auto& I = L[3 * r]; auto& J = L[3 * r + 1]; auto& X = L[3 * r + 2];
                if (I.empty() || J.empty()) ;
                else if (a[2] == 0) for (size_t i = 0; i < I.size(); i++) for (size_t j = 0; j < J.size(); j++) err |= m.setValue(I[i], J[j], X[i * J.size() + j], mode);
                else if (a[2] == 1) err |= m.setValues(indices(I), indices(J), Matrix<double>(I.size(), J.size(), reals(X)), mode);
                else err |= m.setValues(indices(I), indices(J), Vector<double>(reals(X)), mode); }
        }
        else if (c.op == "masm") { if (members(a[0], false)) { auto k = a[1] ? MAT_FINAL_ASSEMBLY : MAT_FLUSH_ASSEMBLY; err |= M[a[0]]->beginAssembly(k); err |= M[a[0]]->endAssembly(k); } }
        else if (c.op == "mget") {       // id form
            if (members(a[0], false)) { auto& m = *M[a[0]]; int lo, hi, R, C; err |= MatGetOwnershipRange(m.mat, &lo, &hi); err |= MatGetSize(m.mat, &R, &C); Ints g;
                if (a[1] == 0) for (int i = lo; i < hi; i++) for (int j = 0; j < C; j++) { double v = 0.5; err |= m.getValue(i, j, v); g.push_back(toInt(v)); }
                else if (hi > lo && C > 0) { Vector<int> I = vectorRange(lo, hi - 1), J = vectorRange(0, C - 1);
                    if (a[1] == 1) { Matrix<double> v(hi - lo, C, 0.5); err |= m.getValues(I, J, v); for (double d : v.data()) g.push_back(toInt(d)); }
                    else { Vector<double> v((hi - lo) * C, 0.5); err |= m.getValues(I, J, v); for (double d : v.data()) g.push_back(toInt(d)); } }
                x += ",\"lo\":" + std::to_string(lo) + ",\"hi\":" + std::to_string(hi) + ",\"size\":" + js(Ints{R, C}) + ",\"says\":" + js(Ints{m.globalRows(), m.globalCols(), m.localRows(), m.localCols()}) + ",\"val\":" + js(g); }
        }
        else if (c.op == "mcopy") { if (members(a[1], false)) M[a[0]] = std::make_unique<PM>(*M[a[1]]); }
        else if (c.op == "mmove") { if (members(a[1], false)) *M[a[0]] = std::move(*M[a[1]]); }
        else if (c.op == "mdel") M.erase(a[0]);
        else if (c.op == "mnone") M[a[0]] = a[1] ? std::make_unique<PM>(MPI_COMM_WORLD) : std::make_unique<PM>();
        else if (c.op == "msub") {       // id from | per member: rows, columns
            if (members(a[1], false)) { auto& m = *M[a[1]]; int r = me(m.getComm()); IS is[2];
                for (int k = 0; k < 2; k++) { std::vector<int> l(L[2 * r + k].begin(), L[2 * r + k].end()); err |= ISCreateGeneral(m.getComm(), l.size(), l.data(), PETSC_COPY_VALUES, &is[k]); }
                M[a[0]] = std::make_unique<PM>(m.getComm(), m, is[0], is[1]); for (auto& i : is) err |= ISDestroy(&i); }
        }
        else if (c.op == "mcat") {       // id comm | the matrix each member holds: the pieces of these, on a communicator of all
            int r = me(comms[a[1]]); if (r >= 0) M[a[0]] = std::make_unique<PM>(comms[a[1]], *M[L[0][r]]);
        }
        else if (c.op == "maxpy") { if (members(a[0], false)) err |= MatAXPY(M[a[0]]->mat, a[1], M[a[2]]->mat, DIFFERENT_NONZERO_PATTERN); }
        else if (c.op == "mmul") { if (members(a[1], false)) err |= MatMult(M[a[1]]->mat, V[a[2]]->vec, V[a[0]]->vec); }      // y A x
        else { std::cerr << "unknown op " << c.op << std::endl; MPI_Abort(MPI_COMM_WORLD, 3); }
        lg << x << ",\"err\":" << err << ",\"threw\":0}" << std::endl;
        } catch (const std::exception& e) { lg << ",\"err\":" << err << ",\"threw\":1,\"what\":" << js(std::string(e.what()).substr(0, 200)) << "}" << std::endl; }
    }
    V.clear(); M.clear();
    lg.close();
    PetscFinalize(); MPI_Finalize(); fflush(stdout);
    _Exit(0);
}
