// Executes calls on EllipticForest::Vector<double>, Vector<int> and Matrix<double>; logs every outcome and the registers.
// drv_la <kind> <q or -> <k>: entries of double vectors and matrices are in units of 2^k.
#include "io.hpp"
#include "EllipticForest.hpp"
using namespace EllipticForest;

static double unit = 1;
static long seqno = 0;   // alternates between equivalent entry points

static long longest = 60;      // longer operands are not used, so that repeated appending does not run away
template<class T> Ints ints(const std::vector<T>& v) { Ints r; for (auto x : v) r.push_back(toInt((double) x / unit)); return r; }
template<class T> Ints ints(const Vector<T>& v) {
    if (v.size() != v.data().size()) return {NOT_AN_INT, (long) v.size(), (long) v.data().size()};
    return ints(v.data());
}
template<class T> Vector<T> vec(const Ints& l) { std::vector<T> d(l.begin(), l.end()); return Vector<T>(d); }
template<class T> Vector<T> val(const Ints& l) { std::vector<T> d; for (auto x : l) d.push_back((T) (x * unit)); return Vector<T>(d); }
static void agree(bool c) { if (!c) throw NOT_AN_INT; }

template<class T> struct Vectors {
    Vector<T> reg[4];
    bool small() { for (auto& r : reg) { if (r.size() > (size_t) longest) return false; for (auto x : r.data()) if (fabs((double) x / unit) > 10000) return false; } return true; }
    // returns false when the call is not made (operands too large, or an inexact division)
    bool exec(Call& c, bool& ok, Ints& out) {
        auto& a = c.a; auto& L = c.L; auto& op = c.op;
        auto V = [&](int k) -> Vector<T>& { return reg[a.at(k)]; };
        bool grows = op != "zeros" && op != "fill" && op != "list" && op != "reset" && op != "state";
        if (grows && !small()) return false;
        if (op == "dot" || op == "l2sq") {          // results stay below 2^30
            double t = 0;
            for (size_t i = 0; i < std::min(V(0).size(), V(1).size()); i++) { double x = V(0)[i] / unit, y = V(1)[i] / unit; t += op == "dot" ? fabs(x * y) : (x - y) * (x - y); }
            if (t > 6e8) return false;
        }
        ok = true; out.clear(); seqno++;
        try {
            if (op == "reset") for (auto& r : reg) r = Vector<T>();
            else if (op == "state") for (size_t i = 0; i < L.size(); i++) reg[i] = val<T>(L[i]);
            else if (op == "zeros") V(0) = Vector<T>((std::size_t) a[1]);
            else if (op == "fill") V(0) = Vector<T>((std::size_t) a[1], (T) (a[2] * unit));
            else if (op == "list") {
                if (L[0].size() == 3) V(0) = Vector<T>({(T) (L[0][0] * unit), (T) (L[0][1] * unit), (T) (L[0][2] * unit)});
                else V(0) = val<T>(L[0]);
            }
            else if (op == "copy") {
                if (seqno % 2) { Vector<T> n(V(1)); V(0) = n; }
                else { const Vector<T>& s = V(1); Vector<T> n(s); V(0) = n; }
            }
            else if (op == "assign") V(0) = V(1);
            else if (op == "size") out = {(long) V(0).size()};
            else if (op == "get") {
                const Vector<T>& cv = V(0); auto& v = V(0); std::size_t i = a[1];
                int rejected = 0; T x[4] = {};
                for (int w = 0; w < 4; w++) try { x[w] = w == 0 ? v.getEntry(i) : w == 1 ? v[i] : w == 2 ? cv[i] : v(i); } catch (std::exception&) { rejected++; }
                agree(rejected == 0 || rejected == 4);
                if (rejected) ok = false;
                else { agree(x[0] == x[1] && x[1] == x[2] && x[2] == x[3]); out = {toInt((double) x[0] / unit)}; }
            }
            else if (op == "put") { if (seqno % 2) V(0)[(std::size_t) a[1]] = (T) (a[2] * unit); else V(0)((std::size_t) a[1]) = (T) (a[2] * unit); }
            else if (op == "range") { if (seqno % 2) V(0) = V(1).getRange(a[2], a[3]); else V(0) = V(1)((std::size_t) a[2], (std::size_t) a[3]); }
            else if (op == "segment") V(0) = V(1).getSegment(a[2], a[3]);
            else if (op == "setseg") V(0).setSegment(a[1], V(2));
            else if (op == "append") V(0).append(V(1));
            else if (op == "indexset") { if (seqno % 2) V(0) = V(1).getFromIndexSet(vec<int>(L[0])); else V(0) = V(1)(vec<int>(L[0])); }
            else if (op == "permute") V(0) = V(1).blockPermute(vec<int>(L[0]), vec<int>(L[1]));
            else if (op == "neg") V(0) = -V(1);
            else if (op == "add") V(0) = V(1) + V(2);
            else if (op == "sub") V(0) = V(1) - V(2);
            else if (op == "addeq") { auto& r = (V(0) += V(1)); agree(&r == &V(0)); }
            else if (op == "subeq") { auto& r = (V(0) -= V(1)); agree(&r == &V(0)); }
            else if (op == "addc") V(0) = V(1) + (T) (a[2] * unit);
            else if (op == "subc") V(0) = V(1) - (T) (a[2] * unit);
            else if (op == "addeqc") V(0) += (T) (a[1] * unit);
            else if (op == "subeqc") V(0) -= (T) (a[1] * unit);
            else if (op == "muleqc") V(0) *= (T) a[1];
            else if (op == "smul") V(0) = EllipticForest::operator*<T>((T) a[2], V(1));
            else if (op == "diveqc") {
                for (auto x : V(0).data()) if (((long) (x / unit)) % a[1]) return false;
                V(0) /= (T) a[1];
            }
            else if (op == "hmul") { V(0) = EllipticForest::operator*<T>(V(1), V(2)); for (size_t i = 0; i < V(0).size(); i++) V(0)[i] /= (T) unit; }
            else if (op == "hdiv") {
                for (std::size_t i = 0; i < std::min(V(1).size(), V(2).size()); i++)
                    if (V(2)[i] == 0 || ((long) (V(1)[i] / unit)) % ((long) (V(2)[i] / unit))) return false;
                V(0) = EllipticForest::operator/<T>(V(1), V(2));
                for (size_t i = 0; i < V(0).size(); i++) V(0)[i] *= (T) unit;
            }
            else if (op == "dot") out = {toInt((double) (V(0) * V(1)) / unit / unit)};
            else if (op == "infnorm") out = {toInt(vectorInfNorm(V(0), V(1)) / unit)};
            else if (op == "l2sq") { double n = vectorL2Norm(V(0), V(1)) / unit; out = {toInt(n * n)}; }
            else if (op == "concat") {
                if (L[0].size() == 2 && seqno % 2) V(0) = concatenate({reg[L[0][0]], reg[L[0][1]]});
                else { std::vector<Vector<T>> vs; for (auto k : L[0]) vs.push_back(reg[k]); V(0) = concatenate(vs); }
            }
            else if (op == "vrange") { auto r = vectorRange(a[0], a[1]); for (auto x : r.data()) out.push_back(x); if (r.size() != out.size()) out = {NOT_AN_INT}; }
            else { std::cout << "unknown op " << op << std::endl; exit(3); }
        }
        catch (std::exception& e) { ok = false; out.clear(); }
        catch (long) { out = {NOT_AN_INT}; }
        return true;
    }
    std::string state() { Lists l; for (auto& r : reg) l.push_back(ints(r)); return js(l); }
};

struct Matrices {
    Matrix<double> reg[4];
    bool small() { for (auto& r : reg) { if (r.data().size() > (size_t) (longest == 60 ? 400 : longest)) return false; for (auto x : r.data()) if (fabs(x / unit) > 5000) return false; } return true; }
    Matrix<double>& M(Call& c, int k) { return reg[c.a.at(k)]; }
    bool exec(Call& c, bool& ok, Ints& out) {
        auto& a = c.a; auto& L = c.L; auto& op = c.op;
        auto M = [&](int k) -> Matrix<double>& { return reg[a.at(k)]; };
        auto D = [&](int k) { std::vector<double> d; for (auto x : L[k]) d.push_back(x * unit); return d; };
        bool grows = op != "zeros" && op != "fill" && op != "data" && op != "reset" && op != "state";
        if (grows && !small()) return false;
        ok = true; out.clear(); seqno++;
        try {
            if (op == "reset") for (auto& r : reg) r = Matrix<double>();
            else if (op == "state") for (size_t i = 0; i < L.size(); i++) {
                std::vector<double> d; for (size_t j = 2; j < L[i].size(); j++) d.push_back(L[i][j] * unit);
                reg[i] = Matrix<double>(L[i][0], L[i][1], d);
            }
            else if (op == "zeros") M(0) = Matrix<double>(a[1], a[2]);
            else if (op == "fill") M(0) = Matrix<double>(a[1], a[2], a[3] * unit);
            else if (op == "data") {
                auto d = D(0);
                if (d.size() == 4 && seqno % 2) M(0) = Matrix<double>(a[1], a[2], std::initializer_list<double>{d[0], d[1], d[2], d[3]});
                else M(0) = Matrix<double>(a[1], a[2], d);
            }
            else if (op == "copy") { Matrix<double> n(M(1)); M(0) = n; }
            else if (op == "assign") M(0) = M(1);
            else if (op == "shape") { auto& m = M(0); agree(m.nrows() == m.nRows() && m.ncols() == m.nCols()); out = {(long) m.nrows(), (long) m.ncols()}; }
            else if (op == "get") {
                auto& m = M(0); double x[2]; int rejected = 0;
                for (int w = 0; w < 2; w++) try { x[w] = w ? m.getEntry(a[1], a[2]) : m(a[1], a[2]); } catch (std::exception&) { rejected++; }
                agree(rejected == 0 || rejected == 2);
                if (rejected) ok = false; else { agree(x[0] == x[1]); out = {toInt(x[0] / unit)}; }
            }
            else if (op == "put") M(0)(a[1], a[2]) = a[3] * unit;
            else if (op == "range") M(0) = M(1)(a[2], a[3], a[4], a[5]);
            else if (op == "getrow") out = ints(M(0).getRow(a[1]));
            else if (op == "getcol") out = ints(M(0).getCol(a[1]));
            else if (op == "setrow") { Vector<double> v(D(0)); M(0).setRow(a[1], v); }
            else if (op == "setcol") { Vector<double> v(D(0)); M(0).setColumn(a[1], v); }
            else if (op == "indexset") { if (seqno % 2) M(0) = M(1).getFromIndexSet(vec<int>(L[0]), vec<int>(L[1])); else M(0) = M(1)(vec<int>(L[0]), vec<int>(L[1])); }
            else if (op == "permute") M(0) = M(1).blockPermute(vec<int>(L[0]), vec<int>(L[1]), vec<int>(L[2]), vec<int>(L[3]));
            else if (op == "getblock") M(0) = M(1).getBlock(a[2], a[3], a[4], a[5]);
            else if (op == "setblock") M(0).setBlock(a[1], a[2], M(3));
            else if (op == "transpose") M(0) = M(1).T();
            else if (op == "neg") M(0) = -M(1);
            else if (op == "addeq") { auto& r = (M(0) += M(1)); agree(&r == &M(0)); }
            else if (op == "subeq") { auto& r = (M(0) -= M(1)); agree(&r == &M(0)); }
            else if (op == "add") M(0) = M(1) + M(2);
            else if (op == "sub") M(0) = M(1) - M(2);
            else if (op == "addeqc") M(0) += a[1] * unit;
            else if (op == "subeqc") M(0) -= a[1] * unit;
            else if (op == "muleqc") M(0) *= (double) a[1];
            else if (op == "smul") M(0) = (double) a[2] * M(1);
            else if (op == "matvec") { Vector<double> x(D(0)); Vector<double> keep(x); auto y = M(0) * x; for (size_t i = 0; i < y.size(); i++) y[i] /= unit; out = ints(y); agree(x.data() == keep.data()); }
            else if (op == "matmul") { M(0) = M(1) * M(2); for (auto& x : M(0).dataNoConst()) x /= unit; }
            else if (op == "infnorm") out = {toInt(matrixInfNorm(M(0), M(1)) / unit)};
            else if (op == "blockdiag") { std::vector<Matrix<double>> v; for (auto k : L[0]) v.push_back(reg[k]); M(0) = blockDiagonalMatrix(v); }
            else if (op == "solvev") { Vector<double> b(D(0)); for (size_t i = 0; i < b.size(); i++) b[i] *= unit; Vector<double> keep(b); out = ints(solve(M(0), b)); agree(b.data() == keep.data()); }
            else if (op == "solvem") {
                Matrix<double> B(M(2)); for (auto& x : B.dataNoConst()) x *= unit;
                Matrix<double> keep(B), X = solve(M(1), B); agree(B.data() == keep.data());
                for (auto& x : X.dataNoConst()) { double r = nearbyint(x / unit); if (fabs(x / unit - r) < 1e-6) x = r * unit; }
                M(0) = X; out = ints(X.data());
            }
            else { std::cout << "unknown op " << op << std::endl; exit(3); }
        }
        catch (std::exception& e) { ok = false; out.clear(); }
        catch (long) { out = {NOT_AN_INT}; }
        return true;
    }
    std::string state() {
        std::string s = "[";
        for (int i = 0; i < 4; i++) {
            auto& m = reg[i];
            s += (i ? "," : "") + std::string("{\"r\":") + std::to_string(m.nrows()) + ",\"c\":" + std::to_string(m.ncols()) + ",\"d\":" + js(ints(m.data())) + "}";
        }
        return s + "]";
    }
};

template<class X> int loop(X& x, bool quiet_state) {
    Call c; bool ok; Ints out; std::string line;
    std::ios::sync_with_stdio(false);
    while (readCall(std::cin, c)) {
        if (!x.exec(c, ok, out)) continue;
        if (quiet_state && c.op == "state") continue;
        std::cout << "{\"op\":" << js(c.op) << ",\"a\":" << js(c.a) << ",\"L\":" << js(c.L) << ",\"ok\":" << (ok ? "true" : "false")
                  << ",\"out\":" << js(out) << ",\"reg\":" << x.state() << "}\n";
    }
    return 0;
}

int main(int argc, char** argv) {
    std::string mode = argv[1];
    MPI_Init(&argc, &argv);
    struct Fin { ~Fin() { MPI_Finalize(); } } fin;
    std::cerr.setstate(std::ios_base::failbit);
    bool q = argv[2][0] == 'q';
    if (mode != "vi") unit = std::ldexp(1.0, std::atoi(argv[3]));
    if (argc > 4) longest = std::atol(argv[4]);
    if (mode == "vd") { Vectors<double> v; return loop(v, q); }
    if (mode == "vi") { Vectors<int> v; return loop(v, q); }
    if (mode == "m") { Matrices m; return loop(m, q); }
    return 2;
}
