// Runs scripts of transfers; every process writes one JSON line per call to <log>.<rank>.   drv_mpi <script> <log>
#include "io.hpp"
#include "EllipticForest.hpp"
#include "Patches/FiniteVolume/FiniteVolume.hpp"
#include <fstream>
#include <memory>
using namespace EllipticForest;
namespace EF = EllipticForest::MPI;
typedef unsigned long long u64;
static u64 mix(u64& s) { s += 0x9e3779b97f4a7c15ull; u64 z = s; z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull; z = (z ^ (z >> 27)) * 0x94d049bb133111ebull; return z ^ (z >> 31); }

// ---- making and rendering values
template<class T> std::enable_if_t<std::is_arithmetic_v<T>> make(T& x, u64& s, long) {
    u64 r = mix(s);
    if constexpr (std::is_same_v<T, bool>) x = r & 1;
    else if (r % 7 == 0) x = std::numeric_limits<T>::max(); else if (r % 7 == 1) x = std::numeric_limits<T>::lowest(); else if (r % 7 == 2) x = 0;
    else if constexpr (std::is_floating_point_v<T>) x = (T) ((double) (long) mix(s) / 3.0e9); else x = (T) mix(s);
}
template<class T> std::enable_if_t<std::is_arithmetic_v<T>, std::string> show(T& x) {
    char b[64];
    if constexpr (std::is_floating_point_v<T>) snprintf(b, 64, "%La", (long double) x); else if constexpr (std::is_signed_v<T>) snprintf(b, 64, "%lld", (long long) x); else snprintf(b, 64, "%llu", (u64) x);
    return b;
}
static std::string brief(const std::string& s, size_t n) {      // long sequences by length and two hashes
    if (s.size() < 160) return s;
    u64 h = 1469598103934665603ull, g = 7; for (unsigned char c : s) { h = (h ^ c) * 1099511628211ull; g = g * 31 + c; }
    return std::to_string(n) + "#" + std::to_string(h) + "#" + std::to_string(g);
}
static void make(std::string& x, u64& s, long n) { x.resize(n); if (n > 1000000) { std::fill(x.begin(), x.end(), (char) mix(s)); } else for (auto& c : x) c = (char) mix(s); }
static std::string show(std::string& x) { if (x.size() > 1000) return "s" + brief(x, x.size()); std::string r; for (unsigned char c : x) r += std::to_string(c) + " "; return "s" + std::to_string(x.size()) + ":" + brief(r, x.size()); }
template<class T> void make(std::vector<T>& x, u64& s, long n) { x.resize(n); for (auto& c : x) make(c, s, 0); }
template<class T> std::string show(std::vector<T>& x) { std::string r; for (auto& c : x) r += show(c) + " "; return "v" + std::to_string(x.size()) + ":" + brief(r, x.size()); }
template<class T> void make(Vector<T>& x, u64& s, long n) { std::vector<T> v; make(v, s, n); x = Vector<T>(v); }
template<class T> std::string show(Vector<T>& x) { auto v = x.data(); return std::to_string(x.size()) + show(v); }
template<class T> void make(Matrix<T>& x, u64& s, long n) { long r = n ? 1 + mix(s) % n : mix(s) % 2, c = r ? n / r : 0; std::vector<T> v; make(v, s, r * c); x = Matrix<T>((std::size_t) r, (std::size_t) c, v); }
template<class T> std::string show(Matrix<T>& x) { auto v = x.data(); return std::to_string(x.nrows()) + "x" + std::to_string(x.ncols()) + show(v); }
static void make(FiniteVolumeGrid& g, u64& s, long n) {
    double x = (long) (mix(s) % 99) - 50, y = (long) (mix(s) % 99) - 50;
    g = FiniteVolumeGrid(MPI_COMM_WORLD, 1 + mix(s) % (n + 1), x, x + 1 + mix(s) % 9, 1 + mix(s) % (n + 1), y, y + 1 + mix(s) % 9);
}
static std::string show(FiniteVolumeGrid& g) {
    std::string r = std::to_string(g.nx()) + "x" + std::to_string(g.ny());
    for (double d : {g.xLower(), g.xUpper(), g.yLower(), g.yUpper(), g.dx(), g.dy(), (double) g(0, 0), (double) g(1, g.ny() - 1)}) r += " " + show(d);
    return r;
}
static void make(FiniteVolumePatch& p, u64& s, long n) {
    FiniteVolumeGrid g; make(g, s, n % 9); p.grid() = g;
    p.n_coarsens = mix(s) % 5;
    for (auto* m : {&p.matrixX(), &p.matrixH(), &p.matrixS(), &p.matrixT()}) make(*m, s, mix(s) % (n + 1));
    for (auto* v : {&p.vectorU(), &p.vectorG(), &p.vectorV(), &p.vectorF(), &p.vectorH(), &p.vectorW()}) make(*v, s, mix(s) % (n + 1));
}
static std::string show(FiniteVolumePatch& p) {
    std::string r = show(p.grid()) + " n" + std::to_string(p.n_coarsens);
    for (auto* m : {&p.matrixX(), &p.matrixH(), &p.matrixS(), &p.matrixT()}) r += " " + show(*m);
    for (auto* v : {&p.vectorU(), &p.vectorG(), &p.vectorV(), &p.vectorF(), &p.vectorH(), &p.vectorW()}) r += " " + show(*v);
    return r;
}
template<class T> void make(Node<T>& x, u64& s, long n) {
    make(x.data, s, n); x.path = "0"; for (u64 k = mix(s) % 20; k > 0; k--) x.path += '0' + mix(s) % 4;
    x.level = mix(s) % 20; x.pfirst = mix(s) % 9; x.plast = mix(s) % 9; x.leaf = mix(s) & 1;
}
template<class T> std::string show(Node<T>& x) { return show(x.data) + " " + x.path + " " + std::to_string(x.level) + " " + std::to_string(x.pfirst) + " " + std::to_string(x.plast) + " " + std::to_string(x.leaf); }

struct Slot { virtual void set(u64 s, long n) = 0; virtual std::string str() = 0; virtual void send(int d, int t, MPI_Comm c) = 0; virtual void recv(int s, int t, MPI_Comm c, MPI_Status*) = 0; virtual void bcast(int r, MPI_Comm c) = 0; };
template<class T, bool P2P> struct Typed : Slot {
    T x;
    Typed() : x() {}
    void set(u64 s, long n) { make(x, s, n); }
    std::string str() { return show(x); }
    void send(int d, int t, MPI_Comm c) { if constexpr (P2P) EF::send(x, d, t, c); else abort(); }
    void recv(int s, int t, MPI_Comm c, MPI_Status* st) { if constexpr (P2P) EF::receive(x, s, t, c, st); else abort(); }
    void bcast(int r, MPI_Comm c) { EF::broadcast(x, r, c); }
};
template<class... T> void add(std::vector<std::unique_ptr<Slot>>& v) { (v.push_back(std::make_unique<Typed<T, true>>()), ...); }

template<class T> Ints ints(const T& v) { Ints r; for (size_t i = 0; i < v.size(); i++) r.push_back(toInt(v[i])); return r; }
template<class V, class T> void gatherIn(const Ints& mine, const Ints& prev, std::vector<int> counts, std::vector<int> disp, bool even, MPI_Comm c, Ints& got, Ints& own) {
    std::vector<T> a(mine.begin(), mine.end()), b(prev.begin(), prev.end()); V s(a), r(b);
    if (even) EF::allgather(s, r, counts[0], c); else EF::allgatherv(s, r, counts, disp, c);
    got = ints(r); own = ints(s);
}

int main(int argc, char** argv) {
    static int ac = 1; static char* av[2] = {argv[0], nullptr}; char** avp = av;
    std::cout.setstate(std::ios::failbit); freopen("/dev/null", "w", stdout);
    new EllipticForestApp(&ac, &avp);
    int rank; MPI_Comm_rank(MPI_COMM_WORLD, &rank);
    std::ofstream lg(std::string(argv[2]) + "." + std::to_string(rank));
    std::ifstream in(argv[1]);
    std::vector<std::unique_ptr<Slot>> slots;
    for (int k = 0; k < 2; k++) {
        add<char, wchar_t, short, int, long, signed char, unsigned char, unsigned short, unsigned int, unsigned long, unsigned long long, float, double, long double, bool,
            std::string, std::vector<int>, std::vector<double>, std::vector<char>, Vector<double>, Vector<int>, Matrix<double>, Matrix<int>, Node<double>, Node<Vector<double>>>(slots);
        slots.push_back(std::make_unique<Typed<FiniteVolumeGrid, false>>());
        slots.push_back(std::make_unique<Typed<FiniteVolumePatch, false>>());
        slots.push_back(std::make_unique<Typed<Node<FiniteVolumePatch>, false>>());
    }
    std::vector<MPI_Comm> comms(64, MPI_COMM_NULL); comms[0] = MPI_COMM_WORLD;
    Call c;
    while (readCall(in, c)) {
        auto& a = c.a; auto& L = c.L; MPI_Status st;
        lg << "{\"op\":" << js(c.op) << ",\"a\":" << js(a) << ",\"L\":" << js(L); lg.flush();
        try {
        auto me = [&](MPI_Comm cm) { int r = -1; if (cm != MPI_COMM_NULL) MPI_Comm_rank(cm, &r); return r; };
        if (c.op == "set") slots[a[0]]->set(a[1] * 64 + rank, a[2 + rank]);                          // slot seed size..
        else if (c.op == "show") ;
        else if (c.op == "send") { if (me(comms[a[1]]) == a[2]) slots[a[0]]->send(a[3], a[4], comms[a[1]]); }      // slot comm src dst tag
        else if (c.op == "recv") { if (me(comms[a[1]]) == a[3]) slots[a[0]]->recv(a[2], a[4], comms[a[1]], a[5] ? &st : MPI_STATUS_IGNORE); }
        else if (c.op == "bcast") { if (me(comms[a[1]]) >= 0) slots[a[0]]->bcast(a[2], comms[a[1]]); }               // slot comm root
        else if (c.op == "gather") {     // comm kind disp.. | pieces.. | previous content
            MPI_Comm cm = comms[a[0]]; int r = me(cm); Ints got, own;
            if (r >= 0) {
                size_t n = L.size() - 1; std::vector<int> counts, disp(a.begin() + 2, a.end()); for (size_t i = 0; i < n; i++) counts.push_back(L[i].size());
                long k = a[1] / 2; bool even = a[1] % 2;
                if (k == 0) gatherIn<std::vector<int>, int>(L[r], L[n], counts, disp, even, cm, got, own);
                else if (k == 1) gatherIn<std::vector<double>, double>(L[r], L[n], counts, disp, even, cm, got, own);
                else if (k == 2) gatherIn<Vector<int>, int>(L[r], L[n], counts, disp, even, cm, got, own);
                else if (k == 3) gatherIn<Vector<double>, double>(L[r], L[n], counts, disp, even, cm, got, own);
                else { std::vector<long> b(L[n].begin(), L[n].end()); long x = L[r][0];
                       if (even) EF::allgather(x, b[0], 1, cm); else EF::allgatherv(x, b[0], counts, disp, cm);
                       got = ints(b); own = {x}; }
            }
            lg << ",\"got\":" << js(got) << ",\"own\":" << js(own);
        }
        else if (c.op == "reduce") {     // comm kind op | pieces..
            MPI_Comm cm = comms[a[0]]; int r = me(cm); Ints got, own; MPI_Op op = a[2] == 0 ? MPI_SUM : a[2] == 1 ? MPI_MAX : MPI_MIN;
            if (r >= 0) {
                if (a[1] == 0) { int x = L[r][0], y = 5; EF::allreduce(x, y, op, cm); got = {y}; own = {x}; }
                else if (a[1] == 1) { double x = L[r][0], y = 5; EF::allreduce(x, y, op, cm); got = {toInt(y)}; own = {toInt(x)}; }
                else if (a[1] == 2) { long x = L[r][0], y = 5; EF::allreduce(x, y, op, cm); got = {y}; own = {x}; }
                else { std::vector<double> x(L[r].begin(), L[r].end()), y(x.size(), 3); EF::allreduce(x, y, op, cm); got = ints(y); own = ints(x); }
            }
            lg << ",\"got\":" << js(got) << ",\"own\":" << js(own);
        }
        else if (c.op == "comm") {       // new super first last
            comms[a[0]] = MPI_COMM_NULL;
            if (comms[a[1]] != MPI_COMM_NULL) EF::communicatorSubsetRange(comms[a[1]], a[2], a[3], 1000 + (int) a[0] /* this MPI library sends under that tag too */, &comms[a[0]]);
            int n = 0; if (comms[a[0]] != MPI_COMM_NULL) MPI_Comm_size(comms[a[0]], &n);
            lg << ",\"rank\":" << me(comms[a[0]]) << ",\"size\":" << n;
        }
        else if (c.op == "name") {
            Ints got; if (comms[a[0]] != MPI_COMM_NULL) { EF::communicatorSetName(comms[a[0]], std::string(L[0].begin(), L[0].end())); for (unsigned char ch : EF::communicatorGetName(comms[a[0]])) got.push_back(ch); }
            lg << ",\"got\":" << js(got);
        }
        else { std::cerr << "unknown op " << c.op << std::endl; MPI_Abort(MPI_COMM_WORLD, 3); }
        if (c.op == "set" || c.op == "show" || c.op == "send" || c.op == "recv" || c.op == "bcast") lg << ",\"s\":" << js(slots[a[0]]->str());
        lg << ",\"threw\":0}" << std::endl;
        } catch (const std::exception& e) { lg << ",\"threw\":1,\"what\":" << js(std::string(e.what()).substr(0, 200)) << "}" << std::endl; }
    }
    lg.close();
    MPI_Finalize(); fflush(stdout);
    _Exit(0);
}
