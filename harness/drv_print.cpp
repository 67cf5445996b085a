// Prints things and records the text: drv_print <script> <log>.  Standard output of process r goes to <log>.out.r and is read back call by call.
// Every line of <log>.r: op, the process, its arguments, texts given (from character codes), and the text that came out.
#include "io.hpp"
#include "EllipticForest.hpp"
#include "Patches/FiniteVolume/FiniteVolume.hpp"
#include <fstream>
#include <unistd.h>
#include <fcntl.h>
using namespace EllipticForest;
template<class T> static T filled(T v, const Ints& x) { for (size_t k = 0; k < x.size(); k++) v[k] = x[k]; return v; }
static std::string text(const Ints& l) { std::string s; for (auto c : l) s += (char) c; return s; }

int main(int argc, char** argv) {
    int rank = 0; static int ac = 1; static char* av[2] = {argv[0], nullptr}; char** avp = av;
    std::string log = argv[2];
    int in0 = 1; static char* iv[2] = {argv[0], nullptr};
    if (!getenv("OMPI_COMM_WORLD_RANK")) rank = 0; else rank = atoi(getenv("OMPI_COMM_WORLD_RANK"));
    std::string out = log + ".out." + std::to_string(rank);
    int fd = open(out.c_str(), O_RDWR | O_CREAT | O_TRUNC | O_APPEND, 0600); dup2(fd, 1);
    off_t seen = 0;
    auto said = [&]() { std::cout.flush(); fflush(stdout); off_t e = lseek(fd, 0, SEEK_END); std::string s(e - seen, 0); if (e > seen && pread(fd, &s[0], e - seen, seen) != e - seen) s = "?"; seen = e; return s; };
    std::ofstream lg(log + "." + std::to_string(rank));
    auto line = [&](const std::string& op, const Call& c, const std::string& o) {
        lg << "{\"op\":" << js(op) << ",\"p\":" << rank << ",\"a\":" << js(c.a) << ",\"L\":" << js(c.L) << ",\"s\":[";
        for (size_t k = 0; k < c.L.size(); k++) lg << (k ? "," : "") << (op == "mat" || op == "vec" || op == "patch" ? "\"\"" : js(text(c.L[k])));
        lg << "],\"out\":" << js(o) << "}" << std::endl;
    };
    auto* app = new EllipticForestApp(&ac, &avp);
    line("begin", Call(), said());
    std::ifstream in(argv[1]); Call c; Options options;
    while (readCall(in, c)) {
        auto& a = c.a; auto& L = c.L; const std::string& op = c.op; std::ostringstream os; bool stream = true;
        if (op == "log" || op == "head") {          // how | text ...
            stream = false; bool h = op == "head"; std::string m = text(L[0]), t = L.size() > 1 ? text(L[1]) : "";
            if (a[0] == 0) { if (h) app->logHead(m); else app->log(m); }
            if (a[0] == 1) { if (h) app->logHead(m + "%i, %ld", (int) a[1], a[2]); else app->log(m + "%i, %ld", (int) a[1], a[2]); }
            if (a[0] == 2) { if (h) app->logHead(m + " %s.", t.c_str()); else app->log(m + " %s.", t.c_str()); }
            if (a[0] == 3) { if (h) app->logHead("%s%5.2f%%" + m, t.c_str(), a[1] / 4.0); else app->log("%s%5.2f%%" + m, t.c_str(), a[1] / 4.0); }
            if (a[0] == 4) { if (h) app->logger.logHead("%i%c%s" + m, (int) a[1], 'x', t.c_str()); else app->logger.log("%i%c%s" + m, (int) a[1], 'x', t.c_str()); }
        }
        else if (op == "set") {                     // kind value | key text
            stream = false; std::string k = text(L[0]); bool b = a[1];
            switch (a[0]) { case 0: options.setOption(k, b); break; case 1: options.setOption(k, (int) a[1]); break; case 2: options[k] = a[1] / 4.0; break; default: options[k] = text(L[1]); }
        }
        else if (op == "options") { const Options& o = options; os << o; }
        else if (op == "copied") { Options o = options; options = Options(o.optionsMap); os << options; }
        else if (op == "timer") { stream = false; std::string k = text(L[0]); app->addTimer(k); auto& t = app->timers[k]; if (a[0]) { t.start(); t.stop(); } }
        else if (op == "vec") { if (a[0]) { Vector<double> v(L[0].size()); for (size_t k = 0; k < L[0].size(); k++) v[k] = L[0][k] / 4.0; os << v; } else { Vector<int> v = filled(Vector<int>(L[0].size()), L[0]); os << v; } }
        else if (op == "mat") { long m = a[1], n = a[2]; if (a[0]) { Matrix<double> A(m, n); for (long k = 0; k < m * n; k++) A(k / n, k % n) = L[0][k] / 4.0; os << A; } else { Matrix<int> A(m, n); for (long k = 0; k < m * n; k++) A(k / n, k % n) = L[0][k]; os << A; } }
        else if (op == "node") { Node<FiniteVolumePatch> n(MPI_COMM_WORLD, FiniteVolumePatch(MPI_COMM_WORLD, FiniteVolumeGrid(MPI_COMM_WORLD, 4, 0, 1, 4, 0, 1)), text(L[0]), a[0], a[1], a[2]); os << n; }
        else if (op == "patch") {                   // nx ny box, coarsens | rows of X S T H as r c pairs | sizes of u g v f h w
            FiniteVolumePatch p(MPI_COMM_WORLD, FiniteVolumeGrid(MPI_COMM_WORLD, a[0], a[2] / 4.0, a[3] / 4.0, a[1], a[4] / 4.0, a[5] / 4.0)); p.n_coarsens = a[6]; auto& M = L[0]; auto& V = L[1];
            p.matrixX() = Matrix<double>(M[0], M[1], 1.0); p.matrixS() = Matrix<double>(M[2], M[3], 1.0); p.matrixT() = Matrix<double>(M[4], M[5], 1.0); p.matrixH() = Matrix<double>(M[6], M[7], 1.0);
            p.vectorU() = Vector<double>(V[0]); p.vectorG() = Vector<double>(V[1]); p.vectorV() = Vector<double>(V[2]); p.vectorF() = Vector<double>(V[3]); p.vectorH() = Vector<double>(V[4]); p.vectorW() = Vector<double>(V[5]);
            FiniteVolumePatch q = a[7] ? p : p; os << q.str(); os << "bytes " << toInt(q.dataSize() * 1048576.0) << "\n";
        }
        else { std::cerr << "unknown op " << op << std::endl; _Exit(3); }
        std::string o = said();
        line(op, c, stream ? os.str() + (o.empty() ? "" : "?" + o) : o);
    }
    delete app;
    line("end", Call(), said());
    lg.close();
    _Exit(0);
}
