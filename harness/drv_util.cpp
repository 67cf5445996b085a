// Options, caches, timers, single objects, XML trees, interpolants: one call per input line, one JSON line per call.
// The process's own arguments (from the first on) are options of the application object.
#include "io.hpp"
#include "EllipticForest.hpp"
#include <atomic>
#include <cstring>
#include <barrier>
#include <fstream>
#include <memory>
using namespace EllipticForest;

// ---- virtual time: a tick is 1/512 s, or as many nanoseconds as --ef-tick= says
static std::atomic<long> ticks{1000000}; static long tick = 1953125;
std::chrono::steady_clock::time_point std::chrono::_V2::steady_clock::now() noexcept { return time_point(nanoseconds(ticks.load() * tick)); }
static long inTicks(double s) { return toInt(s * 1e9 / tick, 1, 1e-3); }

static std::string text(const Ints& c) { return std::string(c.begin(), c.end()); }
static Ints codes(const std::string& s) { Ints r; for (unsigned char c : s) r.push_back(c); return r; }
static std::string value(const Options::OptionTypes& v) {
    Ints c; if (v.index() == 0) c = codes(std::get<0>(v)); else if (v.index() == 1) c = {std::get<1>(v)}; else if (v.index() == 2) c = codes(std::to_string(std::get<2>(v)));
    else { char b[64]; snprintf(b, 64, "%.8e", std::get<3>(v)); c = codes(b); }
    return "\"k\":" + std::to_string(v.index()) + ",\"v\":" + js(c);
}
static std::string show(const Options& o) {
    std::string s;
    for (auto& [n, v] : o.optionsMap) s += (s.empty() ? "" : ",") + ("{\"n\":" + js(codes(n))) + "," + value(v) + "}";
    return "[" + s + "]";
}
static void writeFile(const std::string& name, const Lists& L, size_t from, size_t n, bool end) {
    std::ofstream f(name, std::ios::binary);
    for (size_t i = from; i < from + n; i++) { f << text(L[i]); if (end || i + 1 < from + n) f << '\n'; }
}
static void parse(Options& o, const Lists& L) {
    std::vector<std::string> s{"program"}; for (auto& l : L) s.push_back(text(l));
    std::vector<char*> v; for (auto& x : s) v.push_back(x.data());
    v.push_back(nullptr);
    int argc = s.size(); char** argv = v.data();
    InputParser p(argc, argv); p.parse(o);
}

template<int K> struct Slow : GenericSingleton<Slow<K>> {
    inline static std::atomic<int> made{0};
    Slow() { made++; usleep(30000); }
};
template<int K> static void* take() { return &Slow<K>::getInstance(); }
template<int K> static int madeOf() { return Slow<K>::made; }
static void* (*takes[])() = {take<0>, take<1>, take<2>, take<3>};
static int (*mades[])() = {madeOf<0>, madeOf<1>, madeOf<2>, madeOf<3>};

struct Table { Vector<double> x, y; double ux, uy; std::unique_ptr<LinearInterpolant> f; };

int main(int argc, char** argv) {
    for (int k = 1; k < argc; k++) if (!strncmp(argv[k], "--ef-tick=", 10)) tick = atol(argv[k] + 10);
    FILE* out = fdopen(dup(1), "w"); dup2(2, 1);
    EllipticForestApp* app = new EllipticForestApp(&argc, &argv);
    Options opt; std::string where = ".";
    typedef DataCache<std::vector<long>> Cache;
    std::map<long, std::unique_ptr<Cache>> caches; std::map<long, std::vector<long>*> refs;
    std::map<long, std::unique_ptr<XMLNode>> nodes; std::map<XMLNode*, long> ids;
    std::map<long, std::unique_ptr<Table>> tables;
    auto timer = [&] (long id) -> Timer& { return app->timers[id == 0 ? "app-lifetime" : "t" + std::to_string(id)]; };
    Call c;
    while (readCall(std::cin, c)) {
        auto& a = c.a; auto& L = c.L; std::string x; long threw = 0; bool options = false;
        try {
            // options
            if (c.op == "new") { opt = Options(); options = true; }
            else if (c.op == "argv") { opt = app->options; options = true; }
            else if (c.op == "set") {
                options = true; std::string n = text(L[0]), v = text(L[1]); Options::OptionTypes w;
                if (a[0] == 0) w = v; else if (a[0] == 1) w = (bool) L[1][0]; else if (a[0] == 2) w = std::stoi(v); else w = std::stod(v);
                if (a[1] == 0) opt.setOption(n, w);
                else if (a[0] == 0) { if (a[1] == 1) opt[n] = v; else opt[n] = v.c_str(); }
                else if (a[0] == 1) opt[n] = (bool) L[1][0];
                else if (a[0] == 2) opt[n] = (int) std::stoi(v);
                else opt[n] = (double) std::stod(v);
            }
            else if (c.op == "file") { options = true; writeFile("o.ini", L, 0, L.size(), a[0]); opt.setFromFile("o.ini"); }
            else if (c.op == "nofile") { options = true; opt.setFromFile(text(L[0])); }
            else if (c.op == "args") { options = true; parse(opt, L); }
            else if (c.op == "exists") { options = true; x += ",\"found\":" + std::to_string((int) opt.optionExists(text(L[0]))); }
            else if (c.op == "values") {
                Options o; x += ",\"got\":["; bool first = true;
                for (auto& l : L) { auto v = o.checkValue(text(l)); x += (first ? "{" : ",{") + value(v) + "}"; first = false; }
                x += "]";
            }
            else if (c.op == "files") {
                std::string f, g; size_t at = 0; bool first = true;
                for (long n : a) {
                    Options o; writeFile("o.ini", L, at, n, true); o.setFromFile("o.ini");
                    f += (first ? "" : ",") + js(Lists(L.begin() + at, L.begin() + at + n)); g += (first ? "" : ",") + show(o); at += n; first = false;
                }
                x += ",\"files\":[" + f + "],\"got\":[" + g + "]"; L.clear(); a.clear();
            }
            // caches
            else if (c.op == "cnew") {
                std::map<std::string, std::vector<long>> m; for (size_t i = 0; i + 1 < L.size(); i += 2) m[text(L[i])] = L[i + 1];
                if (L.empty()) caches[a[0]] = std::make_unique<Cache>(); else caches[a[0]] = std::make_unique<Cache>(m);
            }
            else if (c.op == "ccopy") { auto n = std::make_unique<Cache>(*caches[a[1]]); caches[a[0]] = std::move(n); }
            else if (c.op == "cput") (*caches[a[0]])[text(L[0])] = L[1];
            else if (c.op == "chas") x += ",\"got\":" + std::to_string((int) caches[a[0]]->contains(text(L[0])));
            else if (c.op == "cget") x += ",\"val\":" + js((*caches[a[0]])[text(L[0])]);
            else if (c.op == "cref") refs[a[1]] = &(*caches[a[0]])[text(L[0])];
            else if (c.op == "cwrite") *refs[a[0]] = L[0];
            // timers
            else if (c.op == "tick") ticks += a[0];
            else if (c.op == "tadd") app->addTimer("t" + std::to_string(a[0]));
            else if (c.op == "tcopy") timer(a[0]) = timer(a[1]);
            else if (c.op == "start") timer(a[0]).start();
            else if (c.op == "stop") x += ",\"time\":" + std::to_string(inTicks(timer(a[0]).stop()));
            else if (c.op == "restart") timer(a[0]).restart();
            else if (c.op == "time") {
                x += ",\"times\":["; bool first = true;
                for (auto& [n, t] : app->timers) { x += std::string(first ? "" : ",") + "[" + (n[0] == 't' ? n.substr(1) : "0") + "," + std::to_string(inTicks(t.time())) + "]"; first = false; }
                x += "]";
            }
            else if (c.op == "app") {
                std::atomic<int> bad{0}; std::vector<std::thread> T;
                for (long i = 0; i < a[0]; i++) T.emplace_back([&] { if (&EllipticForestApp::getInstance() != app) bad++; });
                for (auto& t : T) t.join();
                if (&EllipticForestApp::getInstance() != app) bad++;
                x += ",\"same\":" + std::to_string(bad == 0);
            }
            else if (c.op == "single") {
                std::vector<void*> p(a[0]); std::barrier b(a[0]); std::vector<std::thread> T;
                for (long i = 0; i < a[0]; i++) T.emplace_back([&, i] { b.arrive_and_wait(); p[i] = takes[a[1]](); });
                for (auto& t : T) t.join();
                bool same = p[0] == takes[a[1]](); for (auto q : p) same = same && q && q == p[0];
                x += ",\"made\":" + std::to_string(mades[a[1]]()) + ",\"same\":" + std::to_string(same);
            }
            // XML
            else if (c.op == "xnode") {
                if (L[0].empty() && L[1].empty()) nodes[a[0]] = std::make_unique<XMLNode>(); else nodes[a[0]] = std::make_unique<XMLNode>(text(L[0]));
                nodes[a[0]]->data = text(L[1]); ids[nodes[a[0]].get()] = a[0];
            }
            else if (c.op == "xattr") nodes[a[0]]->addAttribute(text(L[0]), text(L[1]));
            else if (c.op == "xtext") nodes[a[0]]->data = text(L[0]);
            else if (c.op == "xchild") { if (a[2]) nodes[a[0]]->addChild(nodes[a[1]].get()); else nodes[a[0]]->addChild(*nodes[a[1]]); }
            else if (c.op == "xwrite") {
                XMLTree t(*nodes[a[0]]); std::string name = "x" + std::to_string(a[1]) + ".xml";
                for (long i = 0; i <= a[2]; i++) t.write(name);
                std::ifstream f(name, std::ios::binary); std::string l; Lists lines; while (std::getline(f, l)) lines.push_back(codes(l));
                x += ",\"lines\":" + js(lines);
            }
            else if (c.op == "xshow") {
                auto& n = *nodes[a[0]]; Ints k; for (auto* p : n.children) k.push_back(ids[p]);
                x += ",\"name\":" + js(codes(n.name)) + ",\"text\":" + js(codes(n.data)) + ",\"kids\":" + js(k) + ",\"attrs\":["; bool first = true;
                for (auto& [p, q] : n.attributes) { x += (first ? "" : ",") + js(Lists{codes(p), codes(q)}); first = false; }
                x += "]";
            }
            // interpolants
            else if (c.op == "inew") {
                auto t = std::make_unique<Table>(); t->x = Vector<double>(std::vector<double>(L[0].begin(), L[0].end())); t->y = Vector<double>(std::vector<double>(L[1].begin(), L[1].end()));
                t->ux = std::ldexp(1.0, a[1]); t->uy = std::ldexp(1.0, a[2]);       // units of points and values
                for (size_t i = 0; i < t->x.size(); i++) t->x[i] *= t->ux;
                for (size_t i = 0; i < t->y.size(); i++) t->y[i] *= t->uy;
                t->f = std::make_unique<LinearInterpolant>(t->x, t->y); tables[a[0]] = std::move(t);
            }
            else if (c.op == "iat") { auto& t = *tables[a[0]]; Ints g; for (long q : L[0]) g.push_back(toInt((*t.f)(q / 4.0 * t.ux) / t.uy, 32)); x += ",\"got\":" + js(g); }
            else if (c.op == "iall") {
                auto& t = *tables[a[0]]; Vector<double> q(L[0].size()); for (size_t i = 0; i < L[0].size(); i++) q[i] = L[0][i] / 4.0 * t.ux;
                Vector<double> y = (*t.f)(q); Ints g; for (size_t i = 0; i < y.size(); i++) g.push_back(toInt(y[i] / t.uy, 32));
                for (size_t i = 0; i < L[0].size(); i++) if (q[i] != L[0][i] / 4.0 * t.ux) g.push_back(NOT_AN_INT);      // the points asked for stay
                x += ",\"got\":" + js(g);
            }
            else { fprintf(stderr, "unknown call %s\n", c.op.c_str()); return 3; }
        } catch (std::exception& e) { threw = 1; x.clear(); }
        fprintf(out, "{\"op\":\"%s\",\"a\":%s,\"L\":%s,\"threw\":%ld%s%s}\n", c.op.c_str(), js(a).c_str(), js(L).c_str(), threw, x.c_str(), options ? (",\"options\":" + show(opt)).c_str() : "");
        fflush(out);
    }
    PetscFinalize(); MPI_Finalize();
    _Exit(0);
}
