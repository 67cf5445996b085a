// Builds forests and EllipticForest::Quadtree objects, runs scripted traversals, merges and splits on them, and logs what
// the visitors are shown.  drv_tree <script> <log prefix>; every process writes <log prefix>.<rank>
#include "io.hpp"
#include "team.hpp"
#include "pmpi.hpp"
#include "EllipticForest.hpp"
#include "Patches/FiniteVolume/FiniteVolume.hpp"
#include <p4est_algorithms.h>
#include <fstream>
#include <memory>
#include <set>
using namespace EllipticForest;

struct Probe {
    long value = 0;
    std::string path;            // as given by the factory
    Vector<double> payload;      // some bulk, to vary message sizes
    long x = 0, y = 0, size = 0; // square of the node in units of the finest representable level
};
namespace EllipticForest { namespace MPI {
template<> int broadcast<Probe>(Probe& p, int root, MPI_Comm comm) {
    broadcast(p.value, root, comm); broadcast(p.path, root, comm); broadcast(p.payload, root, comm);
    broadcast(p.x, root, comm); broadcast(p.y, root, comm); broadcast(p.size, root, comm);
    return 0;
}
} }

static Ints digits(const std::string& path) { Ints r; for (size_t i = 1; i < path.size(); i++) r.push_back(path[i] - '0'); if (path.empty() || path[0] != '0') r.insert(r.begin(), 9); return r; }
static std::string pathOf(const Ints& d) { std::string s = "0"; for (auto x : d) s += std::to_string(x); return s; }
static Vector<double> bulk(long v) { return Vector<double>((std::size_t) (v % 5), (double) v); }

struct ProbeFactory : AbstractNodeFactory<Probe> {
    Node<Probe>* createNode(Probe d, std::string path, int level, int pf, int pl) override { return new Node<Probe>(TEAM, d, path, level, pf, pl); }
    Node<Probe>* createChildNode(Node<Probe>* parent, int k, int pf, int pl) override {
        Probe d; d.path = parent->data.path + std::to_string(k); d.size = parent->data.size / 2;
        d.x = parent->data.x + (k % 2) * d.size; d.y = parent->data.y + (k / 2) * d.size;
        return new Node<Probe>(TEAM, d, parent->path + std::to_string(k), parent->level + 1, pf, pl);
    }
    Node<Probe>* createParentNode(std::vector<Node<Probe>*> c, int pf, int pl) override {
        Probe d; d.path = c[0]->data.path.substr(0, c[0]->data.path.size() - 1);
        return new Node<Probe>(TEAM, d, d.path, c[0]->level - 1, pf, pl);
    }
};

static std::ofstream lg;
static long callno = 0;
static std::set<std::string> prune;
// what a visitor returns: 0 where the script says so, else any number but 0
static int answer(const std::string& path) { static const int yes[] = {1, 2, -1, 1 << 20}; return prune.count(path) ? 0 : yes[path.size() % 4]; }

static void begin(const Call& c) {
    lg << "{\"ev\":\"call\",\"op\":" << js(c.op) << ",\"a\":" << js(c.a) << ",\"L\":" << js(c.L) << "}\n"; lg.flush();
}
static void finish() { lg << "{\"ev\":\"end\"}\n"; lg.flush(); }

static std::set<std::string> branchSet;
static int refineFn(p4est_t*, p4est_topidx_t, p4est_quadrant_t* q) { return branchSet.count(p4est::p4est_quadrant_path(q)) ? 1 : 0; }
static p4est_t* makeForest(const Lists& L, int ranks, double size) {
    branchSet.clear();
    for (size_t i = 1; i < L.size(); i++) branchSet.insert(pathOf(L[i]));
    auto* conn = p4est::p4est_connectivity_new_square_domain(0, size, 0, size);
    p4est_t* f = p4est_new_ext(TEAM, conn, 0, 0, true, 0, NULL, NULL);
    p4est_refine(f, 1, refineFn, NULL);
    p4est_partition(f, 0, NULL);
    if (!L[0].empty()) {
        std::vector<p4est_locidx_t> n;
        for (int i = 0; i < ranks; i++) n.push_back(L[0][i]);
        p4est_partition_given(f, n.data());
    }
    return f;
}
static Lists localLeaves(p4est_t* f) {
    Lists r;
    for (p4est_topidx_t t = f->first_local_tree; t >= 0 && t <= f->last_local_tree; t++) {
        auto* tree = p4est_tree_array_index(f->trees, t);
        for (size_t i = 0; i < tree->quadrants.elem_count; i++) r.push_back(digits(p4est::p4est_quadrant_path(p4est_quadrant_array_index(&tree->quadrants, i))));
    }
    return r;
}

template<class T> void dumpTree(Quadtree<T>& t, std::function<Lists(T&)> rect) {
    int ranks; MPI_Comm_size(TEAM, &ranks);
    lg << "{\"ev\":\"dump\",\"nodes\":[";
    bool first = true;
    for (auto& [key, node] : t.map) {
        if (!node) continue;
        int me = -1; std::vector<int> mem;
        if (node->node_comm_set && node->node_comm != MPI_COMM_NULL) { mem = rec::members(node->node_comm, TEAM); PMPI_Comm_rank(node->node_comm, &me); }
        lg << (first ? "" : ",") << "{\"key\":" << js(digits(key)) << ",\"path\":" << js(digits(node->path)) << ",\"level\":" << node->level
           << ",\"leaf\":" << (node->leaf ? "true" : "false") << ",\"pfirst\":" << node->pfirst << ",\"plast\":" << node->plast
           << ",\"comm\":" << rec::list(mem) << ",\"me\":" << me << ",\"geo\":" << js(rect(node->data)) << "}";
        first = false;
    }
    lg << "]}\n";
    bool root = t.map.count("0") && t.map["0"] != nullptr;
    if (root) lg << "{\"ev\":\"root\",\"same\":" << (&t.root() == &t.map["0"]->data ? "true" : "false") << "}\n";
    lg.flush();
}

int main(int argc, char** argv) {
    MPI_Init(&argc, &argv);
    { struct Fin { ~Fin() { MPI_Finalize(); } } fin;
    team::join(); int rank = team::rank, ranks = team::ranks;
    sc_set_log_defaults(NULL, NULL, SC_LP_SILENT);
    lg.open(std::string(argv[2]) + team::suffix + "." + std::to_string(rank));
    std::ifstream in(std::string(argv[1]) + team::suffix);
    std::vector<p4est_t*> forests(16, nullptr);
    std::vector<Quadtree<Probe>*> trees(16, nullptr);
    std::vector<Quadtree<FiniteVolumePatch>*> fvtrees(4, nullptr);
    std::vector<Probe> roots(16);
    for (auto& r : roots) { r.path = "0"; r.size = 1 << 20; }
    ProbeFactory factory;
    FiniteVolumeSolver solver;
    FiniteVolumeNodeFactory fvfactory(TEAM);
    std::vector<FiniteVolumePatch*> fvroots;
    Call c;
    // a traversal run inside a visitor: the paths it visits, for the visit's own event
    long inTree = -1, inKind = 0; std::set<std::string> inAt;
    auto inner = [&](const std::string& p) -> std::string {
        if (inTree < 0 || !inAt.count(p)) return "";
        Lists seen;
        auto& t = *trees[inTree];
        std::function<int(Node<Probe>*)> byNode = [&](Node<Probe>* n) { seen.push_back(digits(n->path)); return 1; };
        std::function<void(Probe&)> byData = [&](Probe& d) { seen.push_back(digits(d.path)); };
        switch (inKind) {
            case 0: t.traversePreOrder(byNode); break;
            case 1: t.traversePostOrder(byNode); break;
            case 2: t.traversePreOrder(byData); break;
            default: t.traversePostOrder(byData);
        }
        return ",\"in\":" + js(seen);
    };
    auto P = [&](const std::string& p, const char* kind) { std::string in = inner(p); lg << "{\"ev\":\"" << kind << "\",\"p\":" << js(digits(p)) << in << "}\n"; };
    while (readCall(in, c)) {
        callno++;
        auto& a = c.a;
        begin(c);
        bool fam = c.op == "merge" || c.op == "split", trav = c.op.substr(0, 3) == "pre" || c.op.substr(0, 4) == "post";
        inTree = -1; inAt.clear();
        if ((trav && a.size() == 3) || (fam && a.size() == 4)) {     // ..., inner tree, inner kind; the list names the nodes whose visits run it
            inTree = a[a.size() - 2]; inKind = a[a.size() - 1];
            for (auto& p : c.L) inAt.insert(pathOf(p));
            c.L.clear();
        }
        rec::on = c.op == "tree" || c.op == "newtree" || c.op == "fvtree" || c.op == "merge" || c.op == "split" || c.op.substr(0, 3) == "pre" || c.op.substr(0, 4) == "post";
        if (c.op == "forest") {
            forests[a[0]] = makeForest(c.L, ranks, 1);
            lg << "{\"ev\":\"own\",\"leaves\":" << js(localLeaves(forests[a[0]])) << "}\n";
        }
        else if (c.op == "tree") {           // as Mesh does: assign a temporary
            if (!trees[a[0]]) trees[a[0]] = new Quadtree<Probe>();
            *trees[a[0]] = Quadtree<Probe>{TEAM, forests[a[1]], roots[a[0]], factory};
        }
        else if (c.op == "repeat") {         // a: tree, forest, times: built anew, as often as asked
            if (!trees[a[0]]) trees[a[0]] = new Quadtree<Probe>();
            for (long k = 0; k < a[2]; k++) *trees[a[0]] = Quadtree<Probe>{TEAM, forests[a[1]], roots[a[0]], factory};
        }
        else if (c.op == "big") {            // a: level; a uniform tree, too big to log: how many nodes it has and shows
            auto* f = p4est_new_ext(TEAM, p4est::p4est_connectivity_new_square_domain(0, 1, 0, 1), 0, a[0], true, 0, NULL, NULL);
            Quadtree<Probe> t; t = Quadtree<Probe>{TEAM, f, roots[0], factory};
            // each node counted by its first process only, so that the processes' counts add up
            long n = 0, leaves = 0, pre = 0, post = 0, sum[4];
            for (auto& [key, node] : t.map) if (node && node->pfirst == rank) { n++; leaves += node->leaf; }
            t.traversePreOrder(std::function<int(Node<Probe>*)>([&](Node<Probe>* x) { pre += x->pfirst == rank; return 1; }));
            t.traversePostOrder(std::function<int(Node<Probe>*)>([&](Node<Probe>* x) { post += x->pfirst == rank; return 1; }));
            long mine[4] = {n, leaves, pre, post};
            MPI_Allreduce(mine, sum, 4, MPI_LONG, MPI_SUM, TEAM);
            lg << "{\"ev\":\"big\",\"n\":" << js(Ints{sum[0], sum[1], sum[2], sum[3]}) << "}\n";
        }
        else if (c.op == "newtree") trees[a[0]] = new Quadtree<Probe>(TEAM, forests[a[1]], roots[a[0]], factory);
        else if (c.op == "movetree") {
            if (!trees[a[0]]) trees[a[0]] = new Quadtree<Probe>();
            *trees[a[0]] = std::move(*trees[a[1]]);
            // the moved-from object is gone: overwrite it, so that a tree still using it is noticed
            trees[a[1]]->map.clear(); trees[a[1]]->p4est = nullptr;
            trees[a[1]]->visit_node_fn = [](Node<Probe>*) { lg << "{\"ev\":\"stale\"}\n"; return 1; };
            trees[a[1]]->visit_node_data_fn = [](Probe&) { lg << "{\"ev\":\"stale\"}\n"; };
            trees[a[1]]->visit_family_fn = [](Node<Probe>*, std::vector<Node<Probe>*>) { lg << "{\"ev\":\"stale\"}\n"; return 1; };
            trees[a[1]] = nullptr;
        }
        else if (c.op == "dump") dumpTree<Probe>(*trees[a[0]], [](Probe& d) { return Lists{digits(d.path), {d.x, d.y, d.size, d.size}}; });
        else if (c.op == "fvtree") {         // a: id, forest, nx, ny, x0, y0, width, height
            FiniteVolumeGrid* g = new FiniteVolumeGrid(TEAM, (int) a[2], (double) a[4], (double) (a[4] + a[6]), (int) a[3], (double) a[5], (double) (a[5] + a[7]));
            auto* root = new FiniteVolumePatch(TEAM, *g);
            fvtrees[a[0]] = new Quadtree<FiniteVolumePatch>();
            *fvtrees[a[0]] = Quadtree<FiniteVolumePatch>{TEAM, forests[a[1]], *root, fvfactory};
        }
        else if (c.op == "fvdump") dumpTree<FiniteVolumePatch>(*fvtrees[a[0]], [](FiniteVolumePatch& d) {
            auto& g = d.grid();
            return Lists{{(long) g.nx(), (long) g.ny()}, {toInt(g.xLower(), 1048576), toInt(g.xUpper(), 1048576), toInt(g.yLower(), 1048576), toInt(g.yUpper(), 1048576)}};
        });
        else if (c.op == "pre" || c.op == "post") {
            prune.clear(); for (auto& p : c.L) prune.insert(pathOf(p));
            auto fn = [&](Node<Probe>* n) { P(n->path, "visit"); return answer(n->path); };
            if (c.op == "pre") trees[a[0]]->traversePreOrder(std::function<int(Node<Probe>*)>(fn)); else trees[a[0]]->traversePostOrder(std::function<int(Node<Probe>*)>(fn));
        }
        else if (c.op == "predata" || c.op == "postdata") {
            auto fn = [&](Probe& d) { P(d.path, "visit"); };
            if (c.op == "predata") trees[a[0]]->traversePreOrder(std::function<void(Probe&)>(fn)); else trees[a[0]]->traversePostOrder(std::function<void(Probe&)>(fn));
        }
        else if (c.op == "merge" || c.op == "split") {
            long stage = a[1];
            prune.clear(); for (auto& p : c.L) prune.insert(pathOf(p));
            auto leaf = [&](Node<Probe>* n) {
                std::string in = inner(n->path);
                lg << "{\"ev\":\"leaf\",\"p\":" << js(digits(n->path)) << ",\"see\":" << n->data.value << in << "}\n";
                long h = 0; for (auto d : digits(n->path)) h = (h * 5 + d + 1) % 9973;
                n->data.value = (n->data.value * 3 + h + stage) % 9973;
                n->data.payload = bulk(n->data.value);
                return answer(n->path);
            };
            auto family = [&](Node<Probe>* n, std::vector<Node<Probe>*> ch) {
                Ints see, lev, lf, bulks; Lists paths;
                std::string in = inner(n->path);
                for (auto* k : ch) {
                    see.push_back(k ? k->data.value : -1); paths.push_back(k ? digits(k->path) : Ints{9}); lev.push_back(k ? k->level : -1); lf.push_back(k ? k->leaf : -1);
                    bool good = k && k->data.payload.size() == bulk(k->data.value).size() && k->data.payload.data() == bulk(k->data.value).data() && digits(k->data.path) == digits(k->path);
                    bulks.push_back(good);
                }
                lg << "{\"ev\":\"family\",\"p\":" << js(digits(n->path)) << ",\"see\":" << n->data.value << ",\"ch\":" << js(see) << ",\"chp\":" << js(paths)
                   << ",\"lev\":" << js(lev) << ",\"lf\":" << js(lf) << ",\"bulk\":" << js(bulks) << in << "}\n";
                if (ch.size() != 4 || !ch[0] || !ch[1] || !ch[2] || !ch[3]) { lg.flush(); MPI_Abort(MPI_COMM_WORLD, 4); }
                long s = n->data.value * 7 + stage;
                for (int i = 0; i < 4; i++) s += (i + 2) * ch[i]->data.value;
                n->data.value = s % 9973; n->data.payload = bulk(n->data.value);
                for (int i = 0; i < 4; i++) { ch[i]->data.value = (ch[i]->data.value + 3 * n->data.value + i) % 9973; ch[i]->data.payload = bulk(ch[i]->data.value); }
                return answer(n->path);
            };
            if (c.op == "merge") trees[a[0]]->merge(leaf, family); else trees[a[0]]->split(leaf, family);
        }
        else { std::cout << "unknown op " << c.op << std::endl; MPI_Abort(MPI_COMM_WORLD, 3); }
        rec::on = false;
        finish();
    }
    std::ofstream mp(std::string(argv[2]) + ".mpi." + std::to_string(team::world));
    for (auto& e : rec::events) mp << e << "\n";
    lg << "{\"ev\":\"done\"}\n"; lg.flush();
    }
    fflush(stdout);
    _Exit(0);
}
