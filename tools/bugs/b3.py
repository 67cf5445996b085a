QT='src/Quadtree.hpp'; HP='src/HPSAlgorithm.hpp'; FP='src/Patches/FiniteVolume/FiniteVolumePatch.cpp'; MS='src/Mesh.hpp'; MC='src/MPI.cpp'; OP='src/Options.cpp'
FS='src/Patches/FiniteVolume/FiniteVolumeSolver.cpp'; FN='src/Patches/FiniteVolume/FiniteVolumeNodeFactory.cpp'; MA='src/Matrix.hpp'; AP='src/EllipticForestApp.cpp'; XT='src/XMLTree.cpp'; VK='src/VTK.cpp'; PE='src/P4est.cpp'
BUGS=[
dict(id='b16-small-jumps-dropped', property='C01', needs='a load of tiny magnitude (a problem in small units)',
 breaks='the contribution of the load at the interfaces is dropped when it is small in absolute terms',
 edits=[(HP, '''        tau.vectorW() = solve(tau.matrixX(), hDiff);
''', '''        Vector<double> no_jump(hDiff.size(), 0);
        if (vectorInfNorm(hDiff, no_jump) < 1e-9) {
            tau.vectorW() = no_jump;
        }
        else {
            tau.vectorW() = solve(tau.matrixX(), hDiff);
        }
''')],
 demo=r'''
// the solve is linear: a load a billion times smaller gives a solution a billion times smaller
int main(int argc, char** argv) {
    start(argc, argv);
    Setup s(forest({"0"}, 0, 1, 0, 1), 4, 0, 1, 0, 1);
    s.hps.buildStage();
    auto run = [&](double c) {
        s.hps.upwardsStage([=](double x, double y) { return c * (1 + x * y); });
        s.hps.solveStage([](int, double, double, double* a, double* b) { *a = 1; *b = 0; return 0.0; });
        std::vector<double> v;
        s.leaves([&](Node<FiniteVolumePatch>* n) { for (double e : n->data.vectorU().data()) v.push_back(e / c); });
        return v;
    };
    auto one = run(1), tiny = run(1e-12);
    for (size_t i = 0; i < one.size(); i++) EXPECT(fabs(one[i] - tiny[i]) < 1e-8);
    return finish();
}'''),
dict(id='b17-shared-child-not-sent', property='C06', np=4, needs='a child held by all but the last of the three or more processes of its family',
 breaks='the holders of a child skip its distribution although one process of the family is still missing it',
 edits=[(QT, '''						int maybe_root = (am_root ? nodeRank : 0);
''', '''						int maybe_root = (am_root ? nodeRank : 0);

						// A child that lives on all ranks of the family is known to all of them
						if (am_root && child->pfirst < child->plast && child->pfirst == node->pfirst && child->plast + 1 >= node->plast) {
							children[i] = child;
							continue;
						}
''')],
 demo=r'''
// every distribution of seven leaves over four processes: a merge ends, with all children delivered
int main(int argc, char** argv) {
    start(argc, argv);
    alarm(60);                                     // a merge that never ends
    for (int a = 1; a <= 4; a++) for (int b = 1; a + b <= 5; b++) for (int c = 1; a + b + c <= 6; c++) {
        Setup s(forest({"0", "00"}, 0, 1, 0, 1, {a, b, c, 7 - a - b - c}), 4, 0, 1, 0, 1);
        int families = 0;
        s.mesh.quadtree.merge([](Node<FiniteVolumePatch>*) { return 1; }, [&](Node<FiniteVolumePatch>* n, std::vector<Node<FiniteVolumePatch>*> ch) {
            families++;
            for (int i = 0; i < 4; i++) EXPECT(ch[i] && ch[i]->path == n->path + std::to_string(i));
            return 1; });
        EXPECT(families >= 1);
    }
    return finish();
}'''),
dict(id='b18-paths-as-numbers', property='C07', needs='patches more than nine levels below the root',
 breaks='paths of deep patches do not spell their positions, since they are put together in an int',
 edits=[(PE, '''    std::string path = "";
    for (int l = q->level; l != 0; l--) {
        path += std::to_string(p4est_quadrant_ancestor_id(q, l));
    }
    std::reverse(path.begin(), path.end());
''', '''    // The child positions are the digits of a number
    unsigned int digits = 0;
    for (int l = 1; l <= q->level; l++) {
        digits = 10*digits + p4est_quadrant_ancestor_id(q, l);
    }
    std::string path = q->level > 0 ? std::to_string(digits) : "";
    while ((int) path.length() < q->level) path = "0" + path;
''')],
 demo=r'''
int main(int argc, char** argv) {
    start(argc, argv);
    for (char d : {'0', '2', '3'}) {
        std::set<std::string> branches; std::string p = "0";
        for (int l = 0; l < 11; l++) { branches.insert(p); p += d; }
        for (int l = 1; l <= 11; l++) {            // the quadrants on the way down
            p4est_quadrant_t q; memset(&q, 0, sizeof q); q.level = l;
            for (int k = 1; k <= l; k++) { if ((d - '0') & 1) q.x |= P4EST_QUADRANT_LEN(k); if ((d - '0') & 2) q.y |= P4EST_QUADRANT_LEN(k); }
            EXPECT(p4est::p4est_quadrant_path(&q) == "0" + std::string(l, d));
        }
    }
    return finish();
}'''),
dict(id='b19-lower-children-start-with-parent', property='C08', np=3, needs='a family whose first child ends exactly at the end of a process, the second being a branch or leaf of the next one',
 breaks='the second child of a family is recorded as beginning on the first process of its parent',
 edits=[(FN, '''    int level = parent_node->level + 1;
    return new Node<FiniteVolumePatch>(this->getComm(), child_patch, path, level, pfirst, plast);
''', '''    int level = parent_node->level + 1;

    // The lower children start on the first rank of the parent
    if (sibling_id < 2 && parent_node->level > 0) {
        pfirst = parent_node->pfirst;
    }
    return new Node<FiniteVolumePatch>(this->getComm(), child_patch, path, level, pfirst, plast);
''')],
 demo=r'''
int main(int argc, char** argv) {
    start(argc, argv);
    for (int a = 1; a <= 5; a++) for (int b = 1; a + b <= 6; b++) {
        Setup s(forest({"0", "00"}, 0, 1, 0, 1, {a, b, 7 - a - b}), 4, 0, 1, 0, 1);
        int rank; MPI_Comm_rank(MPI_COMM_WORLD, &rank);
        for (auto& [path, node] : s.mesh.quadtree.map) if (node) {
            EXPECT(node->pfirst <= rank && rank <= node->plast);
            if (node->leaf) EXPECT(node->pfirst == node->plast);
            int size; MPI_Comm_size(node->node_comm, &size);
            EXPECT(size == node->plast - node->pfirst + 1);
        }
    }
    return finish();
}'''),
dict(id='b20-long-side-inside', property='C12', needs='patches with more cells in y than in x, or the reverse',
 breaks='cells are visited y outer and x inner on patches with more cells in x than in y',
 edits=[(MS, '''                for (int i = 0; i < nx; i++) {
                    double xc = grid(0, i);
                    for (int j = 0; j < ny; j++) {
                        double yc = grid(1, j);
                        fn(xc, yc);
                    }
                }
''', '''                // Keep the longer side in the inner loop
                bool x_inner = nx > ny;
                for (int i = 0; i < (x_inner ? ny : nx); i++) {
                    for (int j = 0; j < (x_inner ? nx : ny); j++) {
                        double xc = grid(0, x_inner ? j : i);
                        double yc = grid(1, x_inner ? i : j);
                        fn(xc, yc);
                    }
                }
''')],
 demo=r'''
int main(int argc, char** argv) {
    start(argc, argv);
    FiniteVolumeGrid grid(MPI_COMM_WORLD, 6, 0, 1, 4, 0, 1); FiniteVolumePatch root(MPI_COMM_WORLD, grid); FiniteVolumeNodeFactory factory(MPI_COMM_WORLD);
    Mesh<FiniteVolumePatch> mesh(MPI_COMM_WORLD, forest({"0"}, 0, 1, 0, 1), root, factory);
    std::vector<std::pair<double, double>> want, got;
    mesh.iteratePatches([&](FiniteVolumePatch& p) { auto& g = p.grid(); for (size_t i = 0; i < g.nx(); i++) for (size_t j = 0; j < g.ny(); j++) want.push_back({g(0, i), g(1, j)}); });
    mesh.iterateCells([&](double x, double y) { got.push_back({x, y}); });
    EXPECT(want.size() == got.size());
    for (size_t k = 0; k < want.size() && k < got.size(); k++) EXPECT(fabs(want[k].first - got[k].first) < 1e-12 && fabs(want[k].second - got[k].second) < 1e-12);
    return finish();
}'''),
dict(id='b21-arrays-written-once', property='C13', needs='a second output after the values of a mesh function changed in place',
 breaks='later outputs repeat the values an array had at the first one',
 edits=[(VK, '''    XMLNode* node_data_array = new XMLNode("DataArray");
''', '''    // Each array has one node
    static std::map<DataArrayNodeBase*, XMLNode*> nodes;
    auto found = nodes.find(this);
    if (found != nodes.end() && found->second->attributes[1].second == getName()) {
        return found->second;
    }
    XMLNode* node_data_array = new XMLNode("DataArray");
    nodes[this] = node_data_array;
''')],
 demo=r'''
int main(int argc, char** argv) {
    start(argc, argv);
    char dir[] = "/tmp/demo.XXXXXX"; if (!mkdtemp(dir)) return 1;
    std::string base = std::string(dir) + "/out";
    {
        Setup s(forest({"0"}, 0, 1, 0, 1), 4, 0, 1, 0, 1);
        Vector<double> u(64, 1.0); u.name() = "u";
        s.mesh.addMeshFunction(u);
        s.mesh.toVTK(base, 0);
        for (int i = 0; i < 64; i++) u[i] = 7.0;
        s.mesh.toVTK(base, 1);
    }
    auto count = [&](std::string file, std::string what) {
        std::ifstream in(file); std::stringstream t; t << in.rdbuf(); std::string s = t.str();
        size_t k = s.find("Name=\"u\""); if (k == std::string::npos) return -1;
        s = s.substr(s.find('>', k) + 1); s = s.substr(0, s.find("</DataArray>"));
        std::stringstream v(s); int n = 0; double e; while (v >> e) n += e == std::stod(what); return n; };
    EXPECT(count(base + "-mesh-0000_0000.vtu", "1") == 64);
    EXPECT(count(base + "-mesh-0001_0000.vtu", "7") == 64);
    std::string rm = "rm -r " + std::string(dir); if (system(rm.c_str())) return 1;
    return finish();
}'''),
dict(id='b22-parents-are-square', property='C14', needs='the parent of patches with different numbers of cells in x and y',
 breaks='the parent of four nodes gets as many cells in y as in x',
 edits=[(FN, '''    FiniteVolumeGrid parent_grid(this->getComm(), nx, x_lower, x_upper, ny, y_lower, y_upper);
''', '''    FiniteVolumeGrid parent_grid(this->getComm(), nx, x_lower, x_upper, nx, y_lower, y_upper);
''')],
 demo=r'''
int main(int argc, char** argv) {
    start(argc, argv);
    FiniteVolumeGrid grid(MPI_COMM_WORLD, 6, -1, 2, 4, 0, 5); FiniteVolumePatch patch(MPI_COMM_WORLD, grid); FiniteVolumeNodeFactory factory(MPI_COMM_WORLD);
    auto* node = factory.createNode(patch, "0", 0, 0, 0);
    std::vector<Node<FiniteVolumePatch>*> ch;
    for (int i = 0; i < 4; i++) ch.push_back(factory.createChildNode(node, i, 0, 0));
    auto* back = factory.createParentNode(ch, 0, 0);
    auto& g = back->data.grid();
    EXPECT(g.nx() == 6 && g.ny() == 4 && fabs(g.dy() - 1.25) < 1e-12 && fabs(g.dx() - 0.5) < 1e-12);
    EXPECT(back->path == "0" && back->level == 0);
    return finish();
}'''),
dict(id='b23-cancelling-loads-ignored', property='C16', needs='a load whose entries cancel',
 breaks='the particular Neumann data of a load that sums to zero is taken as zero',
 edits=[(FS, '''    Vector<double> g_zero(2*grid.nx() + 2*grid.ny(), 0);
    return mapD2N''', '''    Vector<double> g_zero(2*grid.nx() + 2*grid.ny(), 0);

    // Nothing to do without a load
    double total = 0;
    for (auto i = 0; i < rhs_data.size(); i++) total += rhs_data[i];
    if (total == 0) {
        return g_zero;
    }
    return mapD2N''')],
 demo=r'''
int main(int argc, char** argv) {
    start(argc, argv);
    Setup s(forest({}, 0, 1, 0, 1), 4, 0, 1, 0, 1);
    Vector<double> f(16, 0.0), zero(16, 0.0); f[0] = 3; f[15] = -3;
    Vector<double> h = s.solver.particularNeumannData(s.grid, f);
    Vector<double> g0(16, 0.0), direct = s.solver.mapD2N(s.grid, g0, f);
    EXPECT(vectorInfNorm(h, direct) < 1e-12);
    return finish();
}'''),
dict(id='b24-third-coarsening', property='C17', needs='siblings of which one is eight times the size of another',
 breaks='the load data of a patch eight times finer than its sibling is averaged with the wrong sizes',
 edits=[(HP, '''                int nfine = ngrid / pow(2, n);
''', '''                int nfine = ngrid / (n + 1);
''')],
 demo=r'''
int main(int argc, char** argv) {
    start(argc, argv);
    std::set<std::string> b = {"0", "03"}; for (char c = '0'; c < '4'; c++) { b.insert(std::string("03") + c); for (char d = '0'; d < '4'; d++) b.insert(std::string("03") + c + d); }
    Setup s(forest(b, 0, 1, 0, 1), 4, 0, 1, 0, 1);
    bool fine = true;
    try {
        s.hps.buildStage();
        s.hps.upwardsStage([](double, double) { return 0.0; });
        s.hps.solveStage([](int, double x, double y, double* a, double* b) { *a = 1; *b = 0; return 1 + 2 * x - y; });
    } catch (std::exception&) { fine = false; }
    EXPECT(fine);
    if (fine) EXPECT(s.error([](double x, double y) { return 1 + 2 * x - y; }) < 1e-8);
    return finish();
}'''),
dict(id='b25-tiny-products', property='C21', needs='matrices with entries of tiny magnitude',
 breaks='entries of a product that are small in absolute terms are set to zero',
 edits=[(MA, '''	return CT.T();
''', '''    // Clean up round-off
    for (auto& entry : CT.dataNoConst()) {
        if (fabs(entry) < 1e-14) entry = 0;
    }

	return CT.T();
''')],
 demo=r'''
int main(int argc, char** argv) {
    start(argc, argv);
    Matrix<double> A(2, 3, {1e-9, 2e-9, 3e-9, -1e-9, 0, 1e-9}), B(3, 1, {1e-8, 1e-8, 2e-8});
    Matrix<double> C = A * B;
    EXPECT(fabs(C(0, 0) - 9e-17) < 1e-25 && fabs(C(1, 0) - 1e-17) < 1e-25);
    return finish();
}'''),
dict(id='b26-timer-added-again', property='C24', needs='a timer added under a name that is already in use',
 breaks='adding a timer under a used name keeps the time accumulated before',
 edits=[(AP, '''    timers[name] = Timer();
''', '''    timers.emplace(name, Timer());
''')],
 demo=r'''
int main(int argc, char** argv) {
    auto* app = start(argc, argv);
    app->addTimer("t"); app->timers["t"].start(); usleep(20000); app->timers["t"].stop();
    EXPECT(app->timers["t"].time() > 0.01);
    app->addTimer("t");
    EXPECT(app->timers["t"].time() == 0);
    return finish();
}'''),
dict(id='b27-shorter-document', property='C25', needs='a document written to a file that holds a longer one',
 breaks='the end of a longer document stays behind a shorter one written to the same file',
 edits=[(XT, '''    file.open(filename);
''', '''    file.open(filename, std::ios::in | std::ios::out); // Don't replace a file that is being looked at
    if (!file.is_open()) {
        file.clear();
        file.open(filename);
    }
''')],
 demo=r'''
int main(int argc, char** argv) {
    start(argc, argv);
    char dir[] = "/tmp/demo.XXXXXX"; if (!mkdtemp(dir)) return 1;
    std::string file = std::string(dir) + "/t.xml";
    auto write = [&](std::string text) { XMLNode n("Root"); n.addAttribute("a", "1"); n.data = text; XMLTree t(n); t.write(file); std::ifstream in(file); std::stringstream s; s << in.rdbuf(); return s.str(); };
    std::string first = write("short"), longer = write("a much longer text than the one before"), again = write("short");
    EXPECT(first == again); EXPECT(longer.size() > first.size());
    std::string rm = "rm -r " + std::string(dir); if (system(rm.c_str())) return 1;
    return finish();
}'''),
dict(id='b28-zeros-not-inserted', property='C27', needs='a zero inserted where another value was inserted before',
 breaks='a zero inserted into a distributed matrix does not replace the value that was there',
 edits=[(MA, '''        return MatSetValue(mat, row_index, col_index, value, mode);
''', '''        // Zeros need no storage
        if (value == 0 && row_index != col_index) {
            return 0;
        }
        return MatSetValue(mat, row_index, col_index, value, mode);
''')],
 demo=r'''
int main(int argc, char** argv) {
    start(argc, argv);
    ParallelMatrix<double> A(MPI_COMM_WORLD, PETSC_DECIDE, PETSC_DECIDE, 3, 3, MATDENSE);
    MatSetUp(A.mat);
    A.setValue(0, 1, 5.0, INSERT_VALUES); A.beginAssembly(MAT_FINAL_ASSEMBLY); A.endAssembly(MAT_FINAL_ASSEMBLY);
    A.setValue(0, 1, 0.0, INSERT_VALUES); A.beginAssembly(MAT_FINAL_ASSEMBLY); A.endAssembly(MAT_FINAL_ASSEMBLY);
    double v = -1; A.getValue(0, 1, v);
    EXPECT(v == 0);
    return finish();
}'''),
dict(id='b29-ranks-of-the-world', property='C29', np=3, needs='a tree on a communicator whose ranks are not those of the whole program',
 breaks='the processes of a branch are looked up among all processes instead of those of the communicator of the tree',
 edits=[(MC, '''    MPI_Comm_group(super_comm, &super_group);
''', '''    MPI_Comm_group(MPI_COMM_WORLD, &super_group);
''')],
 demo=r'''
int main(int argc, char** argv) {
    start(argc, argv);
    alarm(60);
    int rank; MPI_Comm_rank(MPI_COMM_WORLD, &rank);
    MPI_Comm pair; MPI_Comm_split(MPI_COMM_WORLD, rank == 0 ? MPI_UNDEFINED : 0, rank, &pair);    // processes 1 and 2
    MPI_Comm_set_errhandler(MPI_COMM_WORLD, MPI_ERRORS_RETURN);
    if (pair != MPI_COMM_NULL) {
        MPI_Comm_set_errhandler(pair, MPI_ERRORS_RETURN);
        EllipticForest::MPI::Communicator both = MPI_COMM_NULL;
        EllipticForest::MPI::communicatorSubsetRange(pair, 0, 1, 0, &both);
        int size = 0, cmp = MPI_UNEQUAL;
        if (both != MPI_COMM_NULL) { MPI_Comm_size(both, &size); MPI_Comm_compare(both, pair, &cmp); }
        EXPECT(size == 2 && cmp == MPI_CONGRUENT);
    }
    return finish();
}'''),
]
