QT='src/Quadtree.hpp'; HP='src/HPSAlgorithm.hpp'; FP='src/Patches/FiniteVolume/FiniteVolumePatch.cpp'; MS='src/Mesh.hpp'; IN='src/Interpolation.cpp'; MP='src/MPI.hpp'; OP='src/Options.cpp'
SM='src/SpecialMatrices.hpp'
BUGS=[
dict(id='b07-uncoarsen-average', property='C02', needs='a patch whose boundary operator was coarsened twice (a child two levels finer than its siblings)',
 breaks='from the second level on the boundary data of a coarsened patch is refined piecewise constantly instead of by the interpolation',
 edits=[(HP, '''            tau.vectorG() = L12_patch * tau.vectorG();
''', '''            if (coarsen_factor == 0) {
                tau.vectorG() = L12_patch * tau.vectorG();
            }
            else {
                Vector<NumericalType> g_fine(4*nfine);
                for (auto k = 0; k < 4*nfine; k++) g_fine[k] = tau.vectorG()[(k/nfine)*ncoarse + (k%nfine)/2];
                tau.vectorG() = g_fine;
            }
''')],
 demo=r'''
int main(int argc, char** argv) {
    start(argc, argv);
    Setup s(forest({"0", "01", "010", "011", "012", "013"}, 0, 1, 0, 1), 4, 0, 1, 0, 1);
    s.hps.buildStage();
    s.hps.upwardsStage([](double, double) { return 0.0; });
    s.hps.solveStage([](int, double x, double y, double* a, double* b) { *a = 1; *b = 0; return 1 + 2 * x - y; });
    EXPECT(s.error([](double x, double y) { return 1 + 2 * x - y; }) < 1e-8);
    return finish();
}'''),
dict(id='b08-copies-forget-coarsening', property='C05', np=3, needs='a family spread over processes in which a branch kept by one process was coarsened before its copy is sent',
 breaks='the number of coarsenings of a patch is not sent with it, so a process that receives the patch refines its boundary data too little',
 edits=[(FP, '''    broadcast(patch.n_coarsens, root, comm);
''', '')],
 demo=r'''
// every distribution of the leaves over three processes gives the solution of the serial run (here: the exact one)
int main(int argc, char** argv) {
    start(argc, argv);
    auto run = [&](std::set<std::string> tree, int leaves) {
        for (int i = 1; i < leaves - 1; i++) for (int j = i + 1; j < leaves; j++) {
            Setup s(forest(tree, 0, 1, 0, 1, {i, j - i, leaves - j}), 4, 0, 1, 0, 1);
            s.hps.buildStage();
            for (int k = 1; k <= 2; k++) {
                s.hps.upwardsStage([](double, double) { return 0.0; });
                s.hps.solveStage([=](int, double x, double y, double* a, double* b) { *a = 1; *b = 0; return k + 2 * x - y; });
                EXPECT(s.error([=](double x, double y) { return k + 2 * x - y; }) < 1e-8);
            }
            // a copy of a patch agrees with the patch
            auto& q = s.mesh.quadtree;
            q.merge([](Node<FiniteVolumePatch>*) { return 1; }, [](Node<FiniteVolumePatch>* n, std::vector<Node<FiniteVolumePatch>*> ch) {
                for (auto* c : ch) { int lo, hi; MPI_Allreduce(&c->data.n_coarsens, &lo, 1, MPI_INT, MPI_MIN, n->node_comm); MPI_Allreduce(&c->data.n_coarsens, &hi, 1, MPI_INT, MPI_MAX, n->node_comm); EXPECT(lo == hi); }
                return 1; });
        }
    };
    run({"0", "01"}, 7);
    run({"0", "02", "020", "021", "022", "023"}, 19 > 9 ? 19 : 9);
    return finish();
}'''),
dict(id='b09-last-process-misses-branches', property='C09', np=3, needs='a data traversal on a branch other than the root that is shared by processes',
 breaks='the last of the processes sharing a branch below the root does not visit it',
 edits=[(QT, '''			bool owned = node->pfirst <= rank && rank <= node->plast;
			if (owned) {
				quadtree.visit_node_data_fn''', '''			bool shared = node->level > 0 && node->pfirst != node->plast;
			bool owned = node->pfirst <= rank && rank < node->plast + (shared ? 0 : 1);
			if (owned) {
				quadtree.visit_node_data_fn''')],
 demo=r'''
int main(int argc, char** argv) {
    start(argc, argv);
    Setup s(forest({"0", "01"}, 0, 1, 0, 1, {2, 2, 3}), 4, 0, 1, 0, 1);
    auto& q = s.mesh.quadtree; int held = 0, seen = 0;
    for (auto& [path, node] : q.map) held += node != nullptr;
    q.traversePreOrder(std::function<void(FiniteVolumePatch&)>([&](FiniteVolumePatch&) { seen++; }));
    EXPECT(seen == held);
    return finish();
}'''),
dict(id='b10-balanced-across-edges-only', property='C11', needs='a refinement next to a corner shared by a much coarser patch, with patches between them of the size in the middle',
 breaks='patches that touch only at a corner may differ by more than one level',
 edits=[(MS, 'P4EST_CONNECT_CORNER', 'P4EST_CONNECT_FACE')],
 demo=r'''
int main(int argc, char** argv) {
    start(argc, argv);
    Setup s(forest({"0"}, 0, 1, 0, 1), 4, 0, 1, 0, 1);
    s.mesh.refineByFunction([](double x, double y) { return x < 0.5 && y < 0.5 && x > 0.25 && y > 0.25; }, 0, 1, 5, s.root, s.factory);
    struct Q { double x0, x1, y0, y1; }; std::vector<Q> L;
    s.leaves([&](Node<FiniteVolumePatch>* n) { auto& g = n->data.grid(); L.push_back({g.xLower(), g.xUpper(), g.yLower(), g.yUpper()}); });
    for (auto& p : L) for (auto& q : L)
        if (p.x0 <= q.x1 + 1e-9 && q.x0 <= p.x1 + 1e-9 && p.y0 <= q.y1 + 1e-9 && q.y0 <= p.y1 + 1e-9) EXPECT(p.x1 - p.x0 < 2.5 * (q.x1 - q.x0));
    return finish();
}'''),
dict(id='b11-interpolation-near-the-end', property='C26', needs='two evaluations near each other at the right end of a long table, so that the search starts from the previous one',
 breaks='the search from the previous position stops one interval before the last and the last interval is extrapolated from its neighbour',
 edits=[(IN, '''                if (ju >= n - 1) {
                    ju = n - 1;''', '''                if (ju >= n - 2) {
                    ju = n - 2;''')],
 demo=r'''
int main(int argc, char** argv) {
    start(argc, argv);
    for (int n = 3; n <= 12; n++) {
        Vector<double> x(n), y(n); for (int i = 0; i < n; i++) { x[i] = i; y[i] = i * i; }
        auto line = [&](double t) { int k = std::max(0, std::min(n - 2, (int) floor(t))); return y[k] + (t - x[k]) * (y[k + 1] - y[k]); };
        for (double a = -0.5; a < n; a += 0.5) for (double b = -0.5; b < n; b += 0.5) {
            LinearInterpolant f(x, y);
            EXPECT(fabs(f(a) - line(a)) < 1e-12); EXPECT(fabs(f(b) - line(b)) < 1e-12);
        }
    }
    return finish();
}'''),
dict(id='b12-zero-load-with-old-solution', property='C28', needs='a load, then the load declared zero without a new upwards stage, on a mesh with a coarsened branch',
 breaks='the particular solution of the previous load is added in coarsened branches although the load is declared zero',
 edits=[(HP, '''            u_tau_interior = u_tau_interior + tau.vectorW();
        }
''', '''            u_tau_interior = u_tau_interior + tau.vectorW();
        }
        else if (tau.vectorW().size() == u_tau_interior.size() && tau.n_coarsens > 0) {
            u_tau_interior = u_tau_interior + tau.vectorW();
        }
''')],
 demo=r'''
int main(int argc, char** argv) {
    auto* app = start(argc, argv);
    Setup s(forest({"0", "01"}, 0, 1, 0, 1), 4, 0, 1, 0, 1);
    s.hps.buildStage();
    s.hps.upwardsStage([](double, double) { return 3.0; });
    auto u = [](double x, double y) { return 1 + 2 * x - y; };
    auto solve = [&]() { s.hps.solveStage([=](int, double x, double y, double* a, double* b) { *a = 1; *b = 0; return u(x, y); }); };
    solve();
    bool yes = true; app->options.setOption("homogeneous-rhs", yes);
    solve();
    EXPECT(s.error(u) < 1e-8);
    s.hps.upwardsStage([](double, double) { return 0.0; });
    solve();
    EXPECT(s.error(u) < 1e-8);
    return finish();
}'''),
dict(id='b13-received-array-keeps-its-tail', property='C22', np=2, needs='an array received into a longer one',
 breaks='an array received into a longer one keeps the entries beyond the received ones',
 edits=[(MP, '''    data.resize(size);
    return MPI_Recv''', '''    if ((std::size_t) size > data.size()) {
        data.resize(size);
    }
    return MPI_Recv''')],
 demo=r'''
int main(int argc, char** argv) {
    start(argc, argv);
    int rank; MPI_Comm_rank(MPI_COMM_WORLD, &rank);
    for (int have : {0, 2, 3, 7}) {
        std::vector<double> v(rank ? have : 3, rank);
        if (rank == 0) EllipticForest::MPI::send(v, 1, 5, MPI_COMM_WORLD);
        else { MPI_Status st; EllipticForest::MPI::receive(v, 0, 5, MPI_COMM_WORLD, &st); EXPECT(v == std::vector<double>(3, 0.0)); }
    }
    return finish();
}'''),
dict(id='b14-last-equals-sign', property='C23', needs='an option in an INI file whose value contains an equals sign',
 breaks='a line is split at its last equals sign, so the key swallows part of the value',
 edits=[(OP, "size_t pos = line.find('=');", "size_t pos = line.rfind('=');")],
 demo=r'''
int main(int argc, char** argv) {
    start(argc, argv);
    { std::ofstream f("demo.ini"); f << "[EllipticForest]\nname = a=b\n; c = d=e\nx=1=\n"; }
    Options o; o.setFromFile("demo.ini");
    EXPECT(std::get<std::string>(o["name"]) == "a=b");
    EXPECT(std::get<std::string>(o["x"]) == "1=");
    return finish();
}'''),
dict(id='b15-middle-row-of-odd-sizes', property='C18', needs='an interpolation matrix from fine to coarse sides with an odd number of coarse cells, at least five',
 breaks='the middle coarse cell takes only one of its two fine cells',
 edits=[(SM, '                if (j == 2*i) {', '                if (j == 2*i && !(this->nrows_ % 2 == 1 && i == this->nrows_/2 && this->nrows_ > 3)) {')],
 demo=r'''
int main(int argc, char** argv) {
    start(argc, argv);
    for (int n = 2; n <= 9; n++) {
        InterpolationMatrixFine2Coarse<double> M(n);
        for (int i = 0; i < (int) M.nrows(); i++) { double s = 0; for (int j = 0; j < (int) M.ncols(); j++) s += M(i, j); EXPECT(fabs(s - 1) < 1e-12); }
    }
    return finish();
}'''),
]
