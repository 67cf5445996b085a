QT='src/Quadtree.hpp'; HP='src/HPSAlgorithm.hpp'; FVS='src/Patches/FiniteVolume/FiniteVolumeSolver.cpp'; MX='src/Matrix.hpp'; VX='src/Vector.hpp'
BUGS=[
dict(id='b01-zero-load-skips-h', property='C04', needs='an upwards stage whose load vanishes on some patch after one whose load did not',
 breaks='the particular Neumann data of a patch is left from an earlier load when the new load is zero there',
 edits=[(HP, '''                patch.vectorH() = patch_solver.particularNeumannData(grid, patch.vectorF());
''', '''                double f_max = 0;
                for (auto i = 0; i < patch.vectorF().size(); i++) f_max = fmax(f_max, fabs(patch.vectorF()[i]));
                if (f_max > 0 || patch.vectorH().size() != 2*grid.nx() + 2*grid.ny()) {
                    patch.vectorH() = patch_solver.particularNeumannData(grid, patch.vectorF());
                }
''')],
 demo=r'''
int main(int argc, char** argv) {
    start(argc, argv);
    Setup s(forest({"0"}, 0, 1, 0, 1), 4, 0, 1, 0, 1);
    s.hps.buildStage();
    s.hps.upwardsStage([](double x, double y) { return 4.0; });
    s.hps.solveStage([](int, double x, double y, double* a, double* b) { *a = 1; *b = 0; return x * x + y * y; });
    s.hps.upwardsStage([](double x, double y) { return 0.0; });
    s.hps.solveStage([](int, double x, double y, double* a, double* b) { *a = 1; *b = 0; return 2 * x - y; });
    EXPECT(s.error([](double x, double y) { return 2 * x - y; }) < 1e-8);
    return finish();
}'''),
dict(id='b02-leaf-not-sent', property='C10', np=3, needs='a family over several processes whose children are not all of the kind a new node is',
 breaks='whether a remote child is a leaf is not sent with it, so a visitor of a family sees branches as leaves or leaves as branches',
 edits=[('src/QuadNode.hpp', """    broadcast(node.plast, root, comm);
    broadcast(node.leaf, root, comm);
""", """    broadcast(node.plast, root, comm);
""")],
 demo=r"""
int main(int argc, char** argv) {
    start(argc, argv);
    Setup s(forest({"0", "02"}, 0, 1, 0, 1, {2, 3, 2}), 4, 0, 1, 0, 1);
    auto& q = s.mesh.quadtree;
    auto look = [&](Node<FiniteVolumePatch>* n, std::vector<Node<FiniteVolumePatch>*> ch) { if (n->path == "0") for (int i = 0; i < 4; i++) EXPECT(ch[i]->leaf == (i != 2)); return 1; };
    q.merge([&](Node<FiniteVolumePatch>* n) { return 1; }, look);
    q.split([&](Node<FiniteVolumePatch>* n) { return 1; }, look);
    return finish();
}"""),
dict(id='b03-dirichlet-shortcut', property='C03', needs='pure Dirichlet data given with a coefficient a different from 1',
 breaks='when no derivative term occurs, the boundary equation a*u = r is taken as u = r',
 edits=[(HP, '''            g = solve(A, rhs);
        }
''', '''            if (std::all_of(b.data().begin(), b.data().end(), [](NumericalType bi){ return bi == 0; })) {
                // Dirichlet data only, no need for a solve
                g = r;
            }
            else {
                g = solve(A, rhs);
            }
        }
''')],
 demo=r'''
int main(int argc, char** argv) {
    start(argc, argv);
    Setup s(forest({"0"}, 0, 1, 0, 1), 4, 0, 1, 0, 1);
    s.hps.buildStage();
    s.hps.upwardsStage([](double, double) { return 0.0; });
    s.hps.solveStage([](int side, double x, double y, double* a, double* b) { *a = side == 1 ? 2 : 1; *b = 0; return *a * (1 + x - y); });
    EXPECT(s.error([](double x, double y) { return 1 + x - y; }) < 1e-8);
    return finish();
}'''),
dict(id='b04-face-coefficient-reuse', property='C15', needs='a variable beta and a patch of non-square cells (dx differs from dy)',
 breaks='the south and north faces sample beta half a cell in x-units away from the centre',
 edits=[(FVS, '''                double yjp = yj + dy/2.0;
                double yjm = yj - dy/2.0;
''', '''                double half = dx/2.0;
                double yjp = yj + half;
                double yjm = yj - half;
''')],
 demo=r'''
int main(int argc, char** argv) {
    start(argc, argv);
    FiniteVolumeGrid g(MPI_COMM_SELF, 4, 0, 1, 4, 0, 2);
    FiniteVolumeSolver s; s.solver_type = FiniteVolumeSolverType::FivePointStencil;
    std::set<long> seen;
    s.alpha_function = [](double, double) { return 1.0; }; s.lambda_function = [](double, double) { return 0.0; };
    bool ok = true;
    s.beta_function = [&](double x, double y) { double a = x * 8, b = y * 4; ok = ok && fabs(a - lround(a)) < 1e-9 && fabs(b - lround(b)) < 1e-9 && ((lround(a) + lround(b)) % 2); return 1.0 + x + y; };
    Vector<double> d(16, 1.0), f(16, 0.0);
    s.solve(g, d, f);
    EXPECT(ok);       // beta is sampled at face midpoints only
    return finish();
}'''),
dict(id='b05-norm-sign', property='C19', needs='two vectors whose largest deviation is one where the first is the smaller',
 breaks='the maximum norm of a difference ignores entries where the second vector is larger',
 edits=[(VX, """        maxDiff = fmax(maxDiff, fabs(a[i] - b[i]));
    }
    return maxDiff;

}

""", """        double diff = a[i] - b[i];
        maxDiff = fmax(maxDiff, i == 0 ? fabs(diff) : diff);
    }
    return maxDiff;

}

""")],
 demo=r"""
int main(int argc, char** argv) {
    start(argc, argv);
    Vector<double> a = {1, 2, 3}, b = {1, 2, 8};
    EXPECT(vectorInfNorm(a, b) == 5); EXPECT(vectorInfNorm(b, a) == 5);
    return finish();
}"""),
dict(id='b06-block-permute-offsets', property='C20', needs='blocks of different sizes in a block permutation of columns',
 breaks='column blocks are located by the size of the block itself instead of the sizes of the blocks before it',
 edits=[(MX, '''            for (auto jj = 0; jj < J_j; jj++) c += C[jj];
''', '''            if (J_j > 0) c = J_j * C[J_j - 1];
''')],
 demo=r'''
int main(int argc, char** argv) {
    start(argc, argv);
    Matrix<double> A(1, 4); for (int j = 0; j < 4; j++) A(0, j) = j;
    Matrix<double> B = A.blockPermute({0}, {2, 0, 1}, {1}, {1, 2, 1});
    double want[4] = {3, 0, 1, 2};
    for (int j = 0; j < 4; j++) EXPECT(B(0, j) == want[j]);
    return finish();
}'''),
]
