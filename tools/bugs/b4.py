FS='src/Patches/FiniteVolume/FiniteVolumeSolver.cpp'; QT='src/Quadtree.hpp'; HP='src/HPSAlgorithm.hpp'; MC='src/MPI.cpp'; MA='src/Matrix.hpp'; LG='src/Logger.hpp'; VE='src/Vector.hpp'; NF='src/Patches/FiniteVolume/FiniteVolumeNodeFactory.cpp'
GROWS=r'''
#include <malloc.h>
static long held() { struct mallinfo2 m = mallinfo2(); return (long) (m.uordblks + m.hblkhd); }
'''
BUGS=[
dict(id='b30-groups-kept', property='C30', np=3, needs='a process outside the range of a new communicator, many times',
 breaks='processes outside of a subset return before the groups they made are freed',
 edits=[(MC,"""    // Free groups
    MPI_Group_free(&super_group);
    MPI_Group_free(&sub_group);
""","""    // Free the groups the communicator was made from
    if (*sub_comm != MPI_COMM_NULL) {
        MPI_Group_free(&super_group);
        MPI_Group_free(&sub_group);
    }
""")],
 demo=GROWS+r'''
int main(int argc, char** argv) {
    start(argc, argv);
    auto some = [](int n) { for (int k = 0; k < n; k++) { MPI_Comm c = MPI_COMM_NULL; EllipticForest::MPI::communicatorSubsetRange(MPI_COMM_WORLD, 0, 1, 7, &c); if (c != MPI_COMM_NULL) MPI_Comm_free(&c); } MPI_Barrier(MPI_COMM_WORLD); };
    some(500); long before = held(); some(3000); long after = held();
    EXPECT(after - before < 100000);
    return finish();
}'''),
dict(id='b31-timer-per-solve', property='C30', needs='many solves of one problem with general boundary conditions',
 breaks='every solve with general boundary data adds a timer of its own',
 edits=[(HP,"""        MPI_Barrier(this->getComm());
        EllipticForestApp& app = EllipticForestApp::getInstance();
        app.logHead("Begin HPS Solve Stage");
        app.addTimer("solve-stage");
        app.timers["solve-stage"].start();

        // Set up data for Dirichlet solve
""","""        MPI_Barrier(this->getComm());
        EllipticForestApp& app = EllipticForestApp::getInstance();
        app.logHead("Begin HPS Solve Stage");
        app.addTimer("solve-stage");
        app.timers["solve-stage"].start();
        static int solve_count = 0;
        std::string count_name = "solve-stage-" + std::to_string(solve_count++);
        app.addTimer(count_name);
        app.timers[count_name].start();

        // Set up data for Dirichlet solve
"""),(HP,"""        app.timers["solve-stage"].stop();
        app.logHead("End HPS Solve Stage");
                
""","""        app.timers[count_name].stop();
        app.timers["solve-stage"].stop();
        app.logHead("End HPS Solve Stage");
                
""")],
 demo=GROWS+r'''
int main(int argc, char** argv) {
    auto* app = start(argc, argv);
    Setup s(forest({"0"}, 0, 1, 0, 1), 4, 0, 1, 0, 1);
    s.hps.buildStage(); s.hps.upwardsStage([](double x, double y) { return x; });
    auto some = [&](int n) { for (int k = 0; k < n; k++) s.hps.solveStage([](int, double x, double, double* a, double* b) { *a = 1; *b = 0; return x; }); };
    some(20); size_t t = app->timers.size(); long before = held(); some(400);
    EXPECT(app->timers.size() == t); EXPECT(held() - before < 20000);
    return finish();
}'''),
dict(id='b32-large-systems-kept', property='C30', needs='leaf patches of more than sixty-four cells, solved many times',
 breaks='the matrix of a larger leaf patch is kept for a later solve that never uses it',
 edits=[(FS, """        MatDestroy(&A);
        VecDestroy(&x);
        VecDestroy(&f);
""", """        // Factors of larger systems are worth keeping for the next solve
        static Mat last_factor = NULL;
        if (N > 64) {
            last_factor = A;
        }
        else {
            MatDestroy(&A);
        }
        VecDestroy(&x);
        VecDestroy(&f);
""")],
 demo=GROWS+r"""
int main(int argc, char** argv) {
    start(argc, argv);
    FiniteVolumeSolver s; s.solver_type = FiniteVolumeSolverType::FivePointStencil;
    s.alpha_function = s.beta_function = [](double, double) { return 1.0; }; s.lambda_function = [](double, double) { return 0.0; };
    FiniteVolumeGrid g(MPI_COMM_SELF, 10, 0, 1, 10, 0, 1); Vector<double> d(40, 1.0), f(100, 2.0);
    auto some = [&](int n) { for (int k = 0; k < n; k++) s.solve(g, d, f); };
    some(20); long before = held(); some(200);
    EXPECT(held() - before < 100000);
    return finish();
}"""),
dict(id='b33-long-messages-cut', property='C31', needs='a message of more than a thousand characters with values',
 breaks='messages are put together in a buffer of fixed size, which cuts long ones',
 edits=[(LG, '''        std::string toPrint = "[EllipticForest " + std::to_string(myRank) + "] " + message + "\\n";
        printf(toPrint.c_str(), args...);

    }

    /**
     * @brief Outputs a message to the head rank log''', '''        std::string toPrint = "[EllipticForest " + std::to_string(myRank) + "] " + message + "\\n";
        char buffer[1024];
        snprintf(buffer, sizeof(buffer), toPrint.c_str(), args...);
        fputs(buffer, stdout);

    }

    /**
     * @brief Outputs a message to the head rank log''')],
 demo=r'''
#include <unistd.h>
#include <fcntl.h>
int main(int argc, char** argv) {
    int keep = dup(1); int fd = open("said", O_RDWR | O_CREAT | O_TRUNC, 0600); 
    auto* app = start(argc, argv); std::cout.flush(); fflush(stdout); dup2(fd, 1);
    std::string name(1500, 'n'); app->log("the name is %s", name.c_str()); fflush(stdout); dup2(keep, 1);
    std::string s(5000, 0); s.resize(pread(fd, &s[0], 5000, 0));
    EXPECT(s == "[EllipticForest 0] the name is " + name + "\n");
    return finish();
}'''),
dict(id='b34-wide-rows-broken', property='C31', needs='a matrix with more than eight columns',
 breaks='rows of a matrix are broken after eight entries, and an entry is lost from sight of its row',
 edits=[(MA, '''                    os << std::setprecision(4) << std::setw(12) << A(i,j);
                }
            }
''', '''                    os << std::setprecision(4) << std::setw(12) << A(i,j);
                }
                if (j % 8 == 7 && j + 1 < A.ncols()) {
                    os << std::endl;
                }
            }
''')],
 demo=r'''
int main(int argc, char** argv) {
    start(argc, argv);
    Matrix<double> A(2, 9, 1.0); std::ostringstream os; os << A; std::string row; for (int j = 0; j < 9; j++) row += "           1";
    EXPECT(os.str() == "  [2 x 9]  \n" + row + "\n" + row + "\n");
    return finish();
}'''),
]
