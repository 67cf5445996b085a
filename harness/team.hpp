// The communicator a driver works on.  Without EF_TEAMS it is all processes.  EF_TEAMS="2,0/1,3" makes two teams: world processes
// 2 and 0 (in this order), and 1 and 3; team k runs <script>.t<k> and logs to <log>.t<k>.<rank in the team>; processes of no team find no script.
#pragma once
#include <mpi.h>
#include <cstdlib>
#include <fstream>
#include <sstream>
#include <string>
namespace team {
inline MPI_Comm comm = MPI_COMM_WORLD;
inline std::string suffix;
inline int rank = 0, ranks = 1, world = 0;
inline void join() {
    PMPI_Comm_rank(MPI_COMM_WORLD, &world);
    const char* env = getenv("EF_TEAMS");
    if (!env) { PMPI_Comm_rank(comm, &rank); PMPI_Comm_size(comm, &ranks); return; }
    int color = MPI_UNDEFINED, key = 0, k = 0;
    std::stringstream teams(env); std::string one;
    for (; std::getline(teams, one, '/'); k++) {
        std::stringstream m(one); std::string r; int i = 0;
        for (; std::getline(m, r, ','); i++) if (std::stoi(r) == world) { color = k; key = i; }
    }
    PMPI_Comm_split(MPI_COMM_WORLD, color, key, &comm);
    if (comm == MPI_COMM_NULL) { suffix = ".none"; rank = world; comm = MPI_COMM_SELF; return; }
    PMPI_Comm_rank(comm, &rank); PMPI_Comm_size(comm, &ranks);
    suffix = ".t" + std::to_string(color);
}
}
#define TEAM (team::comm)
