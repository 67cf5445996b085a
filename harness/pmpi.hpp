// Recording of MPI calls through the profiling interface: what each process posts, on which communicator, in which order.
// A communicator is identified by its member list and by how many with that member list were created before it.
#pragma once
#include <mpi.h>
#include <map>
#include <string>
#include <vector>
#include <cstdio>
namespace rec {
inline bool on = false;
inline std::vector<std::string> events;
inline std::map<std::string, int> created;
inline std::map<std::string, std::map<MPI_Comm, int>> ids;
inline std::vector<int> members(MPI_Comm c, MPI_Comm of = MPI_COMM_WORLD) {
    MPI_Group g, w; PMPI_Comm_group(c, &g); PMPI_Comm_group(of, &w);
    int n; PMPI_Group_size(g, &n);
    std::vector<int> a(n), b(n);
    for (int i = 0; i < n; i++) a[i] = i;
    PMPI_Group_translate_ranks(g, n, a.data(), w, b.data());
    PMPI_Group_free(&g); PMPI_Group_free(&w);
    return b;
}
inline std::string list(const std::vector<int>& v) { std::string s = "["; for (size_t i = 0; i < v.size(); i++) s += (i ? "," : "") + std::to_string(v[i]); return s + "]"; }
inline int& serial(MPI_Comm c) {
    static int key = MPI_KEYVAL_INVALID;
    if (key == MPI_KEYVAL_INVALID) PMPI_Comm_create_keyval(MPI_COMM_NULL_COPY_FN, MPI_COMM_NULL_DELETE_FN, &key, NULL);
    void* v; int flag; PMPI_Comm_get_attr(c, key, &v, &flag);
    if (!flag) { int* p = new int(0); PMPI_Comm_set_attr(c, key, p); return *p; }
    return *(int*) v;
}
inline void newborn(MPI_Comm c) { if (c != MPI_COMM_NULL) serial(c) = ++created[list(members(c))]; }
// k: kind; r: root (world rank) or -1; n: payload size in elements or -1 when the members may differ
inline void post(const char* k, MPI_Comm c, int r, long n) {
    if (!on) return;
    auto m = members(c);
    char b[64]; snprintf(b, 64, "#%d", serial(c));
    events.push_back("{\"k\":\"" + std::string(k) + "\",\"c\":\"" + list(m) + b + "\",\"m\":" + list(m) + ",\"r\":" + std::to_string(r < 0 ? -1 : m[r]) +
                     ",\"n\":" + std::to_string(n) + "}");
}
inline void p2p(const char* k, MPI_Comm c, int peer, int tag, long n) {
    if (!on) return;
    auto m = members(c);
    int me; PMPI_Comm_rank(MPI_COMM_WORLD, &me);
    char b[64]; snprintf(b, 64, "#%d", serial(c));
    events.push_back("{\"k\":\"" + std::string(k) + "\",\"c\":\"" + list(m) + b + "\",\"m\":[" + std::to_string(me) + "],\"r\":" +
                     std::to_string(peer < 0 ? -1 : m[peer]) + ",\"n\":" + std::to_string(tag) + "}");
}
inline long bytes(int n, MPI_Datatype t) { int s; PMPI_Type_size(t, &s); return (long) n * s; }
}
extern "C" {
int MPI_Bcast(void* b, int n, MPI_Datatype t, int r, MPI_Comm c) { rec::post("bcast", c, r, rec::bytes(n, t)); return PMPI_Bcast(b, n, t, r, c); }
int MPI_Barrier(MPI_Comm c) { rec::post("barrier", c, -1, 0); return PMPI_Barrier(c); }
int MPI_Allreduce(const void* s, void* b, int n, MPI_Datatype t, MPI_Op o, MPI_Comm c) { rec::post("allreduce", c, -1, rec::bytes(n, t)); return PMPI_Allreduce(s, b, n, t, o, c); }
int MPI_Reduce(const void* s, void* b, int n, MPI_Datatype t, MPI_Op o, int r, MPI_Comm c) { rec::post("reduce", c, r, rec::bytes(n, t)); return PMPI_Reduce(s, b, n, t, o, r, c); }
int MPI_Scan(const void* s, void* b, int n, MPI_Datatype t, MPI_Op o, MPI_Comm c) { rec::post("scan", c, -1, rec::bytes(n, t)); return PMPI_Scan(s, b, n, t, o, c); }
int MPI_Exscan(const void* s, void* b, int n, MPI_Datatype t, MPI_Op o, MPI_Comm c) { rec::post("exscan", c, -1, rec::bytes(n, t)); return PMPI_Exscan(s, b, n, t, o, c); }
int MPI_Gather(const void* s, int n, MPI_Datatype t, void* b, int m, MPI_Datatype u, int r, MPI_Comm c) { rec::post("gather", c, r, rec::bytes(n, t)); return PMPI_Gather(s, n, t, b, m, u, r, c); }
int MPI_Gatherv(const void* s, int n, MPI_Datatype t, void* b, const int* m, const int* d, MPI_Datatype u, int r, MPI_Comm c) { rec::post("gatherv", c, r, -1); return PMPI_Gatherv(s, n, t, b, m, d, u, r, c); }
int MPI_Scatter(const void* s, int n, MPI_Datatype t, void* b, int m, MPI_Datatype u, int r, MPI_Comm c) { rec::post("scatter", c, r, rec::bytes(m, u)); return PMPI_Scatter(s, n, t, b, m, u, r, c); }
int MPI_Allgather(const void* s, int n, MPI_Datatype t, void* b, int m, MPI_Datatype u, MPI_Comm c) { rec::post("allgather", c, -1, rec::bytes(n, t)); return PMPI_Allgather(s, n, t, b, m, u, c); }
int MPI_Allgatherv(const void* s, int n, MPI_Datatype t, void* b, const int* m, const int* d, MPI_Datatype u, MPI_Comm c) { rec::post("allgatherv", c, -1, -1); return PMPI_Allgatherv(s, n, t, b, m, d, u, c); }
int MPI_Alltoall(const void* s, int n, MPI_Datatype t, void* b, int m, MPI_Datatype u, MPI_Comm c) { rec::post("alltoall", c, -1, rec::bytes(n, t)); return PMPI_Alltoall(s, n, t, b, m, u, c); }
int MPI_Send(const void* b, int n, MPI_Datatype t, int d, int tag, MPI_Comm c) { rec::p2p("send", c, d, tag, rec::bytes(n, t)); return PMPI_Send(b, n, t, d, tag, c); }
int MPI_Recv(void* b, int n, MPI_Datatype t, int s, int tag, MPI_Comm c, MPI_Status* st) { rec::p2p("recv", c, s, tag, rec::bytes(n, t)); return PMPI_Recv(b, n, t, s, tag, c, st); }
int MPI_Comm_create_group(MPI_Comm c, MPI_Group g, int tag, MPI_Comm* out) {
    if (rec::on) {   // collective over the group only
        MPI_Group w; PMPI_Comm_group(MPI_COMM_WORLD, &w);
        int n; PMPI_Group_size(g, &n);
        std::vector<int> a(n), b(n);
        for (int i = 0; i < n; i++) a[i] = i;
        PMPI_Group_translate_ranks(g, n, a.data(), w, b.data());
        PMPI_Group_free(&w);
        auto m = rec::members(c);
        rec::events.push_back("{\"k\":\"create\",\"c\":\"" + rec::list(m) + "/" + rec::list(b) + "\",\"m\":" + rec::list(b) + ",\"r\":-1,\"n\":" + std::to_string(tag) + "}");
    }
    int r = PMPI_Comm_create_group(c, g, tag, out); rec::newborn(*out); return r;
}
int MPI_Comm_create(MPI_Comm c, MPI_Group g, MPI_Comm* out) { rec::post("comm_create", c, -1, -1); int r = PMPI_Comm_create(c, g, out); rec::newborn(*out); return r; }
int MPI_Comm_dup(MPI_Comm c, MPI_Comm* out) { rec::post("dup", c, -1, 0); int r = PMPI_Comm_dup(c, out); rec::newborn(*out); return r; }
int MPI_Comm_split(MPI_Comm c, int col, int key, MPI_Comm* out) { rec::post("split", c, -1, -1); int r = PMPI_Comm_split(c, col, key, out); rec::newborn(*out); return r; }
}
