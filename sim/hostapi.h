// Interface between the simulator (host) and the agent that is linked with the
// code under test in each rank's shared object.
#pragma once
#include <stdint.h>
enum { MAXD = 6, MAXOPI = 48 };
struct SimOp {
    char kind[16];
    char var[16];
    char str[1024];
    int n;                 // number of ints in i[].
    long i[MAXOPI];
};
struct SimScenario {
    char stencil[32];
    int nranks;
    int nops;
    const SimOp* ops;
};
// One description of a var as the API reports it.
struct SimVarInfo {
    char name[16];
    int nd;
    char dim[MAXD][8];
    char kind[MAXD];         // 's','d','m'
    long first_rank[MAXD], last_rank[MAXD];     // domain dims.
    long left_halo[MAXD], right_halo[MAXD];
    long misc_first[MAXD], misc_last[MAXD];
    long first_local[MAXD], last_local[MAXD];
    long alloc[MAXD];
    long step_alloc;
    int l1norm;
};
struct SimHost {
    // Called by each rank around op 'k'.
    void (*begin_op)(int rank, int k);
    void (*end_op)(int rank, int k);
    // The outcome of 'prepare' (0 = rejected with an exception).
    void (*report_prep)(int rank, int k, int ok, const char* msg);
    void (*report_geom)(int rank, int k, int ndd, const long* first, const long* last,
                        const long* overall, const long* rank_index, const long* num_ranks);
    void (*report_var)(int rank, int k, const SimVarInfo*);
    // Model: is the var known; value before op k (0 if undefined); valid steps.
    int (*known_var)(const char* var);
    int (*expect)(int k, const char* var, const long* idx, int nd, double* val);
    int (*expect_window)(int k, const char* var, long* first, long* last);
    double (*val)(long seed, const char* var, const long* idx, int nd);
    void (*observe)(int rank, int k, const char* what, const char* var,
                    const long* idx, int nd, double got);
    void (*observe_scalar)(int rank, int k, const char* what, double got, double want);
    void (*violation)(int rank, int k, const char* cls, const char* msg);
    void (*note)(int rank, int k, const char* what, long val);
    void (*harness_error)(const char* msg);
    void (*arm_alloc_fail)(int rank, long nth, long min_bytes);
    long (*disarm_alloc_fail)(int rank, long* seen);
    long long (*now_ns)(int rank);
    // Meeting point of all ranks outside of the simulated MPI: returns sum of v.
    long (*agree)(int rank, int k, long v);
    void (*yield)();
    // YASK's program has returned.
    void (*program_end)(int rank, int code);
    void (*altered)(int rank, int n);           // so many elements were altered behind the back of the program
};
extern "C" {
    typedef void (*agent_main_t)(const SimHost*, const SimScenario*, int rank);
    void agent_main(const SimHost*, const SimScenario*, int rank);
}
