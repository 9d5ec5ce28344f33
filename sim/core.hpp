// Simulator core: choices, fibers, scheduler, simulated clock, memory arena.
#pragma once
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstdarg>
#include <string>
#include <vector>
#include <map>
#include <unordered_map>
#include <set>
#include <deque>
#include <functional>
#include <algorithm>
#include "hostapi.h"

typedef long long i64;
typedef uint64_t u64;

// ---------------- parameters of one run (part of the scenario) -------------
struct SimParams {
    u64 seed = 1;
    // scheduling
    int mode = 0;              // 0 run-to-block, 1 random interval, 2 conflict, 3 both, 4 priorities(PCT)
    long interval = 2000;      // mean accesses between preemptions (modes 1,3)
    int conflict_pct = 20;     // % chance of preemption at shared accesses (2,3)
    int pct_changes = 3;
    // network
    int net = 1;               // 0 = fast & in order, 1 = random delays, 2 = heavy tail
    int lazy_pct = 50;         // % of sends whose buffer is only read at delivery
    int late_pct = 50;         // % of completions reported late
    int testfail_pct = 20;     // % of successful tests first reported as 'not yet'
    int stall_pct = 0;         // % chance that a sync point stalls a rank for a while
    int tstall_pct = 0;        // same for one thread
    // clock
    int clock = 0;             // 0 smooth, 1 coarse ticks, 2 forward jumps, 3 slow periods, 4 set back now and then, 5 frozen
    long clkscale = 1;         // simulated ns per memory access
    long budget = 600;         // step budget (millions of memory accesses)
    // memory
    u64 memseed = 1;           // heap garbage + layout
    int layout = 0;            // 0 compact, 1 spread
    int fewer_threads_pct = 0; // legal OpenMP: deliver fewer threads than asked
    int procs = 4;             // omp_get_num_procs()
    int memcheck = 1;
    std::vector<int> node;     // node of each rank
};

// ---------------- trace of non-default choices -----------------------------
// key: (kind, actor) -> sequence of (index,value)
struct TraceEnt { int kind; int actor; u64 idx; u64 val; };
enum CK { CK_PREEMPT=1, CK_SWITCH, CK_DELAY, CK_LAZY, CK_LATE, CK_TESTFAIL, CK_STALL, CK_TSTALL, CK_CLOCK, CK_FEWER, CK_MISC };
extern const char* ck_name[];

enum { MAX_RANKS = 8, FIB_PER_RANK = 64 };

struct Outcome {
    int status = 0;            // 0 ok, 1 violation, 2 harness error
    std::string cls, msg;
};

// Counters reported to the parent.
enum CNT { C_ACC, C_SWITCH, C_PREEMPT, C_MSGS, C_BYTES, C_ZERO_MSGS, C_LAZY, C_LATE, C_TESTFAIL, C_STALL, C_TSTALL,
           C_REORDER, C_CLOCKJ, C_FEWER, C_ALLOCFAIL, C_SHMWIN, C_COLL, C_REGIONS, C_NESTED, C_OBS, C_SPIN,
           C_PAUSE, C_SIMUS, C_CONFLICT, C_OPS, C_TESTS_INCOMPLETE, C_WAITBLOCK, C_REJECTED, C_EXC_OK, C_IOFAULT, C_PROBE0, C_PROBE1,
           C_PROBE2, C_PROBE3, C_PROBE4, C_PROBE5, C_PROBE6, C_PROBE7, CNT_N };
extern const char* cnt_name[];
extern u64 cnt[CNT_N];

struct Rng {
    u64 s = 1;
    u64 next() { s += 0x9e3779b97f4a7c15ULL; u64 z = s;
        z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ULL; z = (z ^ (z >> 27)) * 0x94d049bb133111ebULL; return z ^ (z >> 31); }
    u64 below(u64 n) { return n ? next() % n : 0; }
    bool pct(int p) { return (long)below(100) < p; }
};

struct Team;
struct WorkShare;
struct Icv { int nthreads; int max_active; int dyn; };

struct Fiber {
    int id = 0, rank = 0, slot = 0;
    void* sp = nullptr;
    char* stack = nullptr;
    bool alive = false;
    // scheduling state
    std::function<bool()> ready;   // empty => runnable
    bool blocked = false;
    bool spinning = false;
    u64 spin_epoch = 0;
    u64 spin_t0 = 0;
    i64 stalled_until = 0;
    u64 points = 0;
    long prio = 0;
    // per-fiber saved state
    int host_depth = 0;
    void* eh_caught = nullptr; unsigned eh_uncaught = 0;
    // OMP
    Team* team = nullptr; int tnum = 0; Icv icv;
    WorkShare* ws = nullptr; u64 ws_seq = 0;
    std::function<void()> entry;
    u64 last_spin_points = 0;
    const char* where = "";
    int consec_testfail = 0;
};

// Globals
extern SimParams P;
extern bool sim_on;
extern int host_depth;
extern Fiber* cur;
extern i64 sim_now;
extern u64 ev_hash;
extern int n_ranks;

struct HostScope { HostScope() { host_depth++; } ~HostScope() { host_depth--; } };

void hash_in(u64 v);
// Seeded choice with default 0.
u64 choose(int kind, int actor, int pct_nonzero, u64 n);   // value in [0,n)
void sync_point(const char* where);
void spin_point(const char* where);
void block_until(const char* where, std::function<bool()> ready);
void at_time(i64 t, std::function<void()> fn);
void progress();
[[noreturn]] void program_exit(int rank, int code);
[[noreturn]] void finish_run(int status, const char* cls, const std::string& msg);
#define VIOL(cls, ...) do { char _b[1600]; snprintf(_b, sizeof(_b), __VA_ARGS__); finish_run(1, cls, _b); } while (0)
#define HERR(...) do { char _b[1600]; snprintf(_b, sizeof(_b), __VA_ARGS__); finish_run(2, "harness", _b); } while (0)

Fiber* new_fiber(int rank, std::function<void()> fn);
void run_fibers();

// Memory.
void* arena_alloc(int rank, size_t n, size_t align, bool zero);
void arena_free(void* p);
bool in_arena(const void* p);
size_t arena_size_of(void* p);
void arena_reset(u64 seed);
void arena_check_all();
u64 canon(const void* p);
void* shm_alloc_map(size_t bytes, int nr, void** bases);
void fill_garbage(void* p, size_t n, u64 seed);

struct SoRange { char *lo, *hi; void* handle; agent_main_t fn; };
extern SoRange so_range[MAX_RANKS];

void mpi_reset();
void mpi_final_check();
void omp_reset();
