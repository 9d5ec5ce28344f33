// Simulated OpenMP runtime (libgomp ABI). Threads are simulator fibers.
#include "core.hpp"
#include <cstring>

struct LoopShare {
    u64 seq; long start, end, incr, chunk; long next; int left; bool used = false;
    unsigned long long ustart, uend, uincr, uchunk, unext;
};
struct Team {
    int n = 1, level = 0, active = 0, rank = 0;
    Team* parent = nullptr; int parent_tnum = 0;
    // barrier
    int arrived = 0; u64 gen = 0;
    int done = 0;
    std::map<u64, LoopShare> loops;
    std::map<u64, int> singles;
    void* copyprivate = nullptr;
    std::map<u64, int> sections;   // seq -> next section
    u64 nsec = 0;
};
struct OLock { int owner = -1; int count = 0; };

static Icv init_icv[MAX_RANKS];
static int max_active[MAX_RANKS];
static std::map<std::pair<int, const void*>, OLock> crit;

void omp_reset() {
    for (int r = 0; r < MAX_RANKS; r++) { init_icv[r].nthreads = P.procs; init_icv[r].dyn = 0; max_active[r] = 1; }
    crit.clear();
}

static thread_local Icv host_icv = {1, 1, 0};
static Icv& icv() {
    if (!cur || !sim_on) return host_icv;
    if (cur->icv.nthreads == 0) cur->icv = init_icv[cur->rank];
    return cur->icv;
}
static Team* T() { return (sim_on && cur) ? cur->team : nullptr; }

static void team_barrier(const char* w) {
    Team* t = T();
    if (!t || t->n == 1) { sync_point(w); return; }
    sync_point(w);
    u64 g = t->gen;
    if (++t->arrived == t->n) { t->arrived = 0; t->gen++; progress(); sync_point(w); }
    else block_until(w, [t, g] { return t->gen != g; });
}

static void run_parallel(void (*fn)(void*), void* data, unsigned n, std::function<void(Team*)> setup = nullptr) {
    HostScope hs;
    if (!sim_on || !cur) { int d = host_depth; host_depth = 0; fn(data); host_depth = d; return; }
    Team* outer = cur->team;
    Icv my = icv();
    int want = n ? (int)n : my.nthreads;
    int active = outer ? outer->active : 0;
    if (active >= max_active[cur->rank]) want = 1;
    if (want > 1 && P.fewer_threads_pct && choose(CK_FEWER, cur->id, P.fewer_threads_pct, (u64)want)) {
        // The implementation may always deliver fewer threads (OMP: dyn-var / thread limit).
        want = 1 + (int)(cur->points % want); cnt[C_FEWER]++;
    }
    if (want > FIB_PER_RANK / 2) want = FIB_PER_RANK / 2;
    Team* t = new Team;
    t->n = want; t->parent = outer; t->parent_tnum = cur->tnum; t->rank = cur->rank;
    t->level = (outer ? outer->level : 0) + 1;
    t->active = active + (want > 1 ? 1 : 0);
    if (setup) setup(t);
    cnt[C_REGIONS]++;
    if (outer && outer->n > 1 && want > 1) cnt[C_NESTED]++;
    Fiber* me = cur;
    for (int i = 1; i < want; i++) {
        Fiber* f = new_fiber(cur->rank, [=] {
            fn(data);
            HostScope h2;
            sync_point("omp-thread-end");
            t->done++;
            progress();
        });
        f->team = t; f->tnum = i; f->icv = my;
    }
    int save_t = me->tnum; u64 save_seq = me->ws_seq; WorkShare* save_ws = me->ws;
    me->team = t; me->tnum = 0; me->ws_seq = 0; me->ws = nullptr;
    sync_point("omp-fork");
    {
        int d = host_depth; host_depth = 0;
        fn(data);
        host_depth = d;
    }
    sync_point("omp-join");
    if (t->done < t->n - 1) block_until("omp-join", [t] { return t->done >= t->n - 1; });
    me->team = outer; me->tnum = save_t; me->ws_seq = save_seq; me->ws = save_ws;
    me->icv = my;
    delete t;
    sync_point("omp-joined");
}

static LoopShare* cur_loop() {
    Team* t = T();
    auto it = t->loops.find(cur->ws_seq);
    return it == t->loops.end() ? nullptr : &it->second;
}
static LoopShare solo;     // orphaned loops outside of any region
static LoopShare* enter_loop(long s, long e, long inc, long chunk) {
    Team* t = T();
    if (!t) { solo = LoopShare(); solo.start = s; solo.end = e; solo.incr = inc; solo.chunk = chunk; solo.next = s; solo.used = true; return &solo; }
    cur->ws_seq++;
    LoopShare& l = t->loops[cur->ws_seq];
    if (!l.used) { l.used = true; l.seq = cur->ws_seq; l.start = s; l.end = e; l.incr = inc; l.chunk = chunk < 1 ? 1 : chunk; l.next = s; l.left = t->n; }
    return &l;
}
static bool next_dyn(LoopShare* l, long* ps, long* pe, bool guided) {
    sync_point("omp-next");
    if (l->incr > 0 ? l->next >= l->end : l->next <= l->end) return false;
    long c = l->chunk;
    if (guided) { Team* t = T(); long rem = (l->end - l->next) / l->incr; long n = t ? t->n : 1; long q = (rem + n - 1) / n; if (q > c) c = q; }
    long e = l->next + c * l->incr;
    if (l->incr > 0 ? e > l->end : e < l->end) e = l->end;
    *ps = l->next; *pe = e; l->next = e;
    return true;
}
static void leave_loop() {
    Team* t = T();
    if (!t) return;
    auto it = t->loops.find(cur->ws_seq);
    if (it != t->loops.end() && --it->second.left == 0) t->loops.erase(it);
}
// static schedule for runtime-called loops
static std::map<std::pair<int,u64>, long> stat_pos;

extern "C" {
typedef bool gbool;
void GOMP_parallel(void (*fn)(void*), void* d, unsigned n, unsigned) { run_parallel(fn, d, n); }
unsigned GOMP_parallel_reductions(void (*fn)(void*), void* d, unsigned n, unsigned) { HERR("task reductions not simulated"); (void)fn; (void)d; return n; }
void GOMP_barrier() { HostScope hs; team_barrier("omp-barrier"); }
gbool GOMP_cancel(int, gbool) { return false; }
gbool GOMP_cancellation_point(int) { return false; }
gbool GOMP_barrier_cancel() { HostScope hs; team_barrier("omp-barrier"); return false; }

static void lock_acquire(std::pair<int, const void*> k, bool nest) {
    if (!sim_on || !cur) return;
    sync_point("omp-lock");
    OLock& l = crit[k];
    int me = cur->id;
    if (nest && l.owner == me) { l.count++; return; }
    if (l.owner == me) block_until("self-locked", [] { return false; });
    while (l.owner != -1) { OLock* lp = &crit[k]; block_until("omp-lock", [lp] { return lp->owner == -1; }); }
    crit[k].owner = me; crit[k].count = 1;
}
static void lock_release(std::pair<int, const void*> k) {
    if (!sim_on || !cur) return;
    OLock& l = crit[k];
    if (--l.count <= 0) { l.owner = -1; l.count = 0; }
    progress();
    sync_point("omp-unlock");
}
static int rk() { return cur ? cur->rank : 0; }
void GOMP_critical_start() { HostScope hs; lock_acquire({rk(), nullptr}, false); }
void GOMP_critical_end() { HostScope hs; lock_release({rk(), nullptr}); }
void GOMP_critical_name_start(void** p) { HostScope hs; lock_acquire({rk(), p}, false); }
void GOMP_critical_name_end(void** p) { HostScope hs; lock_release({rk(), p}); }
void GOMP_atomic_start() { HostScope hs; lock_acquire({rk(), (void*)1}, false); }
void GOMP_atomic_end() { HostScope hs; lock_release({rk(), (void*)1}); }

#define DYNSTART(NAME, GUIDED) \
gbool GOMP_loop_##NAME##_start(long s, long e, long i, long c, long* ps, long* pe) { HostScope hs; LoopShare* l = enter_loop(s, e, i, c); return next_dyn(l, ps, pe, GUIDED); } \
gbool GOMP_loop_##NAME##_next(long* ps, long* pe) { HostScope hs; LoopShare* l = T() ? cur_loop() : &solo; return next_dyn(l, ps, pe, GUIDED); }
DYNSTART(dynamic, false) DYNSTART(nonmonotonic_dynamic, false) DYNSTART(guided, true) DYNSTART(nonmonotonic_guided, true)
DYNSTART(runtime_x, false)
gbool GOMP_loop_runtime_start(long s, long e, long i, long* ps, long* pe) { return GOMP_loop_dynamic_start(s, e, i, 1, ps, pe); }
gbool GOMP_loop_runtime_next(long* ps, long* pe) { return GOMP_loop_dynamic_next(ps, pe); }
gbool GOMP_loop_maybe_nonmonotonic_runtime_start(long s, long e, long i, long* ps, long* pe) { return GOMP_loop_dynamic_start(s, e, i, 1, ps, pe); }
gbool GOMP_loop_maybe_nonmonotonic_runtime_next(long* ps, long* pe) { return GOMP_loop_dynamic_next(ps, pe); }
gbool GOMP_loop_nonmonotonic_runtime_start(long s, long e, long i, long* ps, long* pe) { return GOMP_loop_dynamic_start(s, e, i, 1, ps, pe); }
gbool GOMP_loop_nonmonotonic_runtime_next(long* ps, long* pe) { return GOMP_loop_dynamic_next(ps, pe); }
gbool GOMP_loop_static_start(long s, long e, long i, long c, long* ps, long* pe) {
    HostScope hs;
    LoopShare* l = enter_loop(s, e, i, c); (void)l;
    Team* t = T(); int n = t ? t->n : 1, me = t ? cur->tnum : 0;
    long tot = i > 0 ? (e - s + i - 1) / i : (s - e - i - 1) / -i; if (tot < 0) tot = 0;
    if (c <= 0) c = (tot + n - 1) / n;
    if (c < 1) c = 1;
    long k = (long)me * c;
    stat_pos[{cur->id, cur->ws_seq}] = k + (long)n * c;
    if (k >= tot) return false;
    long k2 = std::min(k + c, tot);
    *ps = s + k * i; *pe = s + k2 * i;
    return true;
}
gbool GOMP_loop_static_next(long* ps, long* pe) {
    HostScope hs;
    LoopShare* l = T() ? cur_loop() : &solo; Team* t = T(); int n = t ? t->n : 1;
    long i = l->incr, s = l->start, e = l->end;
    long tot = i > 0 ? (e - s + i - 1) / i : (s - e - i - 1) / -i;
    long c = l->chunk <= 0 ? (tot + n - 1) / n : l->chunk; if (c < 1) c = 1;
    long& k = stat_pos[{cur->id, cur->ws_seq}];
    if (k >= tot) return false;
    long k2 = std::min(k + c, tot);
    *ps = s + k * i; *pe = s + k2 * i; k += (long)n * c;
    return true;
}
gbool GOMP_loop_start(long s, long e, long i, long sched, long c, long* ps, long* pe, unsigned long*, void**) {
    int k = (int)(sched & 0x7fffffff);
    if (k == 1) return ps ? GOMP_loop_static_start(s, e, i, c, ps, pe) : true;
    HostScope hs; LoopShare* l = enter_loop(s, e, i, c);
    return ps ? next_dyn(l, ps, pe, k == 3) : true;
}
void GOMP_loop_end() { HostScope hs; leave_loop(); team_barrier("omp-loop-end"); }
gbool GOMP_loop_end_cancel() { GOMP_loop_end(); return false; }
void GOMP_loop_end_nowait() { HostScope hs; leave_loop(); sync_point("omp-loop-end"); }
// unsigned long long loops
typedef unsigned long long ull;
#define ULLDYN(NAME) \
gbool GOMP_loop_ull_##NAME##_start(gbool up, ull s, ull e, ull i, ull c, ull* ps, ull* pe) { (void)up; return GOMP_loop_dynamic_start((long)s, (long)e, (long)i, (long)c, (long*)ps, (long*)pe); } \
gbool GOMP_loop_ull_##NAME##_next(ull* ps, ull* pe) { return GOMP_loop_dynamic_next((long*)ps, (long*)pe); }
ULLDYN(dynamic) ULLDYN(nonmonotonic_dynamic)
#define PLOOP(NAME, GUIDED) \
void GOMP_parallel_loop_##NAME(void (*fn)(void*), void* d, unsigned n, long s, long e, long i, long c, unsigned) { \
    run_parallel(fn, d, n, [=](Team* t) { LoopShare& l = t->loops[0]; l.used = true; l.seq = 0; l.start = s; l.end = e; l.incr = i; l.chunk = c < 1 ? 1 : c; l.next = s; l.left = t->n; }); }
PLOOP(dynamic, false) PLOOP(nonmonotonic_dynamic, false) PLOOP(guided, true) PLOOP(nonmonotonic_guided, true)
void GOMP_parallel_loop_runtime(void (*fn)(void*), void* d, unsigned n, long s, long e, long i, unsigned f) { GOMP_parallel_loop_dynamic(fn, d, n, s, e, i, 1, f); }
void GOMP_parallel_loop_maybe_nonmonotonic_runtime(void (*fn)(void*), void* d, unsigned n, long s, long e, long i, unsigned f) { GOMP_parallel_loop_dynamic(fn, d, n, s, e, i, 1, f); }

gbool GOMP_single_start() {
    HostScope hs; sync_point("omp-single");
    Team* t = T(); if (!t) return true;
    cur->ws_seq++;
    int& k = t->singles[cur->ws_seq];
    return k++ == 0;
}
void* GOMP_single_copy_start() {
    HostScope hs; Team* t = T(); if (!t) return nullptr;
    cur->ws_seq++;
    int& k = t->singles[cur->ws_seq];
    if (k++ == 0) return nullptr;
    team_barrier("omp-copyprivate");
    void* r = t->copyprivate;
    team_barrier("omp-copyprivate");
    return r;
}
void GOMP_single_copy_end(void* p) { HostScope hs; Team* t = T(); if (!t) return; t->copyprivate = p; team_barrier("omp-copyprivate"); team_barrier("omp-copyprivate"); }
unsigned GOMP_sections_start(unsigned n) {
    HostScope hs; Team* t = T(); if (!t) { solo.next = 1; solo.end = n; return n ? (solo.next = 2, 1) : 0; }
    cur->ws_seq++;
    int& k = t->sections[cur->ws_seq]; t->nsec = n;
    sync_point("omp-section");
    return k < (int)n ? (unsigned)++k : 0;
}
unsigned GOMP_sections_next() {
    HostScope hs; Team* t = T(); if (!t) return solo.next <= solo.end ? (unsigned)solo.next++ : 0;
    sync_point("omp-section");
    int& k = t->sections[cur->ws_seq];
    return k < (int)t->nsec ? (unsigned)++k : 0;
}
void GOMP_parallel_sections(void (*fn)(void*), void* d, unsigned n, unsigned cntn, unsigned) { run_parallel(fn, d, n, [=](Team* t) { t->nsec = cntn; }); }
void GOMP_sections_end() { GOMP_barrier(); }
void GOMP_sections_end_nowait() {}
void GOMP_task(void (*fn)(void*), void* data, void (*cpyfn)(void*, void*), long arg_size, long arg_align, gbool, unsigned, void**, int, void*) {
    // Undeferred execution is always legal.
    if (cpyfn) { char* buf = (char*)alloca(arg_size + arg_align); buf = (char*)(((size_t)buf + arg_align - 1) / arg_align * arg_align); cpyfn(buf, data); fn(buf); }
    else fn(data);
}
void GOMP_taskwait() {}
void GOMP_taskyield() {}
void GOMP_taskgroup_start() {}
void GOMP_taskgroup_end() {}
void GOMP_ordered_start() { HERR("omp ordered not simulated"); }
void GOMP_ordered_end() {}

int omp_get_thread_num() { HostScope hs; return T() ? cur->tnum : 0; }
int omp_get_num_threads() { HostScope hs; return T() ? T()->n : 1; }
int omp_get_max_threads() { HostScope hs; return icv().nthreads; }
void omp_set_num_threads(int n) { HostScope hs; icv().nthreads = n < 1 ? 1 : n; }
int omp_get_num_procs() { return P.procs; }
int omp_get_level() { HostScope hs; return T() ? T()->level : 0; }
int omp_get_active_level() { HostScope hs; return T() ? T()->active : 0; }
int omp_in_parallel() { HostScope hs; return T() && T()->active > 0; }
int omp_get_team_size(int l) { HostScope hs; Team* t = T(); while (t && t->level > l) t = t->parent; return t && t->level == l ? t->n : (l == 0 ? 1 : -1); }
int omp_get_ancestor_thread_num(int l) {
    HostScope hs; Team* t = T(); if (l == 0) return 0;
    int me = cur ? cur->tnum : 0;
    while (t && t->level > l) { me = t->parent_tnum; t = t->parent; }
    return t && t->level == l ? me : -1;
}
void omp_set_nested(int v) { HostScope hs; max_active[rk()] = v ? 1 << 20 : 1; }
int omp_get_nested() { HostScope hs; return max_active[rk()] > 1; }
void omp_set_max_active_levels(int n) { HostScope hs; max_active[rk()] = n; }
int omp_get_max_active_levels() { HostScope hs; return max_active[rk()]; }
void omp_set_dynamic(int v) { HostScope hs; icv().dyn = v; }
int omp_get_dynamic() { HostScope hs; return icv().dyn; }
int omp_get_thread_limit() { return FIB_PER_RANK / 2; }
int omp_get_supported_active_levels() { return 1 << 20; }
void omp_set_schedule(int, int) {}
void omp_get_schedule(int* k, int* c) { *k = 2; *c = 1; }
int omp_get_default_device() { return 0; }
void omp_set_default_device(int) {}
int omp_get_num_devices() { return 0; }
int omp_get_initial_device() { return 0; }
int omp_is_initial_device() { return 1; }
int omp_get_proc_bind() { return 0; }
int omp_get_num_places() { return 0; }
int omp_get_place_num() { return -1; }
int omp_get_cancellation() { return 0; }
double omp_get_wtime() { struct timespec { long s, n; } ts; extern int clock_gettime(int, void*) noexcept; clock_gettime(1, &ts); return ts.s + ts.n * 1e-9; }
double omp_get_wtick() { return 1e-9; }
void omp_init_lock(void* l) { HostScope hs; crit[{rk(), l}] = OLock(); }
void omp_init_lock_with_hint(void* l, int) { omp_init_lock(l); }
void omp_destroy_lock(void* l) { HostScope hs; crit.erase({rk(), l}); }
void omp_set_lock(void* l) { HostScope hs; lock_acquire({rk(), l}, false); }
void omp_unset_lock(void* l) { HostScope hs; lock_release({rk(), l}); }
int omp_test_lock(void* l) { HostScope hs; OLock& k = crit[{rk(), l}]; if (k.owner != -1) { spin_point("omp-test-lock"); return 0; } k.owner = cur ? cur->id : 0; k.count = 1; return 1; }
void omp_init_nest_lock(void* l) { omp_init_lock(l); }
void omp_destroy_nest_lock(void* l) { omp_destroy_lock(l); }
void omp_set_nest_lock(void* l) { HostScope hs; lock_acquire({rk(), l}, true); }
void omp_unset_nest_lock(void* l) { omp_unset_lock(l); }
}
