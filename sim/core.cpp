#include <dlfcn.h>
#include "core.hpp"
#include <sys/mman.h>
#include <unistd.h>
#include <fcntl.h>
#include <cstring>
#include <cxxabi.h>
#include <time.h>
#include <sys/time.h>
#include <errno.h>
#include <exception>
#include <signal.h>

const char* ck_name[] = { "", "preempt", "switch", "delay", "lazy", "late", "testfail", "stall", "tstall", "clock", "fewer", "misc" };
const char* cnt_name[] = { "accesses", "switches", "preemptions", "messages", "message_bytes", "empty_messages", "lazy_sends", "late_completions",
    "spurious_test_failures", "rank_stalls", "thread_stalls", "cross_channel_reorders", "clock_jumps", "fewer_threads", "alloc_failures",
    "shm_windows", "collectives", "omp_regions", "nested_omp_regions", "observations", "spins", "pauses", "sim_us", "conflict_points",
    "ops", "tests_incomplete", "waits_blocked", "rejected_configs", "expected_exceptions", "io_faults", "probe_autotune_trials", "probe_shm_lock_waits",
    "probe_temporal_blocking", "probe_overlap_comms", "probe_multi_outer_threads", "probe_bind_inner", "probe_reduction", "probe_slice_clip" };
u64 cnt[CNT_N];
static_assert(sizeof(cnt_name)/sizeof(cnt_name[0]) == CNT_N, "cnt names");

SimParams P;
bool sim_on = false;
int host_depth = 0;
Fiber* cur = nullptr;
i64 sim_now = 0;
u64 ev_hash = 1469598103934665603ULL;
int n_ranks = 0;
SoRange so_range[MAX_RANKS];
SimHost g_host;

void hash_in(u64 v) { ev_hash = (ev_hash ^ v) * 1099511628211ULL; ev_hash ^= ev_hash >> 29; }

// ------------------------------------------------------------------ choices
static Rng rng;
bool replay_mode = false;
std::vector<TraceEnt> trace_out;
static std::unordered_map<u64, std::vector<std::pair<u64,u64>>> trace_in;   // (kind,actor) -> sorted (idx,val)
static u64 choice_idx[CK_MISC + 1][MAX_RANKS * FIB_PER_RANK];

void trace_load(const std::vector<TraceEnt>& t) {
    trace_in.clear();
    for (auto& e : t) trace_in[(u64)e.kind << 32 | (u64)e.actor].push_back({e.idx, e.val});
    for (auto& kv : trace_in) std::sort(kv.second.begin(), kv.second.end());
}
static u64 trace_lookup(int kind, int actor, u64 idx) {
    auto it = trace_in.find((u64)kind << 32 | (u64)actor);
    if (it == trace_in.end()) return 0;
    auto p = std::lower_bound(it->second.begin(), it->second.end(), std::make_pair(idx, (u64)0));
    if (p == it->second.end() || p->first != idx) return 0;
    return p->second;
}
// Next preemption point of a fiber in replay mode.
static u64 trace_next_point(int actor, u64 after) {
    auto it = trace_in.find((u64)CK_PREEMPT << 32 | (u64)actor);
    if (it == trace_in.end()) return ~0ULL;
    auto p = std::lower_bound(it->second.begin(), it->second.end(), std::make_pair(after + 1, (u64)0));
    return p == it->second.end() ? ~0ULL : p->first;
}
u64 choose(int kind, int actor, int pct, u64 n) {
    u64 idx = choice_idx[kind][actor]++;
    u64 v = 0;
    if (replay_mode) { v = trace_lookup(kind, actor, idx); if (n) v %= n; }
    else if (n > 1 && pct > 0 && rng.pct(pct)) v = 1 + rng.below(n - 1);
    if (v) {
        if (!replay_mode) trace_out.push_back({kind, actor, idx, v});
        hash_in(((u64)kind << 48) ^ ((u64)actor << 32) ^ idx); hash_in(v);
    }
    return v;
}

// ------------------------------------------------------------------ fibers
extern "C" void sim_switch_ctx(void** save, void* to);
asm(R"(
.text
.globl sim_switch_ctx
.type sim_switch_ctx,@function
sim_switch_ctx:
  pushq %rbp
  pushq %rbx
  pushq %r12
  pushq %r13
  pushq %r14
  pushq %r15
  subq $8, %rsp
  stmxcsr (%rsp)
  fnstcw 4(%rsp)
  movq %rsp, (%rdi)
  movq %rsi, %rsp
  ldmxcsr (%rsp)
  fldcw 4(%rsp)
  addq $8, %rsp
  popq %r15
  popq %r14
  popq %r13
  popq %r12
  popq %rbx
  popq %rbp
  ret
.size sim_switch_ctx,.-sim_switch_ctx
)");

static const size_t STACK_SZ = 1 << 20;
static char* const STACK_BASE = (char*)0x200000000000ULL;
static Fiber fibers[MAX_RANKS * FIB_PER_RANK];
static std::vector<Fiber*> live;          // sorted by id
static Fiber main_fiber;
struct Ev { i64 t; u64 seq; std::function<void()> fn; };
struct EvCmp { bool operator()(const Ev& a, const Ev& b) const { return a.t > b.t || (a.t == b.t && a.seq > b.seq); } };
static std::vector<Ev> evq;
static u64 ev_seq = 0;
static u64 epoch = 1;                     // bumped whenever anything may have changed
static u64 idle_rounds = 0;
static long countdown = 1L << 60;
static u64 quantum_left = 0;
static const u64 QUANTUM = 3000000;       // forced switch for loops that never synchronise
static const u64 SWITCH_BUDGET = 8000000;
static u64 replay_next = ~0ULL;
static std::vector<u64> pct_points;

void at_time(i64 t, std::function<void()> fn) {
    evq.push_back({t, ev_seq++, std::move(fn)});
    std::push_heap(evq.begin(), evq.end(), EvCmp());
}
void progress() { epoch++; idle_rounds = 0; }

static void fire_due() {
    while (!evq.empty() && evq.front().t <= sim_now) {
        std::pop_heap(evq.begin(), evq.end(), EvCmp());
        Ev e = std::move(evq.back()); evq.pop_back();
        epoch++;
        e.fn();
    }
}

struct EhGlobals { void* caught; unsigned int uncaught; };
extern "C" EhGlobals* __cxa_get_globals() noexcept;

static void do_switch(Fiber* to) {
    Fiber* from = cur;
    if (to == from) return;
    cnt[C_SWITCH]++;
    if (cnt[C_SWITCH] > SWITCH_BUDGET)
        VIOL("no-progress", "step budget exhausted (%llu context switches): no termination", (unsigned long long)cnt[C_SWITCH]);
    hash_in(0x5157ULL << 32 | (u64)(from->id << 16) | (u64)to->id); hash_in(from->points);
    sim_now += 30;
    EhGlobals* g = (EhGlobals*)__cxa_get_globals();
    from->eh_caught = g->caught; from->eh_uncaught = g->uncaught;
    from->host_depth = host_depth;
    cur = to;
    host_depth = to->host_depth;
    g->caught = to->eh_caught; g->uncaught = to->eh_uncaught;
    quantum_left = QUANTUM;
    if (replay_mode) { replay_next = trace_next_point(to->id, to->points); }
    sim_switch_ctx(&from->sp, to->sp);
}

static bool is_runnable(Fiber* f) {
    if (f->stalled_until > sim_now) return false;
    if (f->blocked) {
        if (!f->ready()) return false;
        return true;
    }
    if (f->spinning && f->spin_epoch == epoch && cnt[C_ACC] - f->spin_t0 < 150) return false;
    return true;
}

static std::string dump_state() {
    std::string s;
    char b[256];
    for (auto f : live) {
        snprintf(b, sizeof b, "[r%d.t%d %s%s @%s pts=%llu] ", f->rank, f->slot, f->blocked ? "blocked" : f->spinning ? "spinning" : "runnable",
                 f->stalled_until > sim_now ? "(stalled)" : "", f->where, (unsigned long long)f->points);
        s += b;
    }
    return s;
}

// Find candidates other than 'except' (may be null). Advances simulated time if
// nothing can run.
static std::vector<Fiber*> cand;
static void find_candidates(Fiber* except) {
    for (;;) {
        fire_due();
        cand.clear();
        for (auto f : live) if (f != except && is_runnable(f)) cand.push_back(f);
        if (!cand.empty()) return;
        if (except) return;
        // Nothing can run: advance time to the next event or the end of a stall.
        i64 t = -1;
        if (!evq.empty()) t = evq.front().t;
        for (auto f : live) if (f->stalled_until > sim_now && (t < 0 || f->stalled_until < t)) t = f->stalled_until;
        if (t >= 0) { if (t > sim_now) sim_now = t; epoch++; continue; }
        // No events: only spinners (or nobody) left.
        bool anyspin = false;
        for (auto f : live) if (f->spinning) anyspin = true;
        if (!anyspin)
            VIOL("deadlock", "deadlock: every thread is blocked and no message is in flight: %s", dump_state().c_str());
        if (++idle_rounds > 3000)
            VIOL("deadlock", "livelock: all threads only poll and nothing is in flight: %s", dump_state().c_str());
        sim_now += 1000;
        epoch++;
    }
}

static Fiber* pick(Fiber* except, int kind) {
    // 'cand' is non-empty.
    (void)except;
    std::vector<Fiber*>& c = cand;
    // rotate so that index 0 is the next one after cur.
    size_t start = 0;
    for (size_t i = 0; i < c.size(); i++) if (cur && c[i]->id > cur->id) { start = i; break; }
    u64 v = 0;
    if (c.size() > 1) {
        u64 idx = choice_idx[kind][cur ? cur->id : 0]++;
        int a = cur ? cur->id : 0;
        if (replay_mode) v = trace_lookup(kind, a, idx) % c.size();
        else if (P.mode == 4) {
            size_t best = 0;
            for (size_t i = 1; i < c.size(); i++) if (c[(start+i)%c.size()]->prio > c[(start+best)%c.size()]->prio) best = i;
            v = best;
        }
        else v = rng.below(c.size());
        if (v && !replay_mode) trace_out.push_back({kind, a, idx, v});
    }
    return c[(start + v) % c.size()];
}

static void resched() {
    // cur cannot continue now (blocked, spinning or dead).
    find_candidates(nullptr);
    Fiber* n = pick(nullptr, CK_SWITCH);
    n->spinning = false;
    do_switch(n);
}

static void maybe_stalls() {
    if (P.stall_pct && n_ranks > 1) {
        if (choose(CK_STALL, cur->id, P.stall_pct > 100 ? 100 : P.stall_pct, 2)) {
            cnt[C_STALL]++;
            i64 d = 20000 + (i64)(cnt[C_STALL] % 7) * 60000;
            for (auto f : live) if (f->rank == cur->rank) f->stalled_until = std::max(f->stalled_until, sim_now + d);
        }
    }
    if (P.tstall_pct) {
        if (choose(CK_TSTALL, cur->id, P.tstall_pct, 2)) {
            cnt[C_TSTALL]++;
            cur->stalled_until = sim_now + 5000 + (i64)(cnt[C_TSTALL] % 5) * 10000;
        }
    }
}

static void preempt_to_other() {
    find_candidates(cur);
    if (cand.empty()) return;
    cnt[C_PREEMPT]++;
    Fiber* n = pick(cur, CK_SWITCH);
    n->spinning = false;
    do_switch(n);
}

static void new_countdown() {
    if (replay_mode) { countdown = 1L << 60; return; }
    if (P.mode == 1 || P.mode == 3) countdown = 1 + (long)rng.below(2 * P.interval);
    else countdown = 1L << 60;
}

// Preemption decision at point cur->points (already incremented).
static void preempt_now() {
    if (!replay_mode) trace_out.push_back({CK_PREEMPT, cur->id, cur->points, 1});
    hash_in(0x9e37ULL ^ cur->points);
    HostScope hs;
    preempt_to_other();
    if (replay_mode) replay_next = trace_next_point(cur->id, cur->points);
}

void sync_point(const char* where) {
    if (!sim_on || !cur) return;
    cur->where = where;
    cur->points++;
    sim_now += 10;
    cur->spinning = false;
    if (cur->points - cur->last_spin_points > 3000) idle_rounds = 0;
    maybe_stalls();
    fire_due();
    if (cur->stalled_until > sim_now) { resched(); return; }
    if (live.size() < 2) return;
    bool sw;
    if (replay_mode) sw = trace_lookup(CK_PREEMPT, cur->id, cur->points) != 0;
    else {
        sw = P.mode == 0 ? false : P.mode == 4 ? true : rng.pct(40);
        if (P.mode == 4) {   // switch only if a higher-priority thread can run
            find_candidates(cur);
            sw = false;
            for (auto f : cand) if (f->prio > cur->prio) sw = true;
        }
    }
    if (sw) preempt_now();
}

void spin_point(const char* where) {
    if (!sim_on || !cur) return;
    cnt[C_SPIN]++;
    cur->where = where;
    cur->points++;
    sim_now += 20;
    if (cur->points - cur->last_spin_points > 3000) idle_rounds = 0;
    cur->last_spin_points = cur->points;
    maybe_stalls();
    fire_due();
    cur->spinning = true;
    cur->spin_epoch = epoch;
    cur->spin_t0 = cnt[C_ACC];
    // Let the others run first; if there are none, time advances.
    resched();
    cur->spinning = false;
}

void block_until(const char* where, std::function<bool()> ready) {
    cur->where = where;
    cur->points++;
    fire_due();
    while (!ready()) {
        cur->blocked = true;
        cur->ready = ready;
        resched();
        cur->blocked = false;
        cur->ready = nullptr;
    }
    cur->blocked = false;
    epoch++;
}

static void fiber_exit();
static void fiber_main() {
    Fiber* f = cur;
    host_depth = 0;
    try { f->entry(); }
    catch (std::exception& e) { host_depth++; VIOL("terminate", "exception escaped a thread (std::terminate): %s", e.what()); }
    catch (...) { host_depth++; VIOL("terminate", "exception escaped a thread (std::terminate)"); }
    host_depth++;
    fiber_exit();
}

static void fiber_exit() {
    Fiber* f = cur;
    f->alive = false;
    live.erase(std::find(live.begin(), live.end(), f));
    epoch++; idle_rounds = 0;
    f->entry = nullptr;
    if (live.empty()) { do_switch(&main_fiber); abort(); }
    resched();
    abort();
}

Fiber* new_fiber(int rank, std::function<void()> fn) {
    int s = 0;
    while (s < FIB_PER_RANK && fibers[rank * FIB_PER_RANK + s].alive) s++;
    if (s == FIB_PER_RANK) HERR("too many threads in rank %d", rank);
    Fiber* f = &fibers[rank * FIB_PER_RANK + s];
    u64 pts = f->points; char* stk = f->stack;
    *f = Fiber();
    f->points = pts; f->stack = stk;
    f->rank = rank; f->slot = s; f->id = rank * FIB_PER_RANK + s;
    if (!f->stack) {
        char* want = STACK_BASE + (size_t)f->id * (STACK_SZ * 2);
        f->stack = (char*)mmap(want, STACK_SZ, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0);
        if (f->stack != want) HERR("cannot map fiber stack");
    }
    // initial frame
    u64* top = (u64*)(f->stack + STACK_SZ - 64);
    *--top = 0;                       // fake return address keeps alignment
    *--top = (u64)&fiber_main;        // ret target
    for (int i = 0; i < 6; i++) *--top = 0;
    u64 cw; { unsigned mx; unsigned short fc; asm volatile("stmxcsr %0" : "=m"(mx)); asm volatile("fnstcw %0" : "=m"(fc)); cw = (u64)mx | ((u64)fc << 32); }
    *--top = cw;
    f->sp = top;
    f->entry = std::move(fn);
    f->alive = true;
    f->host_depth = 0;
    f->prio = replay_mode ? 0 : (long)rng.below(1000000);
    live.insert(std::upper_bound(live.begin(), live.end(), f, [](Fiber* a, Fiber* b) { return a->id < b->id; }), f);
    epoch++;
    return f;
}

void run_fibers() {
    rng.s = P.seed * 0x9e3779b97f4a7c15ULL + 77;
    new_countdown();
    if (P.mode == 4 && !replay_mode) {
        for (int i = 0; i < P.pct_changes; i++) pct_points.push_back(1000 + rng.below(400000));
        std::sort(pct_points.begin(), pct_points.end());
        countdown = pct_points.empty() ? 1L << 60 : (long)pct_points[0];
    }
    for (auto f : live) f->prio = replay_mode ? 0 : (long)rng.below(1000000);
    main_fiber.id = MAX_RANKS * FIB_PER_RANK;
    cur = &main_fiber;
    sim_on = true;
    host_depth = 1;
    find_candidates(nullptr);
    cur = &main_fiber;
    // first pick is made as if by fiber 0
    Fiber* n = cand[0];
    do_switch(n);
    host_depth = 1;
    sim_on = false;
}

// ------------------------------------------------------------------ memory accesses (tsan callbacks)
struct Conf { u64 addr; int fiber; uint8_t wrote, shared; uint16_t hits; };
static Conf conf[1 << 14];

static char* const ARENA = (char*)0x100000000000ULL;
static const size_t ARENA_PER_RANK = 1ULL << 30;
static unsigned char* shadow = nullptr;   // 1 byte per 8 bytes
static char* const SHM_BASE = (char*)0x300000000000ULL;
static const size_t SHM_PER_RANK = 1ULL << 30;
static size_t shm_used = 0;
static int shm_fd = -1;
static std::map<size_t,size_t> shm_blocks;

u64 canon(const void* p) {
    char* c = (char*)p;
    if (c >= ARENA && c < ARENA + ARENA_PER_RANK * MAX_RANKS) return (1ULL << 60) | (u64)(c - ARENA);
    if (c >= STACK_BASE && c < STACK_BASE + (size_t)MAX_RANKS * FIB_PER_RANK * STACK_SZ * 2) return (2ULL << 60) | (u64)(c - STACK_BASE);
    if (c >= SHM_BASE && c < SHM_BASE + SHM_PER_RANK * MAX_RANKS) return (3ULL << 60) | ((u64)(c - SHM_BASE) % SHM_PER_RANK);
    for (int r = 0; r < n_ranks; r++)
        if (c >= so_range[r].lo && c < so_range[r].hi) return (4ULL << 60) | ((u64)r << 40) | (u64)(c - so_range[r].lo);
    return 0;
}

std::string describe_addr(const void* p);
void maybe_backtrace();
static void bad_access(void* p, size_t n, bool w) {
    HostScope hs;
    maybe_backtrace();
    VIOL("bad-access", "rank %d thread %d: %s of %zu bytes outside any live allocation (%s)",
         cur->rank, cur->slot, w ? "write" : "read", n, describe_addr(p).c_str());
}

static void __attribute__((noinline)) access_slow(void* p, size_t n, bool w) {
    (void)p; (void)n; (void)w;
    HostScope hs;
    if (cnt[C_ACC] > (u64)P.budget * 1000000)
        VIOL("no-progress", "step budget exhausted (%llu memory accesses): no termination; %s", (unsigned long long)cnt[C_ACC], dump_state().c_str());
    if (replay_mode) {
        if (cur->points >= replay_next) { preempt_now(); }
        else if ((long)quantum_left <= 0) { quantum_left = QUANTUM; preempt_to_other(); }
        return;
    }
    if ((long)quantum_left <= 0) { quantum_left = QUANTUM; preempt_to_other(); return; }
    if (P.mode == 4) {
        // priority change point: current thread becomes the lowest
        static size_t k = 0;
        k++;
        cur->prio = -(long)k;
        countdown = k < pct_points.size() ? (long)(pct_points[k] - pct_points[k-1]) + 1 : 1L << 60;
        sim_now += 5;
        if (live.size() > 1) preempt_now();
        return;
    }
    new_countdown();
    if (live.size() > 1) preempt_now();
}

static inline void mem_access(void* p, size_t n, bool w) {
    if (!sim_on || host_depth) return;
    cnt[C_ACC]++;
    cur->points++;
    char* c = (char*)p;
    if (P.memcheck) {
        size_t off = (size_t)(c - ARENA);
        if (off < ARENA_PER_RANK * MAX_RANKS) {
            if (!shadow[off >> 3] || !shadow[(off + n - 1) >> 3]) bad_access(p, n, w);
        }
    }
    quantum_left--;
    if (replay_mode) {
        if (cur->points >= replay_next || (long)quantum_left <= 0) access_slow(p, n, w);
        return;
    }
    if ((long)quantum_left <= 0) { access_slow(p, n, w); return; }
    if (--countdown <= 0) { access_slow(p, n, w); return; }
    if (P.mode == 2 || P.mode == 3) {
        if (live.size() < 2) return;
        u64 a = canon(p);
        if (!a) return;
        a >>= 3;
        Conf& e = conf[(a * 0x9e3779b97f4a7c15ULL) >> 50];
        if (e.addr != a) { e.addr = a; e.fiber = cur->id; e.wrote = w; e.shared = 0; e.hits = 0; return; }
        if (e.fiber != cur->id) {
            if (w || e.wrote) e.shared = 1;
            e.fiber = cur->id; e.wrote = w;
        } else e.wrote |= w;
        if (e.shared) {
            cnt[C_CONFLICT]++;
            if (e.hits < 60000) e.hits++;
            int pc = P.conflict_pct;
            if (e.hits > 400) pc = pc / 8; else if (e.hits > 100) pc = pc / 2;
            HostScope hs;
            if (pc > 0 && rng.pct(pc)) preempt_now();
        }
    }
}

extern "C" {
void __tsan_init() {}
void __tsan_func_entry(void*) {}
void __tsan_func_exit() {}
#define RW(N) \
void __tsan_read##N(void* p) { mem_access(p, N, false); } \
void __tsan_write##N(void* p) { mem_access(p, N, true); } \
void __tsan_unaligned_read##N(void* p) { mem_access(p, N, false); } \
void __tsan_unaligned_write##N(void* p) { mem_access(p, N, true); } \
void __tsan_volatile_read##N(void* p) { mem_access(p, N, false); } \
void __tsan_volatile_write##N(void* p) { mem_access(p, N, true); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void* p, unsigned long n) { mem_access(p, n ? n : 1, false); }
void __tsan_write_range(void* p, unsigned long n) { mem_access(p, n ? n : 1, true); }
void __tsan_vptr_update(void** p, void*) { mem_access(p, 8, true); }
void __tsan_vptr_read(void** p) { mem_access(p, 8, false); }
#define AT(N, T) \
T __tsan_atomic##N##_load(const volatile T* p, int) { mem_access((void*)p, sizeof(T), false); return *p; } \
void __tsan_atomic##N##_store(volatile T* p, T v, int) { mem_access((void*)p, sizeof(T), true); *p = v; } \
T __tsan_atomic##N##_exchange(volatile T* p, T v, int) { mem_access((void*)p, sizeof(T), true); T o = *p; *p = v; return o; } \
T __tsan_atomic##N##_fetch_add(volatile T* p, T v, int) { mem_access((void*)p, sizeof(T), true); T o = *p; *p = (T)(o + v); return o; } \
T __tsan_atomic##N##_fetch_sub(volatile T* p, T v, int) { mem_access((void*)p, sizeof(T), true); T o = *p; *p = (T)(o - v); return o; } \
T __tsan_atomic##N##_fetch_and(volatile T* p, T v, int) { mem_access((void*)p, sizeof(T), true); T o = *p; *p = (T)(o & v); return o; } \
T __tsan_atomic##N##_fetch_or(volatile T* p, T v, int) { mem_access((void*)p, sizeof(T), true); T o = *p; *p = (T)(o | v); return o; } \
T __tsan_atomic##N##_fetch_xor(volatile T* p, T v, int) { mem_access((void*)p, sizeof(T), true); T o = *p; *p = (T)(o ^ v); return o; } \
int __tsan_atomic##N##_compare_exchange_strong(volatile T* p, T* c, T v, int, int) { mem_access((void*)p, sizeof(T), true); \
    if (*p == *c) { *p = v; return 1; } *c = *p; return 0; } \
int __tsan_atomic##N##_compare_exchange_weak(volatile T* p, T* c, T v, int a, int b) { return __tsan_atomic##N##_compare_exchange_strong(p, c, v, a, b); } \
T __tsan_atomic##N##_compare_exchange_val(volatile T* p, T c, T v, int, int) { mem_access((void*)p, sizeof(T), true); T o = *p; if (o == c) *p = v; return o; }
AT(8, unsigned char) AT(16, unsigned short) AT(32, unsigned int) AT(64, unsigned long)
void __tsan_atomic_thread_fence(int) {}
void __tsan_atomic_signal_fence(int) {}
void sim_pause(void) {
    if (!sim_on || host_depth) return;
    HostScope hs;
    cnt[C_PAUSE]++;
    spin_point("pause");
}
}

// ------------------------------------------------------------------ heap
extern "C" {
void* __libc_malloc(size_t); void __libc_free(void*); void* __libc_realloc(void*, size_t);
void* __libc_calloc(size_t, size_t); void* __libc_memalign(size_t, size_t);
// libstdc++ uses non-atomic reference counts when this says 'one thread'.
char __libc_single_threaded = 0;
}

static inline u64 mix_u(u64 a, u64 b) { u64 z = a * 0x9e3779b97f4a7c15ULL + b; z ^= z >> 31; z *= 0xbf58476d1ce4e5b9ULL; return z ^ (z >> 29); }
struct AHdr { u64 magic; u64 size; u64 total; u64 start; };   // immediately before user data
static const u64 MAGIC = 0x56505f4152454e41ULL;
struct ARank { size_t bump; std::map<size_t, std::vector<size_t>> freel; u64 nalloc; };
static ARank arank[MAX_RANKS];
static bool arena_up = false;
static std::set<size_t>* live_allocs = nullptr;    // host-owned

bool in_arena(const void* p) { return (size_t)((char*)p - ARENA) < ARENA_PER_RANK * MAX_RANKS; }

void fill_garbage(void* p, size_t n, u64 seed) {
    // Finite doubles far from any expected value (and odd floats/ints).
    u64* q = (u64*)p;
    u64 s = seed | 1;
    for (size_t i = 0; i < n / 8; i++) { s = s * 6364136223846793005ULL + 1442695040888963407ULL; q[i] = 0x4170000041700000ULL | (s >> 40 & 0xffff) | ((s >> 20) & 0xffff) << 32; }
    for (size_t i = n / 8 * 8; i < n; i++) ((char*)p)[i] = (char)0xa5;
}

void arena_reset(u64 seed) {
    (void)seed;
    void* a = mmap(ARENA, ARENA_PER_RANK * MAX_RANKS, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0);
    if (a != ARENA) HERR("cannot map arena");
    shadow = (unsigned char*)mmap(nullptr, ARENA_PER_RANK * MAX_RANKS / 8, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    if (shadow == MAP_FAILED) HERR("cannot map shadow");
    for (int r = 0; r < MAX_RANKS; r++) { arank[r].bump = 4096; arank[r].freel.clear(); arank[r].nalloc = 0; }
    live_allocs = new std::set<size_t>;
    arena_up = true;
}

struct AllocFail { bool armed = false; long nth = 0, min_bytes = 0, seen = 0, fired = 0; };
static AllocFail afail[MAX_RANKS];
void arm_alloc_fail(int rank, long nth, long minb) { afail[rank] = AllocFail(); afail[rank].armed = true; afail[rank].nth = nth; afail[rank].min_bytes = minb; }
long disarm_alloc_fail(int rank) { afail[rank].armed = false; return afail[rank].fired; }
long alloc_fail_fired(int rank) { return afail[rank].fired; }
long alloc_fail_seen(int rank) { return afail[rank].seen; }

bool inject_alloc_failure(size_t n) {
    AllocFail& a = afail[cur->rank];
    if (!a.armed || (long)n < a.min_bytes) return false;
    if (++a.seen == a.nth) { a.fired++; cnt[C_ALLOCFAIL]++; hash_in(0xa110cULL); return true; }
    return false;
}

void* arena_alloc(int rank, size_t n, size_t align, bool zero) {
    ARank& A = arank[rank];
    size_t un = (n + 15) & ~(size_t)15; if (un == 0) un = 16;
    if (align < 16) align = 16;
    size_t red = 32 + (P.layout ? (mix_u(A.nalloc, P.memseed) % 5) * 64 : 0);
    size_t key = un * 64 + (align > 16 ? 63 - __builtin_clzl(align) : 0);
    A.nalloc++;
    size_t upos;
    auto it = A.freel.find(key);
    if (it != A.freel.end() && !it->second.empty() && (P.layout == 0 || (A.nalloc & 3))) {
        upos = it->second.back(); it->second.pop_back();
        AHdr* h = (AHdr*)(ARENA + upos - sizeof(AHdr)); (void)h;
    } else {
        size_t start = rank * ARENA_PER_RANK + A.bump + sizeof(AHdr) + 16;
        upos = (start + align - 1) / align * align;
        size_t end = upos + un + red;
        if (end - rank * ARENA_PER_RANK > ARENA_PER_RANK) HERR("arena of rank %d exhausted", rank);
        A.bump = end - rank * ARENA_PER_RANK;
    }
    char* u = ARENA + upos;
    AHdr* h = (AHdr*)(u - sizeof(AHdr));
    h->magic = MAGIC; h->size = n; h->total = un; h->start = key;
    memset(shadow + (upos >> 3), 1, un >> 3);
    if (zero) memset(u, 0, un); else fill_garbage(u, un, P.memseed * 31 + upos);
    // canary
    *(u64*)(u + un) = MAGIC ^ upos; *(u64*)(u + un + 8) = MAGIC ^ upos;
    live_allocs->insert(upos);
    return u;
}

std::string describe_addr(const void* p) {
    char b[300];
    size_t o = (char*)p - ARENA;
    auto it = live_allocs->upper_bound(o);
    std::string r;
    if (it != live_allocs->begin()) {
        auto q = it; --q;
        AHdr* h = (AHdr*)(ARENA + *q - sizeof(AHdr));
        snprintf(b, sizeof b, "%lld bytes past the end of a live block of %llu bytes", (long long)(o - *q - h->size), (unsigned long long)h->size); r += b;
    }
    if (it != live_allocs->end()) {
        AHdr* h = (AHdr*)(ARENA + *it - sizeof(AHdr));
        snprintf(b, sizeof b, ", %lld before one of %llu bytes", (long long)(*it - o), (unsigned long long)h->size); r += b;
    }
    return r;
}
#include <execinfo.h>
void maybe_backtrace() {
    if (!getenv("SIM_BT")) return;
    void* a[40]; int n = backtrace(a, 40);
    for (int i = 0; i < n; i++) {
        for (int k = 0; k < MAX_RANKS; k++) if ((char*)a[i] >= so_range[k].lo && (char*)a[i] < so_range[k].hi)
            fprintf(stderr, "bt so 0x%lx\n", (long)((char*)a[i] - so_range[k].lo));
    }
}

static void check_canary(size_t upos, const char* when) {
    char* u = ARENA + upos;
    AHdr* h = (AHdr*)(u - sizeof(AHdr));
    if (h->magic != MAGIC) VIOL("heap-corruption", "heap header overwritten (%s)", when);
    if (*(u64*)(u + h->total) != (MAGIC ^ upos) || *(u64*)(u + h->total + 8) != (MAGIC ^ upos))
        VIOL("heap-corruption", "write past the end of a %llu-byte allocation (%s)", (unsigned long long)h->size, when);
}

void arena_free(void* p) {
    HostScope hs;
    size_t upos = (char*)p - ARENA;
    AHdr* h = (AHdr*)((char*)p - sizeof(AHdr));
    if (!live_allocs->count(upos)) VIOL("heap-corruption", "free of memory that is not allocated");
    check_canary(upos, "at free");
    live_allocs->erase(upos);
    memset(shadow + (upos >> 3), 0, h->total >> 3);
    fill_garbage(p, h->total, P.memseed * 57 + upos);
    arank[upos / ARENA_PER_RANK].freel[h->start].push_back(upos);
}
size_t arena_size_of(void* p) { return ((AHdr*)((char*)p - sizeof(AHdr)))->size; }
void arena_check_all() { if (live_allocs) for (auto u : *live_allocs) check_canary(u, "at end"); }

static inline bool guest() { return sim_on && host_depth == 0 && arena_up; }

static void* galloc(size_t n, size_t al, bool zero, bool storage = false) {
    HostScope hs;
    if (storage && inject_alloc_failure(n)) { errno = ENOMEM; return nullptr; }
    return arena_alloc(cur->rank, n, al, zero);
}
extern "C" {
void* malloc(size_t n) { return guest() ? galloc(n, 16, false) : __libc_malloc(n); }
void free(void* p) { if (!p) return; if (in_arena(p)) arena_free(p); else __libc_free(p); }
void* calloc(size_t a, size_t b) { return guest() ? galloc(a * b, 16, true) : __libc_calloc(a, b); }
void* realloc(void* p, size_t n) {
    if (p && in_arena(p)) {
        HostScope hs;
        size_t o = arena_size_of(p);
        void* q = arena_alloc((int)(((char*)p - ARENA) / ARENA_PER_RANK), n, 16, false);
        memcpy(q, p, o < n ? o : n);
        arena_free(p);
        return q;
    }
    if (!p && guest()) return galloc(n, 16, false);
    return __libc_realloc(p, n);
}
int posix_memalign(void** o, size_t al, size_t n) {
    if (guest()) { void* p = galloc(n, al, false, true); if (!p) return ENOMEM; *o = p; return 0; }
    void* p = __libc_memalign(al, n); if (!p) return ENOMEM; *o = p; return 0;
}
void* memalign(size_t al, size_t n) { return guest() ? galloc(n, al, false, true) : __libc_memalign(al, n); }
void* aligned_alloc(size_t al, size_t n) { return memalign(al, n); }
}

// mmap of anonymous memory by the guest (NUMA path) comes from the arena too.
#include <sys/syscall.h>
extern "C" void* mmap(void* a, size_t n, int pr, int fl, int fd, off_t off) noexcept {
    if (guest() && fd == -1 && (fl & MAP_ANONYMOUS)) {
        HostScope hs;
        if (inject_alloc_failure(n)) { errno = ENOMEM; return MAP_FAILED; }
        return arena_alloc(cur->rank, n, 4096, true);
    }
    return (void*)syscall(SYS_mmap, a, n, pr, fl, fd, off);
}
extern "C" int munmap(void* p, size_t n) noexcept {
    if (in_arena(p) && arena_up) { arena_free(p); return 0; }
    return (int)syscall(SYS_munmap, p, n);
}
extern "C" int madvise(void* p, size_t n, int adv) noexcept {
    if (in_arena(p) && arena_up) return 0;
    return (int)syscall(SYS_madvise, p, n, adv);
}

// ------------------------------------------------------------------ shared memory
void* shm_alloc_map(size_t bytes, int nr, void** bases) {
    if (shm_fd < 0) {
        shm_fd = memfd_create("simshm", 0);
        if (shm_fd < 0 || ftruncate(shm_fd, SHM_PER_RANK)) HERR("cannot create shm");
        for (int r = 0; r < MAX_RANKS; r++) {
            void* w = SHM_BASE + (size_t)r * SHM_PER_RANK;
            if (mmap(w, SHM_PER_RANK, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_NORESERVE | MAP_FIXED_NOREPLACE, shm_fd, 0) != w) HERR("cannot map shm");
        }
    }
    size_t off = shm_used;
    shm_used += (bytes + 4095) / 4096 * 4096 + 4096;
    if (shm_used > SHM_PER_RANK) HERR("shm exhausted");
    fill_garbage(SHM_BASE + off, bytes, P.memseed * 91 + off);
    (void)nr; (void)bases;
    return (void*)off;
}
void* shm_addr(int rank, size_t off) { return SHM_BASE + (size_t)rank * SHM_PER_RANK + off; }

// ------------------------------------------------------------------ clock
static i64 clk_off[MAX_RANKS];
static u64 clk_reads = 0;
i64 rank_clock(int rank) {
    // Monotone; perturbed by the clock model.
    static const i64 rate[5] = { 1, 4, 2, 8, 3 };
    i64 e = sim_now + (i64)cnt[C_ACC] * P.clkscale;
    if (P.clock == 6) e *= rate[(rank + P.memseed) % 5];    // some ranks are faster
    i64 t = 1000000000000000LL + e + clk_off[rank];
    if (P.clock == 5) t = 1000000000000000LL;              // stopped
    if (P.clock == 1) t = t / 1000000 * 1000000;           // 1 ms ticks
    return t;
}
static i64 clock_read() {
    HostScope hs;
    clk_reads++;
    sim_now += 40;
    if (P.clock == 2 && choose(CK_CLOCK, cur->id, 3, 5)) {
        static const i64 J[5] = { 0, 1000000LL, 300000000LL, 5000000000LL, 3600000000000LL };
        clk_off[cur->rank] += J[1 + (clk_reads % 4)]; cnt[C_CLOCKJ]++;
    }
    if (P.clock == 3 && choose(CK_CLOCK, cur->id, 10, 3)) {   // slow processor: time passes
        clk_off[cur->rank] += 20000000LL; cnt[C_CLOCKJ]++;
    }
    if (P.clock == 4 && choose(CK_CLOCK, cur->id, 5, 4)) {    // set back
        clk_off[cur->rank] -= 1000000LL << (clk_reads % 12); cnt[C_CLOCKJ]++;
    }
    i64 t = rank_clock(cur->rank);
    return t;
}
// The program under test ends itself.
extern "C" __attribute__((noreturn)) void exit(int code) {
    if (!sim_on || host_depth || !cur) {
        static void (*real)(int) = (void (*)(int))dlsym(RTLD_NEXT, "exit");
        real(code); abort();
    }
    host_depth++;
    program_exit(cur->rank, code);
}
extern "C" int clock_gettime(clockid_t c, struct timespec* ts) noexcept {
    if (!sim_on || host_depth) return (int)syscall(SYS_clock_gettime, c, ts);
    i64 t = clock_read();
    ts->tv_sec = t / 1000000000LL; ts->tv_nsec = t % 1000000000LL;
    return 0;
}
extern "C" int gettimeofday(struct timeval* tv, void*) noexcept {
    if (!sim_on || host_depth) { struct timespec ts; syscall(SYS_clock_gettime, CLOCK_REALTIME, &ts); tv->tv_sec = ts.tv_sec; tv->tv_usec = ts.tv_nsec / 1000; return 0; }
    i64 t = clock_read();
    tv->tv_sec = t / 1000000000LL; tv->tv_usec = t % 1000000000LL / 1000;
    return 0;
}
extern "C" time_t time(time_t* o) noexcept {
    struct timespec ts; clock_gettime(CLOCK_REALTIME, &ts);
    if (o) *o = ts.tv_sec;
    return ts.tv_sec;
}
static void sim_sleep(i64 ns) {
    HostScope hs;
    i64 until = sim_now + ns;
    at_time(until, []{});
    block_until("sleep", [until]{ return sim_now >= until; });
}
extern "C" int nanosleep(const struct timespec* r, struct timespec*) {
    if (!sim_on || host_depth) return (int)syscall(SYS_nanosleep, r, nullptr);
    sim_sleep(r->tv_sec * 1000000000LL + r->tv_nsec); return 0;
}
extern "C" int clock_nanosleep(clockid_t, int, const struct timespec* r, struct timespec*) {
    return nanosleep(r, nullptr);
}
extern "C" int usleep(useconds_t u) {
    if (!sim_on || host_depth) { struct timespec ts = { u / 1000000, (long)(u % 1000000) * 1000 }; return (int)syscall(SYS_nanosleep, &ts, nullptr); }
    sim_sleep((i64)u * 1000); return 0;
}
extern "C" unsigned sleep(unsigned s) { usleep(s * 1000000u); return 0; }
extern "C" int sched_yield() noexcept { if (sim_on && !host_depth) sim_pause(); return 0; }
extern "C" void __assert_fail(const char* e, const char* f, unsigned l, const char*) noexcept {
    HostScope hs;
    const char* b = strrchr(f, '/');
    VIOL("assert", "assertion '%s' failed at %s:%u", e, b ? b + 1 : f, l);
}
