// Simulator host: scenarios, reference-model timeline, runs and batches.
#include "core.hpp"
#include "model.hpp"
#include <memory>
#include <dlfcn.h>
#include <link.h>
#include <unistd.h>
#include <fcntl.h>
#include <signal.h>
#include <poll.h>
#include <sys/wait.h>
#include <sys/time.h>
#include <sys/resource.h>
#include <sys/mman.h>
#include <sys/personality.h>
#include <time.h>
#include <cstring>
#include <fstream>
#include <sstream>
#include <iostream>

void trace_load(const std::vector<TraceEnt>& t);
extern bool replay_mode;
extern std::vector<TraceEnt> trace_out;
void arm_alloc_fail(int rank, long nth, long minb);
long disarm_alloc_fail(int rank);
long alloc_fail_seen(int rank);
long alloc_fail_fired(int rank);
i64 rank_clock(int rank);
extern SimHost g_host;

// ------------------------------------------------------------------ scenario
#include "scenario.hpp"

static Scenario SC;
static int result_fd = -1;
static std::string trace_path;

struct Result { int status; u64 hash; u64 cnt[CNT_N]; u64 ntrace; char cls[48]; char msg[1600]; };

[[noreturn]] void finish_run(int status, const char* cls, const std::string& msg) {
    host_depth++;
    sim_on = false;
    Result r; memset(&r, 0, sizeof r);
    r.status = status; 
    cnt[C_SIMUS] = (u64)(sim_now / 1000);
    // Part of the hash: all that was counted.
    for (int i = 0; i < CNT_N; i++) hash_in(cnt[i]);
    hash_in((u64)sim_now);
    r.hash = ev_hash; memcpy(r.cnt, cnt, sizeof cnt);
    r.ntrace = trace_out.size();
    snprintf(r.cls, sizeof r.cls, "%s", cls);
    snprintf(r.msg, sizeof r.msg, "%s", msg.c_str());
    for (char* c = r.msg; *c; c++) if (*c == '\n' || *c == '\r' || *c == '\t') *c = ' ';
    if (!trace_path.empty() && !replay_mode) {
        FILE* f = fopen(trace_path.c_str(), "w");
        if (f) { for (auto& e : trace_out) fprintf(f, "%s %d %llu %llu\n", ck_name[e.kind], e.actor, (unsigned long long)e.idx, (unsigned long long)e.val); fclose(f); }
    }
    const char* p = (const char*)&r; size_t n = sizeof r;
    while (n) { ssize_t w = write(result_fd, p, n); if (w <= 0) break; p += w; n -= w; }
    _exit(0);
}

// ------------------------------------------------------------------ model timeline
struct State { Model m; };
static std::vector<std::shared_ptr<Model>> tl;       // tl[k] = state before op k (after ops < k)
static bool geom_known = false;
static std::map<std::string,long> overall;
static std::map<std::string, long> slots;
static int geom_op = -1;
struct RankGeom { bool set = false; long f[MAXD], l[MAXD], ri[MAXD]; };
static RankGeom rgeom[MAX_RANKS];
static int geom_reports = 0;

static void apply_op(Model& m, const SimOp& op) {
    std::string kd = op.kind;
    if (kd == "init") {
        for (auto& v : m.st.vars) {
            std::vector<long> lo(v.dim.size()), hi(v.dim.size());
            // window: [i3 ...] relative to the step to run from
            if (v.has_step && op.i[3]) {
                long t0 = op.i[4];
                v.first_valid = m.st.dir > 0 ? t0 - v.nslots + 1 : t0;
            }
            // fill everything the model holds
            std::vector<long> p(v.dim.size());
            std::function<void(size_t)> rec = [&](size_t d) {
                if (d == v.dim.size()) { v.set(p.data(), model_val(op.i[0], v.name.c_str(), p.data(), (int)p.size())); return; }
                if (v.kind[d] == 's') for (long s = v.first_valid; s < v.first_valid + v.nslots; s++) { p[d] = s; rec(d + 1); }
                else for (long i = v.lo[d]; i <= v.hi[d]; i++) { p[d] = i; rec(d + 1); }
            };
            rec(0);
        }
    } else if (kd == "run") m.run(op.i[0], op.i[1]);
    else if (kd == "set") {
        MVar& v = m.v(op.var); int nd = (int)v.dim.size();
        const long* p = op.i + 2;
        if (op.i[0] == 1 || op.i[0] == 5) { i64 o = v.get(p); if (o != UNDEF) v.set(p, o + op.i[1]); }
        else {
            for (int d = 0; d < nd; d++) if (v.kind[d] == 's') v.touch_step(p[d]);
            v.set(p, op.i[1]);
        }
    } else if (kd == "setslice") {
        MVar& v = m.v(op.var); int nd = (int)v.dim.size();
        const long *lo = op.i + 2, *hi = op.i + 2 + nd;
        std::vector<long> p(nd);
        std::function<void(int)> rec = [&](int d) {
            if (d == nd) { v.set(p.data(), op.i[0] == 2 || op.i[0] == 4 ? model_val(op.i[1], v.name.c_str(), p.data(), nd) : op.i[1]); return; }
            long a = lo[d], b = hi[d];
            if (v.kind[d] == 's') { a = std::max(a, v.first_valid); b = std::min(b, v.first_valid + v.nslots - 1); }
            else { a = std::max(a, v.lo[d]); b = std::min(b, v.hi[d]); }
            for (long i = a; i <= b; i++) { p[d] = i; rec(d + 1); }
        };
        rec(0);
    } else if (kd == "setall") {
        MVar& v = m.v(op.var);
        for (auto& x : v.data) x = op.i[0];
    } else if (kd == "newsoln" || kd == "realloc") {
        for (auto& v : m.st.vars) { for (auto& x : v.data) x = UNDEF; v.first_valid = 0; }
        m.maxabs = 0;
    } else if (kd == "ufuse" || kd == "vfail") {
        MVar& v = m.v(op.var); for (auto& x : v.data) x = UNDEF;
        v.first_valid = 0;
    } else if (kd == "tunenow") {
        // documented: contents are not usable afterwards
        for (auto& v : m.st.vars) if (v.output) for (auto& x : v.data) x = UNDEF;
    }
}

static bool changes_state(const char* k) {
    static const std::set<std::string> s = { "init","run","set","setslice","setall","newsoln","realloc","tunenow","ufuse","vfail" };
    return s.count(k) > 0;
}
static Model* before_op(int k) {
    if (!geom_known) HERR("model used before the geometry is known (op %d)", k);
    while ((int)tl.size() <= k) {
        int j = (int)tl.size() - 1;       // apply op j
        const SimOp& op = SC.ops[j];
        if (j <= geom_op || !changes_state(op.kind)) { tl.push_back(tl.back()); continue; }
        auto n = std::make_shared<Model>(*tl.back());
        try { apply_op(*n, op); }
        catch (ModelError& e) { HERR("model: %s (op %d %s)", e.msg.c_str(), j, op.kind); }
        i64 lim = SC.elem_bytes() == 4 ? (1LL << 23) : (1LL << 51);
        if (n->maxabs > lim) HERR("values grow beyond exact range");
        tl.push_back(n);
    }
    return tl[k].get();
}

// ------------------------------------------------------------------ callbacks
static void h_begin_op(int rank, int k) { HostScope hs; cnt[C_OPS]++; hash_in(0x0bULL << 56 | (u64)rank << 32 | (u64)k); if (geom_known && k > geom_op) before_op(k); sync_point("op"); }
static void h_end_op(int rank, int k) { HostScope hs; (void)rank; (void)k; }
static void h_report_prep(int rank, int k, int ok, const char* msg) {
    HostScope hs;
    long exp = !strcmp(SC.ops[k].kind, "failprep1") ? 2 : SC.ops[k].i[0];
    static std::map<int,int> n_ok;
    if (!ok) {
        if (n_ok[k]) VIOL("inconsistent-prepare", "prepare_solution() was complete on a rank before it failed on rank %d: %s", rank, msg);
        if (exp == 0) VIOL("rejected", "rank %d: prepare_solution() rejected consistent settings: %s", rank, msg);
        cnt[C_REJECTED]++;
        finish_run(0, "rejected", msg);
    }
    n_ok[k]++;
    if (exp == 1 && n_ok[k] == n_ranks) VIOL("not-rejected", "prepare_solution() accepted inconsistent settings on all ranks");
}
static std::vector<std::vector<long>> g_first(MAX_RANKS), g_last(MAX_RANKS), g_ri(MAX_RANKS);
static std::vector<long> g_overall;
static std::map<int,int> geom_count;
static void h_report_geom(int rank, int k, int nd, const long* f, const long* l, const long* o, const long* ri, const long* nr) {
    HostScope hs;
    std::vector<long> ov(o, o + nd), nrv(nr, nr + nd);
    g_first[rank].assign(f, f + nd); g_last[rank].assign(l, l + nd); g_ri[rank].assign(ri, ri + nd);
    for (int d = 0; d < nd; d++) {
        if (f[d] > l[d]) VIOL("geometry", "rank %d: empty rank domain in dim %d: %ld..%ld", rank, d, f[d], l[d]);
        if (f[d] < 0 || l[d] >= o[d]) VIOL("geometry", "rank %d: rank domain %ld..%ld is outside of the overall domain of size %ld in dim %d", rank, f[d], l[d], o[d], d);
        if (ri[d] < 0 || ri[d] >= nr[d]) VIOL("geometry", "rank %d: rank index %ld out of range (%ld ranks) in dim %d", rank, ri[d], nr[d], d);
    }
    long prod = 1; for (int d = 0; d < nd; d++) prod *= nr[d];
    if (prod != n_ranks) VIOL("geometry", "rank %d: product of ranks in all dims is %ld, not %d", rank, prod, n_ranks);
    // settings that were asked for
    for (int j = 0; j < k; j++) {
        const SimOp& op = SC.ops[j]; std::string kd = op.kind;
        if (kd == "newsoln") continue;
        if (op.i[0] >= 0 && op.i[0] != rank) continue;
        for (int d = 0; d < nd; d++) {
            long x = op.i[1 + d]; if (x <= 0 && kd != "rindex") continue;
            if (x < 0) continue;
            bool over = false;   // a later setting wins
            for (int q = j + 1; q < k; q++) if (!strcmp(SC.ops[q].kind, op.kind) || !strcmp(SC.ops[q].kind, "newsoln") || ((kd == "gsize" || kd == "rsize") && (!strcmp(SC.ops[q].kind, "gsize") || !strcmp(SC.ops[q].kind, "rsize")))) over = true;
            if (over) continue;
            long got = kd == "gsize" ? o[d] : kd == "rsize" ? l[d] - f[d] + 1 : kd == "nranks" ? nr[d] : kd == "rindex" ? ri[d] : x;
            if (got != x) VIOL("geometry", "rank %d: %s in dim %d is %ld although %ld was set", rank, kd.c_str(), d, got, x);
        }
    }
    if (geom_count[k]++ == 0) g_overall = ov;
    else if (g_overall != ov) VIOL("geometry", "ranks disagree about the overall domain size");
    if (geom_count[k] == n_ranks) {
        // The rank domains must tile the overall domain exactly.
        double vol = 0, tot = 1;
        for (int d = 0; d < nd; d++) tot *= ov[d];
        for (int a = 0; a < n_ranks; a++) {
            double v = 1; for (int d = 0; d < nd; d++) v *= g_last[a][d] - g_first[a][d] + 1;
            vol += v;
            for (int b = 0; b < a; b++) {
                bool disj = false;
                for (int d = 0; d < nd; d++) if (g_last[a][d] < g_first[b][d] || g_last[b][d] < g_first[a][d]) disj = true;
                if (!disj) VIOL("geometry", "rank domains of ranks %d and %d overlap", b, a);
                if (g_ri[a] == g_ri[b]) VIOL("geometry", "ranks %d and %d have the same rank indices", b, a);
                for (int d = 0; d < nd; d++) if (g_ri[a][d] < g_ri[b][d] ? g_last[a][d] >= g_first[b][d] : g_ri[a][d] > g_ri[b][d] ? g_last[b][d] >= g_first[a][d] : (g_first[a][d] != g_first[b][d] || g_last[a][d] != g_last[b][d]))
                    VIOL("geometry", "rank domains of ranks %d and %d are not ordered as their rank indices in dim %d", b, a, d);
            }
        }
        if (vol != tot) VIOL("geometry", "rank domains cover %.0f of %.0f points", vol, tot);
    }
    if (!geom_known) {
        ModelStencil st; make_stencil(SC.stencil, st);
        for (int d = 0; d < nd; d++) overall[st.ddims[d]] = ov[d];
    }
    hash_in(0x9e0ULL << 40 | (u64)rank);
    for (int d = 0; d < nd; d++) hash_in((u64)f[d] << 32 | (u64)l[d]);
}
static void h_report_var(int rank, int k, const SimVarInfo* v) {
    HostScope hs;
    ModelStencil st; make_stencil(SC.stencil, st);
    if (v) {
        for (auto& m : st.vars) if (m.name == v->name) {
            if (v->nd != (int)m.dim.size()) VIOL("geometry", "var %s has %d dims", v->name, v->nd);
            for (int d = 0; d < v->nd; d++) {
                if (m.dim[d] != v->dim[d]) HERR("dim order of %s", v->name);
                if (m.kind[d] == 'd') {
                    if (v->left_halo[d] < m.lh[d] || v->right_halo[d] < m.rh[d])
                        VIOL("halo-size", "halo of var %s in dim %s is %ld/%ld but the equations reach %ld/%ld", v->name, v->dim[d], v->left_halo[d], v->right_halo[d], m.lh[d], m.rh[d]);
                    if (v->first_local[d] > v->first_rank[d] - v->left_halo[d] || v->last_local[d] < v->last_rank[d] + v->right_halo[d])
                        VIOL("halo-size", "allocation of var %s in dim %s does not cover domain and halo", v->name, v->dim[d]);
                }
                if (m.kind[d] == 'm' && (v->misc_first[d] > m.m0[d] || v->misc_last[d] < m.m1[d]))
                    VIOL("misc-size", "misc range of var %s in dim %s is %ld..%ld", v->name, v->dim[d], v->misc_first[d], v->misc_last[d]);
            }
            if (v->step_alloc && v->step_alloc < m.back + 1) VIOL("step-alloc", "var %s keeps %ld steps, %ld needed", v->name, v->step_alloc, m.back + 1);
            long want = m.want_slots;
            for (int j = 0; j < k && j < (int)SC.ops.size(); j++) if (std::string(SC.ops[j].kind) == "stepalloc" && m.name == SC.ops[j].var) want = SC.ops[j].i[0];
            if (v->step_alloc && want && v->step_alloc != want) VIOL("step-alloc", "var %s keeps %ld steps, %ld requested", v->name, v->step_alloc, want);
            slots[v->name] = v->step_alloc ? v->step_alloc : 1;
        }
        (void)rank;
        return;
    }
    if (!geom_known) {
        auto m = std::make_shared<Model>();
        m->st = st; m->gsize = overall;
        for (size_t i = 0; i < m->st.vars.size(); i++) {
            auto& mv = m->st.vars[i];
            m->vidx[mv.name] = (int)i;
            if (!slots.count(mv.name)) VIOL("geometry", "var %s is missing", mv.name.c_str());
            mv.alloc(overall, slots[mv.name]);
        }
        geom_op = k;
        for (int j = 0; j <= k + 1; j++) tl.push_back(m);
        geom_known = true;
    }
}
static int h_known_var(const char* n) {
    HostScope hs;
    static ModelStencil st; if (st.vars.empty()) make_stencil(SC.stencil, st);
    for (auto& m : st.vars) if (m.name == n) return 1;
    return 0;
}
static int h_expect(int k, const char* var, const long* idx, int nd, double* val) {
    HostScope hs; (void)nd;
    MVar& v = before_op(k)->v(var);
    i64 x = v.get(idx);
    if (x == UNDEF) return 0;
    *val = (double)x; return 1;
}
static int h_expect_window(int k, const char* var, long* a, long* b) {
    HostScope hs;
    MVar& v = before_op(k)->v(var);
    if (!v.has_step) return 0;
    *a = v.first_valid; *b = v.first_valid + v.nslots - 1; return 1;
}
static double h_val(long seed, const char* var, const long* idx, int nd) { return (double)model_val(seed, var, idx, nd); }
static std::string idx_str(const long* idx, int nd) { std::string s; for (int i = 0; i < nd; i++) s += (i ? "," : "") + std::to_string(idx[i]); return s; }
static void h_observe(int rank, int k, const char* what, const char* var, const long* idx, int nd, double got) {
    HostScope hs;
    MVar& v = before_op(k)->v(var);
    i64 x = v.get(idx);
    if (x == UNDEF) return;
    cnt[C_OBS]++;
    u64 b; memcpy(&b, &got, 8); hash_in(b);
    if ((double)x != got)
        VIOL("wrong-value", "rank %d, op %d (%s): %s of %s(%s) is %.17g, expected %lld", rank, k, SC.ops[k].kind, what, var, idx_str(idx, nd).c_str(), got, x);
}
static void h_observe_scalar(int rank, int k, const char* what, double got, double want) {
    HostScope hs;
    cnt[C_OBS]++;
    u64 b; memcpy(&b, &got, 8); hash_in(b);
    if (got != want)
        VIOL("wrong-result", "rank %d, op %d (%s): %s is %.17g, expected %.17g", rank, k, SC.ops[k].kind, what, got, want);
}
static void h_violation(int rank, int k, const char* cls, const char* msg) { HostScope hs; VIOL(cls, "rank %d, op %d (%s): %s", rank, k, k < (int)SC.ops.size() ? SC.ops[k].kind : "end", msg); }
static void h_note(int rank, int k, const char* what, long v) {
    HostScope hs; (void)rank; (void)k;
    std::string w = what;
    if (w == "reduction") cnt[C_PROBE6] += v;
    else if (w == "allocfail") { if (v) cnt[C_EXC_OK]++; }
}
static void h_herr(const char* m) { HostScope hs; HERR("%s", m); }
static void h_arm(int r, long nth, long mb) { HostScope hs; arm_alloc_fail(r, nth, mb); }
static long h_disarm(int r, long* seen) { HostScope hs; if (seen) *seen = alloc_fail_seen(r); return disarm_alloc_fail(r); }
static long long h_now(int r) { HostScope hs; return rank_clock(r); }
struct Agree { int n = 0; long sum = 0; };
static std::map<int, Agree> agrees;
static long h_agree(int rank, int k, long v) {
    HostScope hs; (void)rank;
    Agree& a = agrees[k];
    a.n++; a.sum += v;
    if (a.n == n_ranks) progress();
    else block_until("agree", [k] { return agrees[k].n >= n_ranks; });
    return agrees[k].sum;
}
static void h_yield() { HostScope hs; sync_point("yield"); }

// ------------------------------------------------------------------ running one scenario
struct Lib { std::string path; void* h; char *lo, *hi; agent_main_t fn; };
static std::map<std::string, std::vector<Lib>> libs;
static void load_lib(const std::string& path, const std::string& stencil) {
    void* h = dlopen(path.c_str(), RTLD_NOW | RTLD_LOCAL);
    if (!h) { fprintf(stderr, "dlopen: %s\n", dlerror()); exit(2); }
    Lib l; l.path = path; l.h = h;
    l.fn = (agent_main_t)dlsym(h, "agent_main");
    struct link_map* lm; dlinfo(h, RTLD_DI_LINKMAP, &lm);
    struct Ctx { char* base; char *lo, *hi; } c = { (char*)lm->l_addr, (char*)~0ULL, nullptr };
    dl_iterate_phdr([](struct dl_phdr_info* i, size_t, void* p) {
        Ctx* c = (Ctx*)p;
        if ((char*)i->dlpi_addr != c->base) return 0;
        for (int k = 0; k < i->dlpi_phnum; k++) if (i->dlpi_phdr[k].p_type == PT_LOAD) {
            char* a = (char*)i->dlpi_addr + i->dlpi_phdr[k].p_vaddr; char* b = a + i->dlpi_phdr[k].p_memsz;
            if (a < c->lo) c->lo = a;
            if (b > c->hi) c->hi = b;
        }
        return 0; }, &c);
    l.lo = c.lo; l.hi = c.hi;
    libs[stencil].push_back(l);
}
static void load_libs(const std::string& dir, const std::string& stencil, int n) {
    auto& v = libs[stencil];
    for (int r = (int)v.size(); r < n; r++) load_lib(dir + "/" + stencil + ".r" + std::to_string(r) + ".so", stencil);
}

static char g_sigstk[65536];
static void on_signal(int s, siginfo_t* si, void*) {
    host_depth++;
    if (s == SIGPROF) {   // inconclusive, unless hardly any simulated step was taken
        if (cnt[C_ACC] < 2000000) finish_run(1, "no-progress", "CPU limit of one run reached with hardly any memory access: no termination");
        finish_run(3, "inconclusive", "CPU limit of one run reached");
    }
    char b[200];
    snprintf(b, sizeof b, "signal %d (%s) in rank %d thread %d", s, strsignal(s), cur ? cur->rank : -1, cur ? cur->slot : -1);
    (void)si;
    finish_run(1, "crash", b);
}
static void cpu_limit(int secs) { struct itimerval it; memset(&it, 0, sizeof it); it.it_value.tv_sec = secs; setitimer(ITIMER_PROF, &it, nullptr); }

// What YASK's own program prints, per rank.
static std::string cap_out[MAX_RANKS], cap_err[MAX_RANKS];
struct CapBuf : std::streambuf {
    std::string* to; explicit CapBuf(std::string* t) : to(t) {}
    void put(const char* s, size_t n) { HostScope hs; std::string& d = to[cur ? cur->rank : 0]; if (d.size() < 1000000) d.append(s, n); }
    int overflow(int c) override { char ch = (char)c; if (c != EOF) put(&ch, 1); return c; }
    std::streamsize xsputn(const char* s, std::streamsize n) override { put(s, (size_t)n); return n; }
};
static const SimOp* driver_op() { for (auto& o : SC.ops) if (!strcmp(o.kind, "driver")) return &o; return nullptr; }
static std::string tail(const std::string& s) { return s.size() > 300 ? s.substr(s.size() - 300) : s; }
static std::vector<std::string> driver_args;
static bool has_arg(const char* a) { return std::find(driver_args.begin(), driver_args.end(), a) != driver_args.end(); }
static long arg_val(const char* a, long dflt) {
    auto i = std::find(driver_args.begin(), driver_args.end(), a);
    return i == driver_args.end() || i + 1 == driver_args.end() ? dflt : atol((i + 1)->c_str());
}
static long count_in(const std::string& s, const std::string& w) { long n = 0; for (size_t p = 0; (p = s.find(w, p)) != std::string::npos; p += w.size()) n++; return n; }
static std::string after(const std::string& s, const std::string& w) {      // the word after 'w'
    size_t p = s.find(w); if (p == std::string::npos) return "";
    p = s.find_first_not_of(' ', p + w.size()); return p == std::string::npos ? "" : s.substr(p, s.find_first_of(" \n", p) - p);
}
static void driver_setup() { std::istringstream is(driver_op()->str); std::string a; while (is >> a) driver_args.push_back(a); }
static int n_altered[MAX_RANKS]; static bool any_altered = false;
static void h_altered(int r, int n) { HostScope hs; n_altered[r] = n; any_altered = true; }
static void check_reports() {       // of the validation, in the program of each rank
    for (int r = 0; r < n_ranks; r++) {
        auto rs = std::to_string(r), got = after(cap_err[r], "TEST FAILED on rank " + rs + ":"); bool pass = cap_err[r].find("TEST PASSED on rank " + rs) != std::string::npos;
        if (pass != !n_altered[r] || got != (n_altered[r] ? std::to_string(n_altered[r]) : "")) VIOL("program", "rank %d: %d element(s) of the results differ, reported: %s", r, n_altered[r], tail(cap_err[r]).c_str());
    }
}
[[noreturn]] void program_exit(int rank, int code) {
    auto* o = driver_op();
    if (getenv("SIM_TRACE") && o) for (int r = 0; r < n_ranks; r++) fprintf(stderr, "---- rank %d\n%s\n%s\n", r, cap_out[r].c_str(), cap_err[r].c_str());
    if (!o) VIOL("exit", "rank %d called exit() or MPI_Abort(%d)", rank, code);
    if (code == 0) VIOL("program", "rank %d ended itself with success", rank);
    if (any_altered) { check_reports(); cnt[C_REJECTED]++; finish_run(0, "rejected", "altered"); }
    for (int r = 0; r < n_ranks; r++) if (cap_err[r].find("TEST FAILED") != std::string::npos) VIOL("program", "rank %d: validation failed: %s", r, tail(cap_err[r]).c_str());
    bool alloc = o->i[2] && alloc_fail_fired((int)o->i[4]) > 0;
    if (o->i[0] == 0 && !alloc) VIOL("program", "rank %d: the program failed with code %d: %s", rank, code, tail(cap_err[rank]).c_str());
    if (cap_err[rank].empty() && !has_arg("-help")) VIOL("program", "rank %d: the program failed without a message", rank);
    cnt[C_REJECTED]++;
    finish_run(0, "rejected", tail(cap_err[rank]));
}
static void h_program_end(int rank, int code) {
    HostScope hs;
    auto* o = driver_op();
    const std::string& err = cap_err[rank]; const std::string& out = cap_out[rank];
    auto rs = std::to_string(rank);
    if (o->i[0] == 2) VIOL("program", "rank %d: the program succeeded in spite of illegal options", rank);
    if (code) VIOL("program", "rank %d: the program returned %d: %s", rank, code, tail(err).c_str());
    if (any_altered && n_altered[rank]) VIOL("program", "rank %d: the program succeeded although %d element(s) differ", rank, n_altered[rank]);
    if (count_in(err, "TEST PASSED") != (o->i[1] ? 1 : 0) || (o->i[1] && err.find("TEST PASSED on rank " + rs) == std::string::npos)) VIOL("program", "rank %d: wrong report of a passed test: %s", rank, tail(err).c_str());
    if (err.find("FAILED") != std::string::npos) VIOL("program", "rank %d: %s", rank, tail(err).c_str());
    // The trials are reported by one rank.
    long tr = rank == arg_val("-msg_rank", 0) ? arg_val("-num_trials", 3) : 0, st = arg_val("-trial_steps", 0);
    if (count_in(out, "Trial number:") != tr) VIOL("program", "rank %d: %ld trials reported instead of %ld", rank, count_in(out, "Trial number:"), tr);
    if (tr) {
        auto w = after(out, "performance trial(s) of "), b = after(out, "best-num-steps-done:"), m = after(out, "mid-num-steps-done:"), n = after(out, "num-trials:");
        if (st && w != std::to_string(st)) VIOL("program", "rank %d: %s steps announced instead of %ld", rank, w.c_str(), st);
        if (b != w || m != w) VIOL("program", "rank %d: trials of %s step(s) announced, %s and %s reported", rank, w.c_str(), b.c_str(), m.c_str());
        if (n != std::to_string(tr)) VIOL("program", "rank %d: %s trials counted instead of %ld", rank, n.c_str(), tr);
        double prev = -1e300;
        for (auto k : { "best-elapsed-time (sec):", "mid-elapsed-time (sec):" }) {
            auto x = after(out, k); double v = atof(x.c_str());
            if (!x.empty()) switch (x.back()) { case 'p': v *= 1e-12; break; case 'n': v *= 1e-9; break; case 'u': v *= 1e-6; break; case 'm': v *= 1e-3; break; case 'K': v *= 1e3; break; case 'M': v *= 1e6; }
            if (!(v >= prev)) VIOL("program", "rank %d: the best trial took longer than another one", rank);
            prev = v;
        }
    }
    sync_point("end");
}

SimHost g_host_tbl;
[[noreturn]] static void do_run() {
    stack_t ss; memset(&ss, 0, sizeof ss); ss.ss_sp = g_sigstk; ss.ss_size = sizeof g_sigstk; sigaltstack(&ss, nullptr);
    struct sigaction sa; memset(&sa, 0, sizeof sa); sa.sa_sigaction = on_signal; sa.sa_flags = SA_ONSTACK | SA_SIGINFO;
    for (int s : { SIGSEGV, SIGBUS, SIGFPE, SIGILL, SIGABRT, SIGPROF }) sigaction(s, &sa, nullptr);
    cpu_limit(60);
    std::set_terminate([] { host_depth++; VIOL("terminate", "std::terminate() in rank %d", cur ? cur->rank : -1); });
    P = SC.p;
    n_ranks = SC.nranks;
    auto& L = libs[SC.so];
    if ((int)L.size() < n_ranks) HERR("not enough libraries for %s", SC.so.c_str());
    for (int r = 0; r < n_ranks; r++) { so_range[r].lo = L[r].lo; so_range[r].hi = L[r].hi; so_range[r].handle = L[r].h; so_range[r].fn = L[r].fn; }
    host_depth = 1;
    arena_reset(P.memseed);
    mpi_reset(); omp_reset();
    SimHost& t = g_host_tbl;
    t.begin_op = h_begin_op; t.end_op = h_end_op; t.report_prep = h_report_prep; t.report_geom = h_report_geom; t.report_var = h_report_var;
    t.known_var = h_known_var; t.expect = h_expect; t.expect_window = h_expect_window; t.val = h_val; t.observe = h_observe; t.observe_scalar = h_observe_scalar;
    t.violation = h_violation; t.note = h_note; t.harness_error = h_herr; t.arm_alloc_fail = h_arm; t.disarm_alloc_fail = h_disarm; t.now_ns = h_now; t.agree = h_agree; t.yield = h_yield; t.program_end = h_program_end; t.altered = h_altered;
    if (driver_op()) { driver_setup(); std::cout.rdbuf(new CapBuf(cap_out)); std::cerr.rdbuf(new CapBuf(cap_err)); }
    static SimScenario ss2; memset(&ss2, 0, sizeof ss2);
    snprintf(ss2.stencil, sizeof ss2.stencil, "%s", SC.stencil.c_str());
    ss2.nranks = n_ranks; ss2.nops = (int)SC.ops.size(); ss2.ops = SC.ops.data();
    for (int r = 0; r < n_ranks; r++) new_fiber(r, [r] { so_range[r].fn(&g_host_tbl, &ss2, r); });
    run_fibers();
    host_depth = 1;
    mpi_final_check();
    arena_check_all();
    finish_run(0, "", "");
}

static double now_s() { struct timespec ts; clock_gettime(CLOCK_MONOTONIC, &ts); return ts.tv_sec + ts.tv_nsec * 1e-9; }

// Fork a child for one run; returns fd and pid.
static pid_t fork_run(int* fd) {
    int p[2]; if (pipe(p)) return -1;
    fflush(nullptr);
    pid_t pid = fork();
    if (pid == 0) {
        close(p[0]); result_fd = p[1];
        do_run();
    }
    close(p[1]); *fd = p[0];
    return pid;
}
static Result read_result(int fd, pid_t pid) {
    Result r; memset(&r, 0, sizeof r);
    char* p = (char*)&r; size_t n = sizeof r;
    while (n) { ssize_t k = read(fd, p, n); if (k <= 0) break; p += k; n -= k; }
    close(fd);
    int st = 0; waitpid(pid, &st, 0);
    if (n) { memset(&r, 0, sizeof r); r.status = 2; snprintf(r.cls, sizeof r.cls, "harness"); snprintf(r.msg, sizeof r.msg, "child ended without a result (status 0x%x)", st); }
    return r;
}
static void json_str(FILE* f, const char* s) {
    fputc('"', f);
    for (; *s; s++) { unsigned char c = *s; if (c == '"' || c == '\\') { fputc('\\', f); fputc(c, f); } else if (c < 32 || c > 126) fputc('?', f); else fputc(c, f); }
    fputc('"', f);
}
static void print_result(FILE* f, const Result& r) {
    fprintf(f, "{\"status\":%d,\"hash\":\"%016llx\",\"ntrace\":%llu,\"cls\":", r.status, (unsigned long long)r.hash, (unsigned long long)r.ntrace);
    json_str(f, r.cls); fprintf(f, ",\"msg\":"); json_str(f, r.msg);
    fprintf(f, ",\"cnt\":{");
    for (int i = 0; i < CNT_N; i++) fprintf(f, "%s\"%s\":%llu", i ? "," : "", cnt_name[i], (unsigned long long)r.cnt[i]);
    fprintf(f, "}}");
}

static std::map<std::string,std::string> args;
static std::string arg(const char* n, const char* def = "") { auto it = args.find(n); return it == args.end() ? def : it->second; }

static void so_list(const std::string& s, std::vector<std::string>& out) { std::stringstream ss(s); std::string x; while (std::getline(ss, x, ',')) if (!x.empty()) out.push_back(x); }

int main(int argc, char** argv) {
    if (!getenv("SIM_NOASLR")) {
        setenv("SIM_NOASLR", "1", 1);
        personality(personality(0xffffffff) | ADDR_NO_RANDOMIZE);
        execv("/proc/self/exe", argv);
    }
    signal(SIGPIPE, SIG_IGN);
    if (__libc_single_threaded) __libc_single_threaded = 0;   // libc sets it at start-up
    std::string cmd = argc > 1 ? argv[1] : "";
    for (int i = 2; i + 1 < argc; i += 2) args[argv[i]] = argv[i + 1];
    std::string dir = arg("--so-dir");
    spec_dir() = dir;
    if (cmd == "gen") {
        std::vector<std::string> sos; so_list(arg("--so"), sos);
        Scenario s = gen_scenario(arg("--profile"), strtoull(arg("--seed").c_str(), 0, 10), sos);
        std::cout << s.text();
        return 0;
    }
    if (cmd == "run") {
        if (!SC.load(arg("--scenario"))) { fprintf(stderr, "bad scenario\n"); return 2; }
        load_libs(dir, SC.so, SC.nranks);
        if (!arg("--trace").empty()) {
            std::vector<TraceEnt> t; std::ifstream f(arg("--trace")); std::string k; int a; u64 i, v;
            while (f >> k >> a >> i >> v) { for (int c = 1; c <= CK_MISC; c++) if (k == ck_name[c]) t.push_back({c, a, i, v}); }
            trace_load(t); replay_mode = true;
        }
        trace_path = arg("--trace-out");
        int fd; pid_t pid = fork_run(&fd);
        Result r = read_result(fd, pid);
        print_result(stdout, r); printf("\n");
        return 0;
    }
    if (cmd == "batch") {
        // --profile P --seed S --count N --secs T --workers W --so a,b --so-dir D --out F
        std::vector<std::string> sos; so_list(arg("--so"), sos);
        std::string prof = arg("--profile");
        u64 seed0 = strtoull(arg("--seed", "1").c_str(), 0, 10);
        long count = atol(arg("--count", "100").c_str());
        double secs = atof(arg("--secs", "30").c_str());
        int W = atoi(arg("--workers", "8").c_str());
        int maxr = atoi(arg("--maxranks", "6").c_str());
        int stop_after = atoi(arg("--stop-after", "3").c_str());
        int dup = atoi(arg("--dup-every", "25").c_str());
        for (auto& s : sos) load_libs(dir, s, maxr);
        FILE* out = fopen(arg("--out").c_str(), "w");
        if (!out) return 2;
        struct Job { u64 seed; pid_t pid; int fd; Scenario sc; int pass; u64 h0; double t0; };
        std::vector<Job> jobs;
        double t0 = now_s(); long started = 0, done = 0; int viols = 0;
        std::deque<std::pair<u64,u64>> redo;
        while (true) {
            while ((int)jobs.size() < W && (((started < count && now_s() - t0 < secs && viols < stop_after)) || !redo.empty())) {
                Job j; j.pass = 0; j.h0 = 0;
                if (!redo.empty()) { j.seed = redo.front().first; j.h0 = redo.front().second; j.pass = 1; redo.pop_front(); }
                else { j.seed = seed0 + started; started++; }
                j.sc = gen_scenario(prof, j.seed, sos);
                SC = j.sc;
                j.t0 = now_s();
                j.pid = fork_run(&j.fd);
                jobs.push_back(j);
            }
            if (jobs.empty()) break;
            std::vector<pollfd> pf; for (auto& j : jobs) pf.push_back({j.fd, POLLIN, 0});
            poll(pf.data(), pf.size(), 1000);
            for (int i = (int)jobs.size() - 1; i >= 0; i--) if (pf[i].revents) {
                Job j = jobs[i]; jobs.erase(jobs.begin() + i);
                Result r = read_result(j.fd, j.pid);
                if (j.pass == 0) {
                    done++;
                    if (r.status == 1) viols++;
                    fprintf(out, "{\"seed\":%llu,\"so\":\"%s\",\"nranks\":%d,\"mode\":%d,\"net\":%d,\"wall\":%.3f,\"sc\":", (unsigned long long)j.seed, j.sc.so.c_str(), j.sc.nranks, j.sc.p.mode, j.sc.p.net, now_s() - j.t0);
                    json_str(out, j.sc.brief().c_str());
                    fprintf(out, ",\"r\":"); print_result(out, r); fprintf(out, "}\n");
                    if (dup && done % dup == 0 && r.status == 0) redo.push_back({j.seed, r.hash});
                } else {
                    fprintf(out, "{\"dup\":%llu,\"same\":%s}\n", (unsigned long long)j.seed, r.hash == j.h0 ? "true" : "false");
                }
            }
        }
        fclose(out);
        printf("{\"runs\":%ld,\"wall\":%.2f}\n", done, now_s() - t0);
        return 0;
    }
    fprintf(stderr, "usage\n");
    return 2;
}
