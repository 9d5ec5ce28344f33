// Simulated MPI: all ranks live in this process; arrival, matching,
// completion and visibility of completion are decided by the simulator.
#include "core.hpp"
#include <cstring>
#include "include/mpi.h"

void* shm_addr(int rank, size_t off);
extern SimHost g_host; i64 rank_clock(int rank);

struct Comm { int id; std::vector<int> m; std::vector<u64> seq; bool freed = false; };
struct Grp { std::vector<int> m; };
struct Msg;
struct Req {
    int id = 0; int rank = 0; bool is_send = false;
    const char* sbuf = nullptr; char* rbuf = nullptr; long bytes = 0;
    int peer = -1, tag = 0, comm = 0;
    bool complete = false, active = true; i64 visible = 0;
    long got = 0; int src = -1, rtag = 0;
    Msg* msg = nullptr; u64 sum = 0; bool cancelled = false; bool freed = false;
};
struct Msg {
    int src, dst, tag, comm; long bytes; Req* sreq; bool lazy; std::vector<char> data; u64 seq; bool matched = false; bool sync = false;
};
struct Coll {
    const char* kind; int n = 0, left = 0; long sig = 0;
    std::vector<std::vector<char>> in; std::vector<i64> a, b; std::vector<char> out; bool done = false;
    std::vector<int> newcomm; size_t off = 0; std::vector<size_t> disp; std::vector<long> sz; int win = 0;
};
struct Win { int comm; std::vector<size_t> disp; std::vector<long> sz; size_t off; bool freed = false; };

static std::vector<Comm> comms;
static std::vector<Grp> grps;
static std::deque<Req> reqs;
static std::map<std::pair<int,u64>, Coll> colls;
static std::vector<Win> wins;
static std::vector<std::deque<Msg*>> unexp;      // per dst
static std::vector<std::deque<Req*>> posted;     // per dst
static std::map<std::pair<int,int>, i64> chan_last;
static u64 msg_seq = 0, last_arrived_seq = 0;
static bool inited[MAX_RANKS], finalized[MAX_RANKS];
static u64 mpi_outstanding = 0;

static int R() { return cur ? cur->rank : 0; }

void mpi_reset() {
    comms.clear(); comms.resize(3); grps.clear(); grps.resize(1); wins.clear(); wins.resize(1);
    comms[1].id = 1; for (int r = 0; r < n_ranks; r++) comms[1].m.push_back(r);
    comms[1].seq.assign(n_ranks, 0);
    reqs.clear(); reqs.emplace_back(); colls.clear();
    unexp.assign(n_ranks, {}); posted.assign(n_ranks, {});
    for (int r = 0; r < MAX_RANKS; r++) inited[r] = finalized[r] = false;
}
static Comm& C(MPI_Comm c) {
    if (c <= 0 || c >= (int)comms.size()) VIOL("mpi-usage", "rank %d: MPI call on an invalid communicator", R());
    return comms[c];
}
static int myrank(Comm& c) { for (size_t i = 0; i < c.m.size(); i++) if (c.m[i] == R()) return (int)i; VIOL("mpi-usage", "rank %d not in communicator", R()); }
static long tsize(MPI_Datatype d) { return d & 0xff; }

static u64 csum(const char* p, long n) { u64 h = 1469598103934665603ULL; for (long i = 0; i < n; i++) h = (h ^ (unsigned char)p[i]) * 1099511628211ULL; return h; }

static i64 pick_delay(int actor) {
    if (P.net == 0) return 500;
    static const i64 D1[8] = { 500, 1500, 4000, 9000, 20000, 45000, 90000, 200000 };
    static const i64 D2[8] = { 500, 2000, 20000, 100000, 400000, 1000000, 3000000, 10000000 };
    u64 k = choose(CK_DELAY, actor, 70, 8);
    return P.net == 2 ? D2[k] : D1[k];
}

static void complete_pair(Msg* m, Req* r) {
    if (m->bytes > r->bytes)
        VIOL("mpi-truncation", "message of %ld bytes from rank %d to rank %d (tag %d) does not fit in the %ld-byte receive", m->bytes, m->src, m->dst, m->tag, r->bytes);
    i64 d = pick_delay(m->dst * FIB_PER_RANK);
    m->matched = true;
    at_time(sim_now + d, [m, r] {
        Req* s = m->sreq;
        if (m->lazy && m->bytes) {
            // rendezvous: the send buffer is read only now.
            if (s && csum(s->sbuf, m->bytes) != s->sum)
                VIOL("mpi-buffer-reuse", "rank %d changed a send buffer (to rank %d, tag %d, %ld bytes) before the send completed", m->src, m->dst, m->tag, m->bytes);
            if (s) memcpy(r->rbuf, s->sbuf, m->bytes);
        } else if (m->bytes) memcpy(r->rbuf, m->data.data(), m->bytes);
        r->got = m->bytes; r->src = m->src; r->rtag = m->tag;
        i64 late_r = choose(CK_LATE, m->dst * FIB_PER_RANK, P.late_pct, 4) * 15000;
        i64 late_s = choose(CK_LATE, m->src * FIB_PER_RANK, P.late_pct, 4) * 15000;
        if (late_r) cnt[C_LATE]++;
        if (late_s) cnt[C_LATE]++;
        r->complete = true; r->visible = sim_now + late_r;
        if (late_r) at_time(sim_now + late_r, [] { progress(); });
        if (s && !s->complete) { s->complete = true; s->visible = sim_now + late_s; if (late_s) at_time(sim_now + late_s, [] { progress(); }); }
        mpi_outstanding--;
        progress();
        hash_in(0x4d5347ULL ^ m->seq << 8);
        delete m;
    });
}
static bool matches(Msg* m, Req* r) {
    return m->comm == r->comm && (r->peer == MPI_ANY_SOURCE || r->peer == m->src) && (r->tag == MPI_ANY_TAG || r->tag == m->tag);
}
static void arrive(Msg* m) {
    progress();
    if (m->seq < last_arrived_seq) cnt[C_REORDER]++;
    last_arrived_seq = std::max(last_arrived_seq, m->seq);
    auto& pq = posted[m->dst];
    for (auto it = pq.begin(); it != pq.end(); ++it) if (matches(m, *it)) { Req* r = *it; pq.erase(it); complete_pair(m, r); return; }
    unexp[m->dst].push_back(m);
}

static Req* new_req(bool send) {
    reqs.emplace_back(); Req& q = reqs.back();
    q.id = (int)reqs.size() - 1; q.rank = R(); q.is_send = send;
    return &q;
}
static Req* get_req(MPI_Request q) {
    if (q <= 0 || q >= (int)reqs.size()) VIOL("mpi-usage", "rank %d: invalid request handle", R());
    Req* r = &reqs[q];
    if (r->rank != R() || !r->active) VIOL("mpi-usage", "rank %d: stale or foreign request handle", R());
    return r;
}
static void need_init(const char* f) {
    if (!inited[R()]) VIOL("mpi-usage", "rank %d: %s before MPI_Init", R(), f);
    if (finalized[R()]) VIOL("mpi-usage", "rank %d: %s after MPI_Finalize", R(), f);
}

extern "C" {
int MPI_Init_thread(int*, char***, int req, int* prov) {
    HostScope hs;
    if (inited[R()]) VIOL("mpi-usage", "MPI_Init called twice in rank %d", R());
    inited[R()] = true; if (prov) *prov = req < MPI_THREAD_MULTIPLE ? req : MPI_THREAD_MULTIPLE;
    sync_point("MPI_Init"); return 0;
}
int MPI_Init(int* a, char*** b) { int p; return MPI_Init_thread(a, b, MPI_THREAD_SINGLE, &p); }
int MPI_Initialized(int* f) { *f = inited[R()]; return 0; }
int MPI_Finalized(int* f) { *f = finalized[R()]; return 0; }
int MPI_Query_thread(int* p) { *p = MPI_THREAD_MULTIPLE; return 0; }
int MPI_Abort(MPI_Comm, int code) { HostScope hs; program_exit(R(), code); }
int MPI_Comm_rank(MPI_Comm c, int* r) { HostScope hs; need_init("MPI_Comm_rank"); *r = myrank(C(c)); return 0; }
int MPI_Comm_size(MPI_Comm c, int* n) { HostScope hs; need_init("MPI_Comm_size"); *n = (int)C(c).m.size(); return 0; }
int MPI_Comm_group(MPI_Comm c, MPI_Group* g) { HostScope hs; grps.push_back({C(c).m}); *g = (int)grps.size() - 1; return 0; }
int MPI_Comm_free(MPI_Comm* c) { *c = MPI_COMM_NULL; return 0; }
int MPI_Comm_compare(MPI_Comm a, MPI_Comm b, int* r) { HostScope hs; *r = a == b ? MPI_IDENT : C(a).m == C(b).m ? MPI_CONGRUENT : MPI_UNEQUAL; return 0; }
int MPI_Comm_set_errhandler(MPI_Comm, MPI_Errhandler) { return 0; }
int MPI_Group_translate_ranks(MPI_Group a, int n, const int* in, MPI_Group b, int* out) {
    HostScope hs;
    for (int i = 0; i < n; i++) {
        out[i] = MPI_UNDEFINED;
        if (in[i] == MPI_PROC_NULL) { out[i] = MPI_PROC_NULL; continue; }
        if (a <= 0 || b <= 0 || in[i] < 0 || in[i] >= (int)grps[a].m.size()) VIOL("mpi-usage", "MPI_Group_translate_ranks: bad rank %d", in[i]);
        int w = grps[a].m[in[i]];
        for (size_t k = 0; k < grps[b].m.size(); k++) if (grps[b].m[k] == w) out[i] = (int)k;
    }
    return 0;
}
int MPI_Group_size(MPI_Group g, int* n) { *n = (int)grps[g].m.size(); return 0; }
int MPI_Group_rank(MPI_Group g, int* n) { *n = MPI_UNDEFINED; for (size_t k = 0; k < grps[g].m.size(); k++) if (grps[g].m[k] == R()) *n = (int)k; return 0; }
int MPI_Group_free(MPI_Group* g) { *g = MPI_GROUP_NULL; return 0; }

// ---- collectives
static Coll& coll_enter(MPI_Comm c, const char* kind, long sig, const void* in, long nbytes, i64 a, i64 b, int& me, u64& key) {
    need_init(kind);
    Comm& cm = C(c);
    me = myrank(cm);
    key = cm.seq[me]++;
    cnt[C_COLL]++;
    sync_point(kind);
    Coll& k = colls[{c, key}];
    int n = (int)cm.m.size();
    if (k.n == 0) { k.kind = kind; k.sig = sig; k.in.resize(n); k.a.resize(n); k.b.resize(n); k.left = n; }
    if (strcmp(k.kind, kind) || k.sig != sig)
        VIOL("collective-mismatch", "ranks disagree on their collective call #%llu: rank %d calls %s (sig %lx), another calls %s (sig %lx)", (unsigned long long)key, R(), kind, sig, k.kind, k.sig);
    if (in && nbytes) k.in[me].assign((const char*)in, (const char*)in + nbytes);
    k.a[me] = a; k.b[me] = b;
    k.n++;
    progress();
    return k;
}
static void coll_wait(Coll& k, int total, const char* kind) {
    if (k.n == total && !k.done) { k.done = true; progress(); }
    else block_until(kind, [&k] { return k.done; });
    // Ranks may leave a collective at very different times.
    i64 d = P.net ? (i64)choose(CK_DELAY, cur->id, 30, 4) * 20000 : 0;
    if (d) { i64 u = sim_now + d; at_time(u, [] {}); block_until(kind, [u] { return sim_now >= u; }); }
}
static void coll_leave(MPI_Comm c, u64 key) { auto it = colls.find({c, key}); if (--it->second.left == 0) colls.erase(it); }

int MPI_Barrier(MPI_Comm c) {
    HostScope hs; int me; u64 key;
    Coll& k = coll_enter(c, "MPI_Barrier", 0, nullptr, 0, 0, 0, me, key);
    coll_wait(k, (int)C(c).m.size(), "MPI_Barrier"); coll_leave(c, key); return 0;
}
int MPI_Bcast(void* buf, int n, MPI_Datatype t, int root, MPI_Comm c) {
    HostScope hs; int me; u64 key; long nb = n * tsize(t);
    Coll& k = coll_enter(c, "MPI_Bcast", nb * 4096 + root, nullptr, 0, 0, 0, me, key);
    if (me == root) k.out.assign((char*)buf, (char*)buf + nb);
    coll_wait(k, (int)C(c).m.size(), "MPI_Bcast");
    if (me != root) memcpy(buf, k.out.data(), nb);
    coll_leave(c, key); return 0;
}
extern "C++" template <class X> void red1(std::vector<std::vector<char>>& in, char* out, int n, int op) {
    X* o = (X*)out;
    for (int i = 0; i < n; i++) {
        X v = ((X*)in[0].data())[i];
        for (size_t r = 1; r < in.size(); r++) {
            X w = ((X*)in[r].data())[i];
            switch (op) { case MPI_SUM: v = v + w; break; case MPI_MIN: v = std::min(v, w); break; case MPI_MAX: v = std::max(v, w); break;
                case MPI_PROD: v = v * w; break; case MPI_LAND: v = v && w; break; case MPI_LOR: v = v || w; break;
                default: HERR("MPI op %d not simulated", op); }
        }
        o[i] = v;
    }
}
static void reduce_all(Coll& k, int n, MPI_Datatype t, int op, long nb) {
    if (!k.out.empty()) return;
    k.out.resize(nb ? nb : 1);
    switch (t) {
    case MPI_INT: case MPI_INTEGER: red1<int>(k.in, k.out.data(), n, op); break;
    case MPI_UNSIGNED: red1<unsigned>(k.in, k.out.data(), n, op); break;
    case MPI_LONG: case MPI_LONG_LONG: case MPI_INTEGER8: red1<long>(k.in, k.out.data(), n, op); break;
    case MPI_UNSIGNED_LONG: case MPI_UNSIGNED_LONG_LONG: red1<unsigned long>(k.in, k.out.data(), n, op); break;
    case MPI_FLOAT: red1<float>(k.in, k.out.data(), n, op); break;
    case MPI_DOUBLE: red1<double>(k.in, k.out.data(), n, op); break;
    case MPI_BYTE: case MPI_CHAR: case MPI_C_BOOL: red1<char>(k.in, k.out.data(), n, op); break;
    default: HERR("MPI datatype %x not simulated in a reduction", t);
    }
}
int MPI_Allreduce(const void* in, void* out, int n, MPI_Datatype t, MPI_Op op, MPI_Comm c) {
    HostScope hs; int me; u64 key; long nb = n * tsize(t);
    Coll& k = coll_enter(c, "MPI_Allreduce", nb * 4096 + op, in == MPI_IN_PLACE ? out : in, nb, 0, 0, me, key);
    coll_wait(k, (int)C(c).m.size(), "MPI_Allreduce");
    reduce_all(k, n, t, op, nb); memcpy(out, k.out.data(), nb);
    coll_leave(c, key); return 0;
}
int MPI_Reduce(const void* in, void* out, int n, MPI_Datatype t, MPI_Op op, int root, MPI_Comm c) {
    HostScope hs; int me; u64 key; long nb = n * tsize(t);
    Coll& k = coll_enter(c, "MPI_Reduce", nb * 4096 + op * 64 + root, in == MPI_IN_PLACE ? out : in, nb, 0, 0, me, key);
    coll_wait(k, (int)C(c).m.size(), "MPI_Reduce");
    if (me == root) { reduce_all(k, n, t, op, nb); memcpy(out, k.out.data(), nb); }
    coll_leave(c, key); return 0;
}
int MPI_Allgather(const void* in, int n, MPI_Datatype t, void* out, int, MPI_Datatype, MPI_Comm c) {
    HostScope hs; int me; u64 key; long nb = n * tsize(t);
    Coll& k = coll_enter(c, "MPI_Allgather", nb, in == MPI_IN_PLACE ? (char*)out + nb * myrank(C(c)) : in, nb, 0, 0, me, key);
    coll_wait(k, (int)C(c).m.size(), "MPI_Allgather");
    for (size_t i = 0; i < k.in.size(); i++) memcpy((char*)out + i * nb, k.in[i].data(), nb);
    coll_leave(c, key); return 0;
}
int MPI_Gather(const void* in, int n, MPI_Datatype t, void* out, int, MPI_Datatype, int root, MPI_Comm c) {
    HostScope hs; int me; u64 key; long nb = n * tsize(t);
    Coll& k = coll_enter(c, "MPI_Gather", nb * 64 + root, in == MPI_IN_PLACE ? (char*)out + nb * myrank(C(c)) : in, nb, 0, 0, me, key);
    coll_wait(k, (int)C(c).m.size(), "MPI_Gather");
    if (me == root) for (size_t i = 0; i < k.in.size(); i++) memcpy((char*)out + i * nb, k.in[i].data(), nb);
    coll_leave(c, key); return 0;
}
static int split_common(MPI_Comm c, const char* kind, int color, int keyv, MPI_Comm* out) {
    int me; u64 key;
    Coll& k = coll_enter(c, kind, 0, nullptr, 0, color, keyv, me, key);
    int n = (int)C(c).m.size();
    coll_wait(k, n, kind);
    if (k.newcomm.empty()) {
        k.newcomm.assign(n, 0);
        std::map<i64, std::vector<int>> g;
        for (int i = 0; i < n; i++) if (k.a[i] != MPI_UNDEFINED) g[k.a[i]].push_back(i);
        for (auto& kv : g) {
            std::stable_sort(kv.second.begin(), kv.second.end(), [&](int x, int y) { return k.b[x] < k.b[y]; });
            Comm nc; nc.id = (int)comms.size();
            for (int i : kv.second) nc.m.push_back(comms[c].m[i]);
            nc.seq.assign(nc.m.size(), 0);
            comms.push_back(nc);
            for (int i : kv.second) k.newcomm[i] = nc.id;
        }
    }
    *out = k.newcomm[me];
    coll_leave(c, key); return 0;
}
int MPI_Comm_split(MPI_Comm c, int color, int key, MPI_Comm* o) { HostScope hs; return split_common(c, "MPI_Comm_split", color, key, o); }
int MPI_Comm_dup(MPI_Comm c, MPI_Comm* o) { HostScope hs; return split_common(c, "MPI_Comm_dup", 0, 0, o); }
int MPI_Comm_split_type(MPI_Comm c, int, int key, MPI_Info, MPI_Comm* o) {
    HostScope hs; int node = R() < (int)P.node.size() ? P.node[R()] : 0;
    return split_common(c, "MPI_Comm_split_type", node, key, o);
}

// ---- point to point
static int isend_common(const void* b, int n, MPI_Datatype t, int dst, int tag, MPI_Comm c, MPI_Request* q, bool sync) {
    need_init("MPI_Isend");
    sync_point("MPI_Isend");
    if (dst == MPI_PROC_NULL) { Req* r = new_req(true); r->complete = true; *q = r->id; return 0; }
    Comm& cm = C(c);
    if (dst < 0 || dst >= (int)cm.m.size() || n < 0) VIOL("mpi-usage", "rank %d: send to invalid rank %d (count %d)", R(), dst, n);
    Req* r = new_req(true);
    r->sbuf = (const char*)b; r->bytes = n * tsize(t); r->peer = cm.m[dst]; r->tag = tag; r->comm = c;
    Msg* m = new Msg; m->src = myrank(cm); m->dst = cm.m[dst]; m->tag = tag; m->comm = c; m->bytes = r->bytes; m->sreq = r; m->seq = ++msg_seq; m->sync = sync;
    m->lazy = choose(CK_LAZY, cur->id, P.lazy_pct, 2) != 0;
    r->sum = csum(r->sbuf, r->bytes);
    cnt[C_MSGS]++; cnt[C_BYTES] += r->bytes; if (!r->bytes) cnt[C_ZERO_MSGS]++;
    if (m->lazy) cnt[C_LAZY]++;
    else {
        m->data.assign(r->sbuf, r->sbuf + r->bytes);
        if (!sync) {   // eager: may complete locally before it is received.
            i64 late = choose(CK_LATE, cur->id, P.late_pct, 4) * 15000;
            r->complete = true; r->visible = sim_now + late; m->sreq = nullptr;
            if (late) at_time(r->visible, [] { progress(); });
        }
    }
    i64 at = sim_now + pick_delay(cur->id);
    i64& last = chan_last[{R(), m->dst}];
    if (at < last) at = last;      // MPI messages do not overtake on a channel
    last = at;
    mpi_outstanding++;
    at_time(at, [m] { arrive(m); });
    *q = r->id;
    hash_in(0x53ULL << 40 | (u64)R() << 20 | (u64)dst); hash_in((u64)tag << 32 | (u64)r->bytes); hash_in(r->sum);
    progress();
    return 0;
}
int MPI_Isend(const void* b, int n, MPI_Datatype t, int d, int tag, MPI_Comm c, MPI_Request* q) { HostScope hs; return isend_common(b, n, t, d, tag, c, q, false); }
int MPI_Issend(const void* b, int n, MPI_Datatype t, int d, int tag, MPI_Comm c, MPI_Request* q) { HostScope hs; return isend_common(b, n, t, d, tag, c, q, true); }
int MPI_Irecv(void* b, int n, MPI_Datatype t, int src, int tag, MPI_Comm c, MPI_Request* q) {
    HostScope hs; need_init("MPI_Irecv"); sync_point("MPI_Irecv");
    Req* r = new_req(false);
    if (src == MPI_PROC_NULL) { r->complete = true; r->src = MPI_PROC_NULL; *q = r->id; return 0; }
    Comm& cm = C(c);
    if (src != MPI_ANY_SOURCE && (src < 0 || src >= (int)cm.m.size())) VIOL("mpi-usage", "rank %d: receive from invalid rank %d", R(), src);
    r->rbuf = (char*)b; r->bytes = n * tsize(t); r->peer = src == MPI_ANY_SOURCE ? src : src; r->tag = tag; r->comm = c;
    // The contents of a receive buffer are undefined until completion.
    if (r->bytes) fill_garbage(b, r->bytes, P.memseed * 11 + r->id);
    *q = r->id;
    auto& u = unexp[R()];
    for (auto it = u.begin(); it != u.end(); ++it) if (matches(*it, r)) { Msg* m = *it; u.erase(it); complete_pair(m, r); progress(); return 0; }
    posted[R()].push_back(r);
    progress();
    return 0;
}
static bool is_done(Req* r) { return r->complete && sim_now >= r->visible; }
static void set_status(MPI_Status* s, Req* r) { if (s) { s->MPI_SOURCE = r->is_send ? MPI_UNDEFINED : r->src; s->MPI_TAG = r->rtag; s->MPI_ERROR = 0; s->_count = r->got; s->_cancelled = 0; } }
static void empty_status(MPI_Status* s) { if (s) { s->MPI_SOURCE = MPI_ANY_SOURCE; s->MPI_TAG = MPI_ANY_TAG; s->MPI_ERROR = 0; s->_count = 0; s->_cancelled = 0; } }
static void release(MPI_Request* q, Req* r, MPI_Status* s) {
    if (r->is_send && r->complete && r->sbuf && r->bytes && csum(r->sbuf, r->bytes) != r->sum)
        VIOL("mpi-buffer-reuse", "rank %d changed a send buffer (to rank %d, tag %d, %ld bytes) before waiting for the send", R(), r->peer, r->tag, r->bytes);
    set_status(s, r);
    hash_in(0x57ULL << 40 | (u64)r->id);
    r->active = false;
    *q = MPI_REQUEST_NULL;
    progress();
}
int MPI_Wait(MPI_Request* q, MPI_Status* s) {
    HostScope hs; sync_point("MPI_Wait");
    if (*q == MPI_REQUEST_NULL) { empty_status(s); return 0; }
    Req* r = get_req(*q);
    if (!is_done(r)) { cnt[C_WAITBLOCK]++; if (r->complete) at_time(r->visible, [] {}); block_until(r->is_send ? "MPI_Wait(send)" : "MPI_Wait(recv)", [r] { return is_done(r); }); }
    release(q, r, s);
    return 0;
}
int MPI_Waitall(int n, MPI_Request* q, MPI_Status* s) { for (int i = 0; i < n; i++) MPI_Wait(&q[i], s ? &s[i] : nullptr); return 0; }
static bool fail_test() {
    HostScope hs;
    // A completed request may be reported late, but not forever.
    if (cur->consec_testfail < 3 && choose(CK_TESTFAIL, cur->id, P.testfail_pct, 2)) { cur->consec_testfail++; cnt[C_TESTFAIL]++; return true; }
    cur->consec_testfail = 0;
    return false;
}
int MPI_Test(MPI_Request* q, int* flag, MPI_Status* s) {
    HostScope hs;
    if (*q == MPI_REQUEST_NULL) { *flag = 1; empty_status(s); sync_point("MPI_Test"); return 0; }
    fire_due_pub:
    Req* r = get_req(*q);
    if (is_done(r) && !fail_test()) { *flag = 1; release(q, r, s); sync_point("MPI_Test"); return 0; }
    *flag = 0; cnt[C_TESTS_INCOMPLETE]++;
    spin_point("MPI_Test");
    return 0;
    goto fire_due_pub;
}
int MPI_Testall(int n, MPI_Request* q, int* flag, MPI_Status* s) {
    HostScope hs; bool all = true;
    for (int i = 0; i < n; i++) if (q[i] != MPI_REQUEST_NULL && !is_done(get_req(q[i]))) all = false;
    if (all && !fail_test()) { for (int i = 0; i < n; i++) { if (q[i] == MPI_REQUEST_NULL) { if (s) empty_status(&s[i]); } else release(&q[i], get_req(q[i]), s ? &s[i] : nullptr); } *flag = 1; sync_point("MPI_Testall"); }
    else { *flag = 0; cnt[C_TESTS_INCOMPLETE]++; spin_point("MPI_Testall"); }
    return 0;
}
static int some(int n, MPI_Request* q, int* outc, int* idx, MPI_Status* s, bool wait, bool any, const char* w) {
    HostScope hs; sync_point(w);
    int act = 0;
    for (int i = 0; i < n; i++) if (q[i] != MPI_REQUEST_NULL) { get_req(q[i]); act++; }
    if (!act) { *outc = MPI_UNDEFINED; return 0; }
    auto anydone = [&] { for (int i = 0; i < n; i++) if (q[i] != MPI_REQUEST_NULL && is_done(&reqs[q[i]])) return true; return false; };
    if (wait && !anydone()) {
        cnt[C_WAITBLOCK]++;
        block_until(w, [&] { return anydone(); });
    }
    int k = 0;
    // Which of the completed requests are reported is up to the implementation.
    std::vector<int> done;
    for (int i = 0; i < n; i++) if (q[i] != MPI_REQUEST_NULL && is_done(&reqs[q[i]])) done.push_back(i);
    if (!done.empty() && choose(CK_MISC, cur->id, 30, 2)) std::reverse(done.begin(), done.end());
    for (int i : done) {
        if (!(wait && k == 0) && fail_test()) continue;
        idx[k] = i; release(&q[i], &reqs[q[i]], s ? &s[k] : nullptr); k++;
        if (any) break;
    }
    *outc = k;
    if (!k) { cnt[C_TESTS_INCOMPLETE]++; spin_point(w); }
    return 0;
}
int MPI_Testsome(int n, MPI_Request* q, int* outc, int* idx, MPI_Status* s) { return some(n, q, outc, idx, s, false, false, "MPI_Testsome"); }
int MPI_Waitsome(int n, MPI_Request* q, int* outc, int* idx, MPI_Status* s) { return some(n, q, outc, idx, s, true, false, "MPI_Waitsome"); }
int MPI_Testany(int n, MPI_Request* q, int* idx, int* flag, MPI_Status* s) {
    int oc, i = MPI_UNDEFINED; some(n, q, &oc, &i, s, false, true, "MPI_Testany");
    if (oc == MPI_UNDEFINED) { *flag = 1; *idx = MPI_UNDEFINED; empty_status(s); } else if (oc) { *flag = 1; *idx = i; } else { *flag = 0; *idx = MPI_UNDEFINED; }
    return 0;
}
int MPI_Waitany(int n, MPI_Request* q, int* idx, MPI_Status* s) {
    int oc, i = MPI_UNDEFINED; some(n, q, &oc, &i, s, true, true, "MPI_Waitany"); *idx = oc == MPI_UNDEFINED ? MPI_UNDEFINED : i; return 0;
}
int MPI_Iprobe(int src, int tag, MPI_Comm c, int* flag, MPI_Status* s) {
    HostScope hs; Req r; r.comm = c; r.peer = src; r.tag = tag;
    for (auto m : unexp[R()]) if (matches(m, &r)) { *flag = 1; if (s) { s->MPI_SOURCE = m->src; s->MPI_TAG = m->tag; s->_count = m->bytes; } return 0; }
    *flag = 0; spin_point("MPI_Iprobe"); return 0;
}
int MPI_Send(const void* b, int n, MPI_Datatype t, int d, int tag, MPI_Comm c) { MPI_Request q; MPI_Isend(b, n, t, d, tag, c, &q); return MPI_Wait(&q, nullptr); }
int MPI_Recv(void* b, int n, MPI_Datatype t, int src, int tag, MPI_Comm c, MPI_Status* s) { MPI_Request q; MPI_Irecv(b, n, t, src, tag, c, &q); return MPI_Wait(&q, s); }
int MPI_Sendrecv(const void* sb, int sn, MPI_Datatype st, int d, int stag, void* rb, int rn, MPI_Datatype rt, int src, int rtag, MPI_Comm c, MPI_Status* s) {
    MPI_Request a, b; MPI_Irecv(rb, rn, rt, src, rtag, c, &a); MPI_Isend(sb, sn, st, d, stag, c, &b); MPI_Wait(&a, s); return MPI_Wait(&b, nullptr);
}
int MPI_Request_free(MPI_Request* q) { HostScope hs; if (*q != MPI_REQUEST_NULL) { Req* r = get_req(*q); r->freed = true; r->active = false; } *q = MPI_REQUEST_NULL; return 0; }
int MPI_Cancel(MPI_Request*) { HostScope hs; HERR("MPI_Cancel not simulated"); }
int MPI_Get_count(const MPI_Status* s, MPI_Datatype t, int* n) { *n = (int)(s->_count / tsize(t)); return 0; }
int MPI_Type_size(MPI_Datatype t, int* n) { *n = (int)tsize(t); return 0; }
int MPI_Info_create(MPI_Info* i) { *i = 1; return 0; }
int MPI_Info_set(MPI_Info, const char*, const char*) { return 0; }
int MPI_Info_free(MPI_Info* i) { *i = MPI_INFO_NULL; return 0; }

// ---- shared windows
int MPI_Win_allocate_shared(MPI_Aint sz, int disp, MPI_Info, MPI_Comm c, void* base, MPI_Win* w) {
    HostScope hs; int me; u64 key;
    Coll& k = coll_enter(c, "MPI_Win_allocate_shared", 0, nullptr, 0, sz, disp, me, key);
    int n = (int)C(c).m.size();
    coll_wait(k, n, "MPI_Win_allocate_shared");
    if (!k.win) {
        Win x; x.comm = c; size_t tot = 0;
        for (int i = 0; i < n; i++) { x.disp.push_back(tot); x.sz.push_back(k.a[i]); tot += (k.a[i] + 63) / 64 * 64; }
        x.off = (size_t)shm_alloc_map(tot + 64, n, nullptr);
        cnt[C_SHMWIN]++;
        wins.push_back(x); k.win = (int)wins.size() - 1;
    }
    Win& x = wins[k.win];
    *w = k.win;
    *(void**)base = shm_addr(R(), x.off + x.disp[me]);
    coll_leave(c, key); return 0;
}
int MPI_Win_shared_query(MPI_Win w, int rank, MPI_Aint* sz, int* disp, void* base) {
    HostScope hs; sync_point("MPI_Win_shared_query");
    if (w <= 0 || w >= (int)wins.size()) VIOL("mpi-usage", "invalid window");
    Win& x = wins[w];
    if (rank == MPI_PROC_NULL) rank = 0;
    if (rank < 0 || rank >= (int)x.sz.size()) VIOL("mpi-usage", "rank %d: MPI_Win_shared_query of invalid rank %d", R(), rank);
    *sz = x.sz[rank]; *disp = 1; *(void**)base = shm_addr(R(), x.off + x.disp[rank]);
    return 0;
}
int MPI_Win_lock_all(int, MPI_Win) { HostScope hs; sync_point("MPI_Win_lock_all"); return 0; }
int MPI_Win_unlock_all(MPI_Win) { HostScope hs; sync_point("MPI_Win_unlock_all"); return 0; }
int MPI_Win_sync(MPI_Win) { return 0; }
int MPI_Win_fence(int, MPI_Win w) { HostScope hs; int me; u64 key; Coll& k = coll_enter(wins[w].comm, "MPI_Win_fence", 0, nullptr, 0, 0, 0, me, key); coll_wait(k, (int)C(wins[w].comm).m.size(), "MPI_Win_fence"); coll_leave(wins[w].comm, key); return 0; }
int MPI_Win_free(MPI_Win* w) {
    HostScope hs; int me; u64 key; int c = wins[*w].comm;
    Coll& k = coll_enter(c, "MPI_Win_free", 0, nullptr, 0, 0, 0, me, key);
    coll_wait(k, (int)C(c).m.size(), "MPI_Win_free"); coll_leave(c, key);
    wins[*w].freed = true; *w = MPI_WIN_NULL; return 0;
}
int MPI_Finalize() {
    HostScope hs; int me; u64 key; need_init("MPI_Finalize");
    Coll& k = coll_enter(MPI_COMM_WORLD, "MPI_Finalize", 0, nullptr, 0, 0, 0, me, key);
    coll_wait(k, n_ranks, "MPI_Finalize"); coll_leave(MPI_COMM_WORLD, key);
    finalized[R()] = true; return 0;
}
int MPI_Error_string(int, char* s, int* n) { strcpy(s, "error"); *n = 5; return 0; }
int MPI_Get_processor_name(char* s, int* n) { strcpy(s, "simnode"); *n = 7; return 0; }
int MPI_Get_library_version(char* s, int* n) { strcpy(s, "simmpi"); *n = 6; return 0; }
double MPI_Wtime() { return rank_clock(R()) * 1e-9; }
}

// At the end of a run: nothing may be left in flight or un-received.
void mpi_final_check() {
    for (int r = 0; r < n_ranks; r++) {
        if (!unexp[r].empty()) { Msg* m = unexp[r].front(); VIOL("mpi-leak", "message from rank %d to rank %d (tag %d, %ld bytes) was never received", m->src, r, m->tag, m->bytes); }
        if (!posted[r].empty()) { Req* q = posted[r].front(); VIOL("mpi-leak", "receive in rank %d from rank %d (tag %d) was never matched", r, q->peer, q->tag); }
    }
    for (auto& q : reqs) if (q.id && q.active && !q.is_send && !q.complete) VIOL("mpi-leak", "receive request in rank %d never completed", q.rank);
    for (auto& q : reqs) if (q.id && q.active) VIOL("mpi-leak", "%s request in rank %d (peer %d, tag %d) was never waited for", q.is_send ? "send" : "receive", q.rank, q.peer, q.tag);
    if (!colls.empty()) VIOL("mpi-leak", "a collective operation was left incomplete");
}
