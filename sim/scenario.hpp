// Scenario: everything one simulated run needs, as text; and the seeded
// generators ("swarm" style: every run enables its own random subset of
// features and faults).
#pragma once
#include "core.hpp"
#include "model.hpp"
#include <fstream>
#include <sstream>
#include <cstring>

struct Scenario {
    std::string profile = "C01", so, stencil;
    int nranks = 1;
    SimParams p;
    std::vector<SimOp> ops;
    int elem_bytes() const { return so.size() && so.back() == 'f' ? 4 : 8; }
    void op(const char* kind, const char* var, const std::vector<long>& i, const std::string& str = "") {
        SimOp o; memset(&o, 0, sizeof o);
        snprintf(o.kind, sizeof o.kind, "%s", kind); snprintf(o.var, sizeof o.var, "%s", var);
        if (str.size() >= sizeof o.str || i.size() > MAXOPI) HERR("op too long");
        snprintf(o.str, sizeof o.str, "%s", str.c_str());
        o.n = (int)i.size(); for (size_t k = 0; k < i.size(); k++) o.i[k] = i[k];
        ops.push_back(o);
    }
    std::string text() const {
        std::ostringstream s;
        s << "profile " << profile << "\nso " << so << "\nnranks " << nranks << "\n";
        s << "param seed " << p.seed << "\nparam mode " << p.mode << "\nparam interval " << p.interval << "\nparam conflict_pct " << p.conflict_pct
          << "\nparam pct_changes " << p.pct_changes << "\nparam net " << p.net << "\nparam lazy_pct " << p.lazy_pct << "\nparam late_pct " << p.late_pct
          << "\nparam testfail_pct " << p.testfail_pct << "\nparam stall_pct " << p.stall_pct << "\nparam tstall_pct " << p.tstall_pct
          << "\nparam clock " << p.clock << "\nparam clkscale " << p.clkscale << "\nparam budget " << p.budget << "\nparam memseed " << p.memseed << "\nparam layout " << p.layout
          << "\nparam fewer_threads_pct " << p.fewer_threads_pct << "\nparam procs " << p.procs << "\nparam memcheck " << p.memcheck << "\n";
        s << "node"; for (int n : p.node) s << " " << n; s << "\n";
        for (auto& o : ops) {
            s << "op " << o.kind << " " << (o.var[0] ? o.var : "-") << " " << o.n;
            for (int k = 0; k < o.n; k++) s << " " << o.i[k];
            s << " | " << o.str << "\n";
        }
        return s.str();
    }
    std::string brief() const {
        std::ostringstream s;
        for (auto& o : ops) {
            s << o.kind; if (o.var[0]) s << ":" << o.var;
            s << "("; for (int k = 0; k < o.n; k++) s << (k ? "," : "") << o.i[k];
            if (o.str[0]) s << " " << o.str;
            s << ") ";
        }
        return s.str();
    }
    bool load(const std::string& path) {
        std::ifstream f(path); if (!f) return false;
        std::string line; ops.clear(); p.node.clear();
        while (std::getline(f, line)) {
            std::stringstream s(line); std::string w; s >> w;
            if (w == "profile") s >> profile;
            else if (w == "so") s >> so;
            else if (w == "nranks") s >> nranks;
            else if (w == "node") { int n; while (s >> n) p.node.push_back(n); }
            else if (w == "param") {
                std::string k; long long v; s >> k >> v;
                if (k == "seed") p.seed = v; else if (k == "mode") p.mode = v; else if (k == "interval") p.interval = v;
                else if (k == "conflict_pct") p.conflict_pct = v; else if (k == "pct_changes") p.pct_changes = v;
                else if (k == "net") p.net = v; else if (k == "lazy_pct") p.lazy_pct = v; else if (k == "late_pct") p.late_pct = v;
                else if (k == "testfail_pct") p.testfail_pct = v; else if (k == "stall_pct") p.stall_pct = v; else if (k == "tstall_pct") p.tstall_pct = v;
                else if (k == "clock") p.clock = v; else if (k == "clkscale") p.clkscale = v; else if (k == "budget") p.budget = v; else if (k == "memseed") p.memseed = v; else if (k == "layout") p.layout = v;
                else if (k == "fewer_threads_pct") p.fewer_threads_pct = v; else if (k == "procs") p.procs = v; else if (k == "memcheck") p.memcheck = v;
            } else if (w == "op") {
                std::string k, v; int n; s >> k >> v >> n;
                std::vector<long> i(n); for (auto& x : i) s >> x;
                std::string bar; s >> bar; std::string rest; std::getline(s, rest);
                if (!rest.empty() && rest[0] == ' ') rest = rest.substr(1);
                op(k.c_str(), v == "-" ? "" : v.c_str(), i, rest);
            }
        }
        stencil = so.substr(0, so.find('.'));
        return nranks >= 1 && nranks <= MAX_RANKS && !so.empty();
    }
};

struct Gen {
    Rng r; Scenario s; ModelStencil st; int nd = 0;
    std::vector<long> nr, rs, g;       // ranks per dim, (first) rank size, global size
    bool uneven = false; int expect = 0; bool temporal = false;
    int steps_left = 4;
    long t_run = 0;
    bool d(int p) { return r.pct(p); }
    long in(long a, long b) { return a + (long)r.below(b - a + 1); }
    template <class T> T one(std::initializer_list<T> l) { return l.begin()[r.below(l.size())]; }

    void base(const std::string& prof, u64 seed, const std::vector<std::string>& sos) {
        r.s = seed * 0x9e3779b97f4a7c15ULL ^ mix64(std::hash<std::string>()(prof));
        r.next();
        s.profile = prof;
        s.so = sos[r.below(sos.size())]; s.stencil = s.so.substr(0, s.so.find('.'));
        make_stencil(s.stencil, st); nd = (int)st.ddims.size();
        s.p.seed = r.next() >> 16; s.p.memseed = r.next() >> 20;
        s.p.layout = d(50);
        swarm();
        s.p.procs = (int)in(1, 6);
        int bits = s.elem_bytes() == 4 ? 22 : 50;
        tiled = st.tiled;
        steps_left = (int)std::min<long>(8, (bits - 3) / st.growth_bits);
    }
    void swarm() {
        s.p.mode = one<int>({0, 1, 1, 2, 3, 3, 4});
        s.p.interval = one<long>({50, 300, 1000, 3000, 10000, 50000});
        s.p.conflict_pct = one<int>({2, 10, 30, 60});
        s.p.pct_changes = (int)in(1, 6);
        s.p.net = one<int>({0, 1, 1, 2});
        s.p.lazy_pct = one<int>({0, 50, 100}); s.p.late_pct = one<int>({0, 30, 80}); s.p.testfail_pct = one<int>({0, 20, 60});
        s.p.stall_pct = one<int>({0, 0, 1, 5}); s.p.tstall_pct = one<int>({0, 0, 1, 5});
        s.p.clock = one<int>({0, 0, 1, 2, 3, 4, 5});
        s.p.fewer_threads_pct = one<int>({0, 0, 0, 20, 60});
    }
    void nodes(int maxn) { s.p.node.clear(); int k = (int)in(1, maxn); for (int i = 0; i < s.nranks; i++) s.p.node.push_back((int)r.below(k)); }

    // Ranks per dim.
    void factor(int n) {
        nr.assign(nd, 1);
        while (n > 1) { int f = 2; while (n % f) f++; nr[r.below(nd)] *= f; n /= f; }
    }
    long halo(int dd) const { return s.stencil.compare(0, 3, "vr_") ? st.max_halo[dd] : st.safe_halo[dd]; }
    // Sizes: kind 0 gsize+nranks, 1 nranks+rsize, 2 explicit indices + uneven sizes, 3 gsize only.
    std::vector<std::vector<long>> cuts;
    int geokind = 0;
    void sizes(long target, int kind) {
        geokind = kind;
        rs.assign(nd, 0); g.assign(nd, 0); cuts.assign(nd, {});
        double per = std::pow((double)target, 1.0 / nd);
        for (int k = 0; k < nd; k++) {
            long lo = std::max<long>(halo(k), 3), hi = std::max<long>(lo + 3, (long)(per * 1.6));
            long base_sz = std::max(lo, (long)(per * 0.3));
            rs[k] = in(base_sz, hi);
            if (kind == 0 && nr[k] > 1) { rs[k] = (rs[k] + 7) / 8 * 8; long last = d(40) ? rs[k] : in(lo, rs[k]); g[k] = rs[k] * (nr[k] - 1) + last; if (last != rs[k]) { expect = 2; } }
            else g[k] = rs[k] * nr[k];
            for (long j = 0; j < nr[k]; j++) cuts[k].push_back(rs[k]);
            if (kind == 2) { g[k] = 0; for (auto& c : cuts[k]) { c = in(base_sz, hi); g[k] += c; } }
        }
    }
    std::vector<long> pre(long a, const std::vector<long>& v) { std::vector<long> x{a}; x.insert(x.end(), v.begin(), v.end()); return x; }
    std::vector<std::vector<long>> rank_pos;
    void emit_geometry() {
        if (geokind == 0) { s.op("gsize", "", pre(-1, g)); if (s.nranks > 1 || d(50)) s.op("nranks", "", pre(-1, nr)); }
        else if (geokind == 1) { s.op("rsize", "", pre(-1, rs)); if (s.nranks > 1 || d(50)) s.op("nranks", "", pre(-1, nr)); }
        else if (geokind == 2) {
            s.op("nranks", "", pre(-1, nr));
            std::vector<int> perm(s.nranks); for (int i = 0; i < s.nranks; i++) perm[i] = i;
            if (d(60)) for (int i = s.nranks - 1; i > 0; i--) std::swap(perm[i], perm[r.below(i + 1)]);
            rank_pos.assign(s.nranks, {});
            for (int i = 0; i < s.nranks; i++) {
                int q = perm[i]; std::vector<long> ix(nd), sz(nd);
                for (int k = nd - 1; k >= 0; k--) { ix[k] = q % nr[k]; q /= nr[k]; sz[k] = cuts[k][ix[k]]; }
                s.op("rindex", "", pre(i, ix)); s.op("rsize", "", pre(i, sz));
                rank_pos[i] = ix;
            }
            if (d(30)) s.op("gsize", "", pre(-1, g));
        } else s.op("gsize", "", pre(-1, g));
    }
    // Another layout of the ranks over the same overall domain.
    bool relayout() {
        auto onr = nr;
        for (int t = 0; t < 6; t++) {
            factor(s.nranks);
            bool ok = true;
            for (int k = 0; k < nd; k++) ok &= g[k] >= nr[k] * std::max<long>(halo(k), 3);
            if (!ok) continue;
            for (int k = 0; k < nd; k++) {
                long lo = std::max<long>(halo(k), 3), left = g[k] - nr[k] * lo;
                cuts[k].assign(nr[k], lo);
                for (long j = 0; j < nr[k]; j++) { long x = j == nr[k] - 1 ? left : in(0, std::min(left, 2 * (g[k] / nr[k] - lo) + 1)); cuts[k][j] += x; left -= x; }
                rs[k] = cuts[k][0];
            }
            geokind = 2; emit_geometry();
            return true;
        }
        nr = onr;
        return false;
    }
    // Tiling, threads and memory options.
    std::string dimopt(const char* pf, int k, long v) { return std::string("-") + pf + st.ddims[k] + " " + std::to_string(v) + " "; }
    long max_threads_used = 0;
    bool bind = false, tiled = false;
    std::string tiling(bool many) {
        std::string o;
        int level_pct = many ? 70 : 40;
        static const char* L[5] = { "Mb", "b", "mb", "nb", "pb" };
        std::vector<long> cur(nd); double pieces = 1;
        for (int k = 0; k < nd; k++) cur[k] = geokind == 2 ? *std::max_element(cuts[k].begin(), cuts[k].end()) : rs[k];
        for (int l = 0; l < 5; l++) for (int k = 0; k < nd; k++) if (d(level_pct)) {
            long v = d(10) ? cur[k] + in(1, 9) : in(1, std::max<long>(1, cur[k]));
            // keep the number of pieces moderate
            if (cur[k] / v > 12) v = std::max<long>(1, cur[k] / 12);
            double np = (double)((cur[k] + v - 1) / v);
            if (pieces * np > 4000) continue;
            pieces *= np;
            o += dimopt(L[l], k, v); cur[k] = std::min(cur[k], v);
        }
        if (tiled) for (const char* t : { "l_tile", "Mb_tile", "b_tile", "mb_tile", "nb_tile" }) for (int k = 0; k < nd; k++) if (d(40)) o += dimopt(t, k, in(1, rs[k] + 3));
        return o;
    }
    std::string temporal_opts() {
        temporal = true;
        std::string o; long bt = in(1, 4), mt = in(1, 4);
        if (s.nranks > 1 && d(85)) {
            // As many steps as the rank sizes allow (if any).
            long mx = 4;
            for (int k = 0; k < nd; k++) if (nr[k] > 1) {
                long sz = *std::min_element(cuts[k].begin(), cuts[k].end());
                if (geokind == 0) sz = std::min(sz, g[k] - rs[k] * (nr[k] - 1));
                long ang = std::max<long>(4, (halo(k) + 3) / 4 * 4);
                mx = std::min(mx, ((sz - halo(k)) / ang + 1) / st.stages);
            }
            if (mx < 1) { temporal = false; return ""; }
            bt = in(1, mx); mt = in(1, mx);
        }
        if (d(70)) o += "-Mbt " + std::to_string(std::max(bt, mt)) + " ";
        o += "-bt " + std::to_string(bt) + " ";
        if (d(25)) o += "-round_up_temporal_angles ";
        return o;
    }
    std::string threads(int maxtot) {
        std::string o; long ot = in(1, 4), it = in(1, 3);
        while (ot * it > maxtot) { if (it > 1) it--; else ot--; }
        int k = (int)r.below(5);
        if (k == 0) o = "-max_threads " + std::to_string(in(1, maxtot)) + " ";
        else if (k == 1) o = "-outer_threads " + std::to_string(ot) + " ";
        else if (k == 2) o = "-inner_threads " + std::to_string(it) + " ";
        else if (k == 3) o = "-outer_threads " + std::to_string(ot) + " -inner_threads " + std::to_string(it) + " ";
        else o = "-max_threads " + std::to_string(ot * it) + " -inner_threads " + std::to_string(it) + " ";
        if (k >= 2 && d(30)) { o += "-bind_inner_threads "; bind = true; }
        return o;
    }
    std::string misc_opts() {
        std::string o;
        if (d(15)) o += "-force_scalar ";
        if (d(15)) o += "-no-bundle_allocs ";
        if (d(20)) o += "-allow_addl_padding ";
        if (d(15)) o += "-init_scratch_vars ";
        if (d(20)) o += dimopt("ep", (int)r.below(nd), in(1, 9));
        if (d(20)) o += dimopt("mp", (int)r.below(nd), in(1, 12));
        return o;
    }
    std::string mpi_opts() {
        std::string o;
        if (d(50)) o += d(50) ? "-overlap_comms " : "-no-overlap_comms ";
        if (d(50)) o += d(70) ? "-use_shm " : "-no-use_shm ";
        if (d(30)) o += "-force_scalar_exchange ";
        if (d(20)) o += "-min_exterior " + std::to_string(in(0, 6)) + " ";
        return o;
    }
    void prep() {
        for (auto& v : st.vars) if (v.dyn && s.nranks < 9 && total_steps == 0 && d(60)) s.op("stepalloc", v.name.c_str(), {in(3, 6)});
        s.op("prep", "", {expect}); }
    long first_t() {
        // The window after 'prepare' is [0, slots-1].
        return st.first_t;
    }
    void init(int poison, bool shift = true, bool force = false) {
        long method = one<long>({0, 0, 0, 1, 2});
        if (nd >= 3 || s.nranks > 3) method = method == 1 ? 0 : method;
        bool sh = force || (shift && d(50));
        t_run = sh ? one<long>({0, 1, 5, -3, 17, 1000, -1}) : first_t();
        // Without a shift the initial window must include what the equations read.
        s.op("init", "", {(long)r.below(100000), method, poison, sh ? 1 : 0, t_run});
        cur_window_t = t_run; shifted = sh; ran = false;
    }
    bool shifted = true, ran = false;
    long cur_window_t = 0;
    void run(int nsteps) {
        if (nsteps > steps_left) nsteps = steps_left;
        if (nsteps < 1) return;
        steps_left -= nsteps; ran = true;
        long a = t_run, b = st.dir > 0 ? a + nsteps - 1 : a - (nsteps - 1);
        s.op("run", "", {a, b, d(50)});
        t_run = st.dir > 0 ? b + 1 : b - 1;
        total_steps += nsteps;
    }
    long total_steps = 0;
    void check(int halo = 0) { s.op("check", "", {halo ? 0 : one<long>({0, 0, 1, 2}), halo}); }

    // A step index that is valid for v: inputs that are never written keep their initial window.
    // Sometimes an older step that is still kept.
    long stepof(const MVar& v) {
        long t = v.output ? t_run : cur_window_t;
        return v.back && d(40) ? t - st.dir * in(1, v.back) : t;
    }
    // Does the window of v include that step?
    bool has_step(const MVar& v) const { return v.kind.find('s') == std::string::npos || shifted || v.back >= st.first_t || (v.output && ran); }
    bool any_var(bool domain_only = false) const {
        for (auto& v : st.vars) if (has_step(v) && (!domain_only || v.kind.find('d') != std::string::npos)) return true;
        return false;
    }
    const MVar& rvar(bool domain_only = false) {
        for (;;) { const MVar& v = st.vars[r.below(st.vars.size())]; if (!has_step(v)) continue; if (!domain_only || v.kind.find('d') != std::string::npos) return v; }
    }
    // Random index of var v at a valid step (the last written one or the one before).
    std::vector<long> rpoint(const MVar& v, int where) {
        // where: 0 inside, 1 may be in the outer halo
        std::vector<long> p;
        for (size_t k = 0; k < v.dim.size(); k++) {
            if (v.kind[k] == 's') p.push_back(stepof(v));
            else if (v.kind[k] == 'm') p.push_back(in(v.m0[k], v.m1[k]));
            else {
                int dd = 0; while (st.ddims[dd] != v.dim[k]) dd++;
                long lo = where ? -v.lh[k] : 0, hi = g[dd] - 1 + (where ? v.rh[k] : 0);
                // favour points at rank boundaries
                if (d(50) && nr[dd] > 1 && g[dd] > 4) { long q = 0; long j = in(1, nr[dd] - 1); for (long c = 0; c < j; c++) q += cuts[dd][c]; q += in(-2, 1); if (q < lo) q = lo; if (q > hi) q = hi; p.push_back(q); }
                else p.push_back(in(lo, hi));
            }
        }
        return p;
    }
    void set_point() {
        if (!any_var()) return;
        const MVar& v = rvar();
        auto p = rpoint(v, d(20));
        long m = one<long>({0, 0, 1, 2, 3, 4, 4, 5, 5});
        std::vector<long> a{m, in(-4, 4)}; a.insert(a.end(), p.begin(), p.end());
        s.op("set", v.name.c_str(), a);
    }
    void box_of(const MVar& v, std::vector<long>& lo, std::vector<long>& hi, bool small, bool inside = false) {
        lo = rpoint(v, inside ? 0 : d(20)); hi = lo;
        for (size_t k = 0; k < v.dim.size(); k++) {
            if (v.kind[k] == 's') continue;
            if (v.kind[k] == 'm') { if (d(60)) { lo[k] = v.m0[k]; hi[k] = v.m1[k]; } continue; }
            int dd = 0; while (st.ddims[dd] != v.dim[k]) dd++;
            if (small) hi[k] = std::min(lo[k] + in(0, 2), g[dd] - 1 + (inside ? 0 : v.rh[k]));
            else if (d(25)) { lo[k] = 0; hi[k] = g[dd] - 1; }
            else hi[k] = std::min(lo[k] + in(0, g[dd]), g[dd] - 1 + (inside ? 0 : v.rh[k]));
        }
    }
    void set_slice() {
        if (!any_var()) return;
        const MVar& v = rvar();
        long kind = one<long>({0, 0, 1, 2, 3, 4});
        std::vector<long> lo, hi; box_of(v, lo, hi, d(50), kind >= 3);
        std::vector<long> a{kind, in(-4, 4)};
        a.insert(a.end(), lo.begin(), lo.end()); a.insert(a.end(), hi.begin(), hi.end());
        s.op("setslice", v.name.c_str(), a);
    }
    void reduce() {
        if (!any_var()) return;
        const MVar& v = rvar();
        std::vector<long> lo, hi; box_of(v, lo, hi, d(40));
        std::vector<long> a{d(50), d(50) ? 31 : in(1, 31)};
        a.insert(a.end(), lo.begin(), lo.end()); a.insert(a.end(), hi.begin(), hi.end());
        s.op("reduce", v.name.c_str(), a);
    }
    void shadow() {
        if (!any_var()) return;
        s.op("shadow", rvar().name.c_str(), {(long)r.below(100000), in(4, 14)});
    }
    // Slices over several of the kept steps.
    void steps_slice() {
        for (int tries = 0; tries < 8; tries++) {
            const MVar& v = st.vars[r.below(st.vars.size())];
            if (!v.output || !v.back || !has_step(v) || v.dim.empty() || v.kind[0] != 's') continue;
            std::vector<long> lo, hi; box_of(v, lo, hi, d(50));
            long a = t_run, b = t_run - st.dir * in(1, v.back);
            lo[0] = std::min(a, b); hi[0] = std::max(a, b);
            if (d(50)) {
                std::vector<long> x{one<long>({1, 2, 3, 4}), in(-4, 4)};
                if (x[0] >= 3) box_of(v, lo, hi, d(50), true), lo[0] = std::min(a, b), hi[0] = std::max(a, b);
                x.insert(x.end(), lo.begin(), lo.end()); x.insert(x.end(), hi.begin(), hi.end());
                s.op("setslice", v.name.c_str(), x);
            } else {
                std::vector<long> x{d(50), d(50) ? 31 : in(1, 31)};
                x.insert(x.end(), lo.begin(), lo.end()); x.insert(x.end(), hi.begin(), hi.end());
                s.op("reduce", v.name.c_str(), x);
            }
            return;
        }
    }
    const std::string vname() { return st.vars[r.below(st.vars.size())].name; }
    void uvar() { s.op("uvar", "", {(long)r.below(16), (long)r.below(100000), in(0, 2), (long)d(50)}); }
    void hooks() { s.op("hooks", "", {in(1, 6), (long)r.below(1 << 12)}); }
    void par() {
        if (!any_var(true)) return;
        const MVar& v = rvar(true);
        long kind = one<long>({0, 0, 1, 2});
        s.op("par", v.name.c_str(), {kind, in(2, 5), in(2, 10), (long)r.below(1000000), stepof(v)});
    }
    void opts(const std::string& o) { if (!o.empty()) s.op("opt", "", {-1}, o); }
};

inline Scenario gen_scenario(const std::string& prof_in, u64 seed, const std::vector<std::string>& sos) {
    Gen G;
    std::string prof = prof_in;
    G.base(prof, seed, sos);
    if (prof == "C16") { static const char* mix[] = { "C01", "C02", "C05", "C06", "C07", "C13" }; prof = mix[G.r.below(6)]; G.s.p.layout = 1; }
    if (prof == "C14") { static const char* mix[] = { "C01", "C01", "C02", "C02", "C09", "C07", "C13" }; prof = mix[G.r.below(7)]; }
    auto& s = G.s;
    long tgt = G.nd == 1 ? G.in(24, 220) : G.nd == 2 ? G.in(60, 900) : G.in(200, 2200);
    auto single = [&](int kind) { s.nranks = 1; G.factor(1); G.sizes(tgt, kind); s.p.node = {0}; };
    auto multi = [&](int lo, int hi, int kind) {
        s.nranks = (int)G.in(lo, hi); G.factor(s.nranks);
        G.sizes(std::max<long>(tgt / 2, 40), kind); G.nodes(3);
    };
    if (prof == "C10") tgt = tgt / 2 + 12;
    int c10clk = prof == "C10" ? G.one<int>({0, 0, 0, 1, 2, 3, 4, 5}) : 0;
    if (c10clk >= 4) tgt = G.nd == 1 ? 24 : G.nd == 2 ? 64 : 150;
    if (prof == "C01") {
        single(G.one<int>({0, 1})); G.emit_geometry();
        std::string o = G.tiling(true);
        if (G.d(60)) o += G.temporal_opts();
        o += G.threads(8) + G.misc_opts();
        G.opts(o); G.prep(); G.init(0);
        G.run((int)G.in(1, 4)); G.check(); if (G.d(40)) { G.run((int)G.in(1, 3)); G.check(); }
    } else if (prof == "C02" || prof == "C03" || prof == "C05") {
        multi(2, prof == "C03" ? 5 : 6, G.one<int>({0, 0, 1, 2, 2}));
        if (prof == "C05") G.nodes(G.d(70) ? 1 : 2);
        if (prof == "C03") { s.p.net = G.one<int>({1, 2}); s.p.stall_pct = G.one<int>({0, 2, 10}); }
        G.emit_geometry();
        std::string o;
        if (G.d(60)) o += G.tiling(false);
        if (G.d(50)) { o += G.temporal_opts(); G.expect = 2; }
        if (G.d(70)) o += G.threads(G.d(30) ? 6 : 3); else o += "-max_threads 1 ";
        o += G.mpi_opts(); if (prof == "C05") o += "-use_shm ";
        o += G.misc_opts();
        G.opts(o); G.prep(); G.init(1);
        int nr = (int)G.in(1, 3);
        if (prof == "C03" && G.d(50)) s.op("env", "", {(long)G.r.below(100000), G.in(1, 5)});
        for (int k = 0; k < nr; k++) {
            G.run((int)G.in(1, 3));
            if (prof == "C03" && G.d(30)) s.op("env", "", {(long)G.r.below(100000), G.in(1, 5)});
            if (prof != "C03" || G.d(30)) G.check();
            if (prof == "C03" && G.d(40)) s.op("xchg", "", {});
            if (prof == "C05" && G.d(25)) s.op("xchg", "", {});
            if (prof == "C02") while (G.d(35)) { if (G.d(60)) G.set_point(); else G.set_slice(); }
        }
        G.check();
        if (prof == "C03" && G.d(25)) { s.op("end", "", {}); }
    } else if (prof == "C04") {
        s.nranks = (int)G.in(1, 8); G.factor(s.nranks);
        int kind = G.one<int>({0, 0, 1, 2, 2, 3});
        G.sizes(std::max<long>(tgt / 3, 40), kind); G.nodes(2);
        if (kind == 3) { G.expect = 2; for (auto& x : G.g) x *= 2; }
        G.emit_geometry();
        int bad = s.nranks > 1 && G.d(35) ? (int)G.in(1, 5) : 0;
        if (bad == 1) { // product of ranks is wrong
            auto n = G.nr; n[G.r.below(G.nd)] += 1; s.op("nranks", "", G.pre(-1, n)); G.expect = 1;
        } else if (bad == 2 && kind == 2) { // two ranks at the same place
            // indices that are zero on all ranks mean "choose automatically"
            bool zero = true; for (int q = 1; q < s.nranks; q++) for (long x : G.rank_pos[q]) zero &= x == 0;
            for (long x : G.rank_pos[s.nranks - 1]) zero &= x == 0;
            if (!zero) { s.op("rindex", "", G.pre(0, G.rank_pos[s.nranks - 1])); G.expect = 1; }
        } else if (bad == 3 && kind == 2) { // rank sizes that cannot tile
            int rk = (int)G.r.below(s.nranks); int dd = -1; for (int k = 0; k < G.nd; k++) { bool other = false; for (int q = 0; q < G.nd; q++) if (q != k && G.nr[q] > 1) other = true; if (other) dd = k; }
            if (dd >= 0) { std::vector<long> v(G.nd, -1); v[dd] = G.cuts[dd][G.rank_pos[rk][dd]] + 1; s.op("rsize", "", G.pre(rk, v)); G.expect = 1; }
        } else if (bad == 4 && kind == 1) { // sizes and overall size that do not match
            auto gg = G.g; gg[G.r.below(G.nd)] += 1; s.op("gsize", "", G.pre(-1, gg)); G.expect = 1;
        } else if (bad == 5 && kind == 2) { // rank index out of range
            std::vector<long> v(G.nd, -1); v[0] = G.nr[0]; s.op("rindex", "", G.pre((long)G.r.below(s.nranks), v)); G.expect = 1;
        }
        else if (bad == 0 && s.nranks > 1 && G.d(20)) {
            // One rank is given other settings than the rest.
            int w = (int)G.in(0, 2); long rk = (long)G.r.below(s.nranks); int dd = (int)G.r.below(G.nd);
            std::vector<long> v(G.nd, -1);
            if (w == 0 && kind == 0) { for (int k = 0; k < G.nd; k++) v[k] = G.g[k]; v[dd] += G.nr[dd] * 8; s.op("gsize", "", G.pre(rk, v)); G.expect = 1; }
            else if (w == 1 && G.nd > 1) {
                auto n = G.nr; std::rotate(n.begin(), n.begin() + 1, n.end());
                if (n != G.nr) { s.op("nranks", "", G.pre(rk, n)); G.expect = 1; }
            } else if (w == 2 && kind == 1 && s.nranks > G.nr[dd]) {
                // an own size along a dim that other ranks share
                v[dd] = G.rs[dd] + 1; s.op("rsize", "", G.pre(rk, v)); G.expect = 1;
            }
        }
        if (G.d(50)) G.opts("-max_threads 1 " + G.mpi_opts());
        G.prep(); G.init(1, false); G.run(1); G.check();
    } else if (prof == "C06") {
        single(1); G.emit_geometry();
        s.p.mode = G.one<int>({1, 2, 3, 3, 4}); s.p.interval = G.one<long>({20, 50, 200, 1000, 5000}); s.p.conflict_pct = G.one<int>({10, 30, 60});
        s.p.procs = (int)G.in(2, 8);
        std::string o = G.tiling(false);
        if (G.d(60)) o += G.temporal_opts();
        o += G.threads(12) + G.misc_opts();
        G.opts(o); G.prep(); G.init(0);
        if (G.d(50)) G.par();
        G.run((int)G.in(1, 4)); G.check();
        if (G.d(60)) G.par();
        if (G.d(30)) G.reduce();
        if (G.d(50)) { G.run((int)G.in(1, 3)); G.check(); }
    } else if (prof == "C07") {
        multi(1, 5, G.one<int>({0, 1, 2, 2})); G.emit_geometry();
        std::string o = G.threads(3) + G.mpi_opts() + G.misc_opts();
        if (G.d(30)) o += G.tiling(false);
        G.opts(o); G.prep(); G.init(1);
        int n = (int)G.in(3, 9);
        for (int k = 0; k < n; k++) {
            int w = (int)G.r.below(10);
            if (w < 4) G.set_point(); else if (w < 6) G.set_slice(); else if (w < 8) G.run((int)G.in(1, 2));
            else if (w == 8) { s.op("xchg", "", {}); G.check(1); } else G.check();
            if (G.d(20)) G.shadow();
            if (G.d(15)) G.steps_slice();
        }
        if (G.d(50)) { s.op("xchg", "", {}); G.check(1); }
        G.run(1); G.check();
    } else if (prof == "C08") {
        if (G.d(50)) single(1); else multi(2, 4, G.one<int>({0, 1, 2}));
        G.emit_geometry(); G.opts(G.threads(6) + G.misc_opts()); G.prep(); G.init(0);
        int n = (int)G.in(4, 12);
        for (int k = 0; k < n; k++) { int w = (int)G.r.below(10); if (w < 5) G.reduce(); else if (w < 7) G.set_slice(); else if (w == 7) G.set_point(); else if (w == 8) G.run(1); else G.check(); if (G.d(15)) G.shadow(); if (G.d(20)) G.steps_slice(); }
        G.reduce(); G.check();
    } else if (prof == "C09") {
        if (G.d(60)) single(1); else multi(2, 4, G.one<int>({0, 1, 2}));
        G.emit_geometry();
        std::string o = G.threads(4); if (G.d(60)) { o += G.temporal_opts() + G.tiling(false); if (s.nranks > 1) G.expect = 2; }
        G.opts(o); G.prep(); G.init(1);
        int n = (int)G.in(2, 6);
        for (int k = 0; k < n; k++) {
            G.run((int)G.in(1, 4)); if (G.d(60)) G.check();
            if (G.d(40) && G.any_var()) { const MVar& v = G.rvar(); if (v.kind.find('s') != std::string::npos && v.output) s.op("badget", v.name.c_str(), { G.t_run + (G.d(50) ? 7 + G.in(0, 3) : -7 - G.in(0, 3)) }); }
            if (G.d(20) && G.any_var(true)) { const MVar& v = G.rvar(true); s.op("badset", v.name.c_str(), { G.t_run, (long)G.d(50), G.in(0, 3) }); }
        }
        G.check();
    } else if (prof == "C10") {
        if (c10clk >= 4 || G.d(50)) single(1); else multi(2, 3, 1);
        G.emit_geometry();
        s.p.clock = c10clk; if (s.nranks > 1 && c10clk == 0 && G.d(40)) s.p.clock = 6; s.p.clkscale = G.one<long>({100, 1000, 1000, 100000}); s.p.budget = 6000; s.p.mode = G.one<int>({0, 1, 4}); s.p.interval = 50000;
        std::string o = G.threads(3); if (c10clk < 4 && G.d(50)) o += G.tiling(false); if (G.d(50)) { o += G.temporal_opts(); G.expect = 2; }
        o += "-auto_tune_trial_secs " + std::string(c10clk >= 4 && G.d(80) ? "0" : G.one<const char*>({"0", "0.000001", "0.0001", "0.01", "0.5"})) + " -auto_tune_radius " + std::to_string(G.in(1, 4)) + " ";
        if (G.d(40)) o += std::string("-auto_tune_targets ") + G.one<const char*>({"b", "mb", "Mb", "Mb,b", "b,nb,pb", "b,mb,b"}) + " ";
        bool pre = G.d(50), off = false;
        if (pre) o += G.d(60) ? "-auto_tune " : "-no-auto_tune ";
        o += G.mpi_opts();
        G.opts(o); G.prep();
        s.op("tunechk", "", { (long)(o.find(" -auto_tune ") != std::string::npos || o.rfind("-auto_tune ", 0) == 0) });
        if (G.d(35)) { s.op("tunenow", "", {}); s.op("tunechk", "", { 0 }); }
        G.init(1, true);
        auto tune = [&](int p) { long on = G.d(p); s.op("tune", "", { on }); s.op("tunechk", "", { on }); if (!on) G.s.op("tune", "", { 0 }); off = !on; };
        if (G.d(40)) tune(70);
        for (int k = 0; k < 4; k++) { G.run((int)G.in(1, 3)); if (off) s.op("tunechk", "", { 0 }); if (G.d(30)) tune(60); if (G.d(40)) G.check(); }
        G.check();
    } else if (prof == "C11") {
        if (G.d(50)) single(G.one<int>({0, 1})); else multi(2, 4, G.one<int>({0, 1, 2}));
        G.emit_geometry(); std::string o = G.threads(3); long fl = 0; if (G.d(50)) { o += G.temporal_opts(); if (s.nranks > 1) { G.expect = 2; fl = 1; } }
        if (s.p.clock == 0) fl |= 2; else if (s.p.clock == 4) fl |= 4;
        G.opts(o); G.prep(); G.init(1);
        long base = 0, wps = G.st.wps;
        int n = (int)G.in(1, 5);
        for (int k = 0; k < n; k++) {
            long before = G.total_steps; G.run((int)G.in(1, 3)); base += G.total_steps - before;
            if (G.d(60)) { s.op("stats", "", { base, wps, fl }); base = 0; }      // get_stats() also clears
            else if (G.d(30)) { s.op("clearstats", "", {}); base = 0; }
        }
        s.op("stats", "", { base, wps, fl }); G.check();
    } else if (prof == "C12") {
        if (G.d(25)) {
            multi(2, 4, G.one<int>({0, 1, 2})); G.emit_geometry();
            G.opts(G.threads(3) + G.misc_opts() + G.mpi_opts());
            s.op("failprep1", "", { (long)G.r.below(s.nranks), G.in(1, 8), G.one<long>({256, 1024, 4096}) });
            G.init(1); G.run(1); G.check();
        } else {
            single(1); G.emit_geometry();
            std::string o = G.threads(3) + G.misc_opts(); G.opts(o);
            int n = (int)G.in(1, 3);
            for (int k = 0; k < n; k++) s.op("failprep", "", { G.in(1, 6), G.one<long>({1024, 4096, 256}), 0 });
            if (G.d(40)) G.uvar();
            G.prep(); G.init(0); G.run(2); G.check();
            if (G.d(40)) { s.op("vfail", G.vname().c_str(), { (long)G.d(60) }); s.op("prep", "", { 0 }); G.init(0, false, true); G.run(2); G.check(); }
            if (G.d(40)) { s.op("end", "", {}); s.op("failprep", "", { G.in(1, 6), G.one<long>({1024, 4096, 256}), 0 }); s.op("prep", "", { 0 }); G.init(0, false, true); G.run(1); G.check(); }
        }
    } else if (prof == "C13") {
        if (G.d(50)) single(1); else multi(2, 4, G.one<int>({0, 1, 2}));
        G.emit_geometry(); std::string o = G.threads(4) + G.misc_opts() + G.mpi_opts(); if (G.d(30)) o += G.tiling(false);
        G.opts(o);
        if (G.d(15)) s.op("early", "", { 0 });
        if (G.d(20)) s.op("ufuse", G.vname().c_str(), {});
        G.prep(); G.init(1);
        int n = (int)G.in(2, 6);
        for (int k = 0; k < n; k++) {
            int w = (int)G.r.below(9);
            if (w < 2) { G.run((int)G.in(1, 2)); }
            else if (w == 2) { s.op("fuse", "", { (long)G.d(50), (long)G.d(30), (long)G.d(50) }); }
            else if (w == 3 || w == 6) {
                if (G.d(60)) G.opts(G.threads(4) + G.tiling(false) + G.mpi_opts());
                s.op("prep", "", { 0 });
                if (G.d(30)) G.init(1, false); else if (G.d(50)) G.check();
            }
            else if (w == 4) { s.op("end", "", {}); if (s.nranks > 1 && G.d(60)) G.relayout(); s.op("prep", "", { 0 }); G.init(1, false); }
            else if (w == 5) { s.op("realloc", "", {}); G.init(1, false, G.d(50)); }
            else if (w == 7) { s.op("ufuse", G.vname().c_str(), {}); s.op("prep", "", { 0 }); G.init(1, false, G.d(50)); }
            else { G.check(); }
        }
        G.run(1); G.check();
    } else if (prof == "C15") {
        if (G.d(50)) single(1); else multi(2, 4, G.one<int>({0, 1, 2}));
        if (G.d(60)) G.hooks();
        // Some of the work is done in hooks (see deferred() in agent.cpp).
        if (G.d(25)) s.op("defer", "", {0});
        G.emit_geometry(); std::string o = G.threads(4) + G.misc_opts() + G.mpi_opts(); if (G.d(30)) o += G.tiling(false);
        if (s.nranks == 1 && G.d(40)) o += G.temporal_opts();
        G.opts(o);
        for (int k = (int)G.in(0, 2); k > 0; k--) G.uvar();
        auto hooked = [&](int pct) { if (G.d(pct)) { auto last = s.ops.back(); s.ops.pop_back(); s.op("defer", "", {1}); s.ops.push_back(last); } };
        G.prep(); hooked(25); G.init(1);
        for (int k = (int)G.in(0, 2); k > 0; k--) G.uvar();
        auto uc = [&] { s.op("ucheck", "", { (long)G.r.below(1000) }); };
        uc();
        bool sets = true;      // until the window of steps is not the one of the last 'init'
        int n = (int)G.in(2, 6);
        for (int k = 0; k < n; k++) {
            int w = (int)G.r.below(10);
            if (w < 3) {
                if (!G.steps_left) continue;
                if (G.d(30)) {
                    s.op("defer", "", {0});
                    if (G.d(30)) s.op("xchg", "", {});
                    if (sets) for (int j = (int)G.in(1, 3); j > 0; j--) { if (G.d(60)) G.set_point(); else G.set_slice(); }
                    if (G.d(50)) G.check();
                }
                G.run((int)G.in(1, 2));
                if (s.ops.back().kind[0] == 'r') hooked(30);
                uc(); if (sets && G.d(20)) G.set_point(); if (G.d(20)) G.check();
            }
            else if (w == 3) { s.op("xchg", "", {}); uc(); }
            else if (w == 4) { s.op("prep", "", { G.expect }); hooked(20); uc(); }
            else if (w == 5) { s.op("end", "", {}); uc(); s.op("prep", "", { G.expect }); hooked(20); G.init(1, false); sets = false; uc(); }
            else if (w == 6) { s.op("urel", "", { 1 }); uc(); }
            else if (w == 7) { G.hooks(); }
            else if (w == 8) { s.op("wrapchk", "", { (long)G.r.below(1000) }); G.check(); }
            else { G.shadow(); G.check(); }
        }
        G.run(1); uc(); G.check();
    } else if (prof == "C17") {
        if (G.d(40)) single(1); else multi(2, 4, G.one<int>({0, 1, 2}));
        G.emit_geometry(); std::string o = G.threads(4) + G.misc_opts() + G.mpi_opts(); if (G.d(30)) o += G.tiling(false);
        G.opts(o); G.prep(); G.init(1);
        auto mk = [&] { s.op("twin", "", { 0, 0 }, G.threads(4) + G.tiling(false) + G.mpi_opts()); };
        mk();
        int n = (int)G.in(3, 7); bool on = true, same = true;
        for (int k = 0; k < n; k++) {
            int w = (int)G.r.below(10);
            if (w < 4) { G.run((int)G.in(1, 2)); if (on && same) s.op("twin", "", { 2, 0 }); if (G.d(50)) G.check(); }
            else if (w == 4 && on) { s.op("twin", "", { 4, G.in(-3, 3) }); same = false; G.check(); }
            else if (w == 5 && on) { s.op("twin", "", { 1, 0 }); same = true; }
            else if (w == 6) { if (on) s.op("twin", "", { 3, 0 }); else mk(); on = !on; same = true; G.check(); }
            else if (w == 7 && on) { s.op("twin", "", { 5, 0 }); if (G.d(50)) { s.op("xchg", "", {}); } G.check(1 * (int)(G.s.ops[G.s.ops.size() - 1].kind[0] == 'x')); }
            else if (w == 8) { if (G.d(50)) G.set_point(); else G.set_slice(); same = false; if (on) { s.op("twin", "", { 1, 0 }); same = true; } }
            else if (w == 9 && on) { s.op("twin", "", { G.in(6, 8), 0 }); }
        }
        G.run(1); if (on) s.op("twin", "", { 6, 0 }); if (on && same) s.op("twin", "", { 2, 0 }); G.check();
    } else if (prof == "C18") {
        // YASK's own program, or the parts of it that validate a run.
        if (G.d(40)) single(0); else multi(2, 4, 0);
        std::string o = G.tiling(false);
        if (G.d(40)) { o += G.temporal_opts(); G.expect = 2; }
        o += G.threads(4) + G.misc_opts() + G.mpi_opts();
        long big = 0;
        if (G.st.dir > 0 && G.d(55)) {
            std::string a; int ex = G.expect == 2;
            for (int k = 0; k < G.nd; k++) a += "-g" + G.st.ddims[k] + " " + std::to_string(G.g[k]) + " ";
            if (s.nranks > 1) for (int k = 0; k < G.nd; k++) a += "-nr" + G.st.ddims[k] + " " + std::to_string(G.nr[k]) + " ";
            a += o;
            long trials = G.in(1, 3); bool val = G.d(75);
            a += "-num_trials " + std::to_string(trials) + " -sleep " + std::to_string(G.d(20)) + " -msg_rank " + std::to_string(G.r.below(s.nranks)) + " ";
            s.p.clkscale = G.one<long>({1000, 200, 50});
            if (G.d(50)) { a += "-trial_steps " + std::to_string(G.in(1, 6)) + " "; if (G.d(50)) a += "-no-warmup "; big = 40; }
            else {
                s.p.clock = G.one<int>({0, 0, 6, 6, 1, 2, 3}); a += std::string("-trial_time ") + G.one<const char*>({"0.01", "0.03"}) + " "; big = 400;
                if (s.p.clock && s.p.clock != 6) ex = 1;    // no progress of the clock means no steps
            }
            if (G.d(60)) a += "-no-pre_auto_tune "; else { a += std::string("-auto_tune_trial_secs ") + G.one<const char*>({"0", "0.0001", "0.001"}) + " "; big += 2000; }
            if (G.d(20)) { a += "-auto_tune -auto_tune_trial_secs 0.001 "; }
            if (G.d(20)) a += "-step_alloc " + std::to_string(G.in(3, 5)) + " ";
            if (G.d(20)) a += "-init_val " + std::to_string(G.in(1, 3)) + " ";
            if (val) a += "-validate ";
            if (G.d(8)) { a += G.one<const char*>({"-no_such_option ", "-num_trials 0 ", "-help "}); ex = 2; }
            // Some elements of the reference differ on some of the ranks.
            long neg = 0;
            if (val && ex == 0 && G.d(25)) { neg = 1 + (long)G.r.below((1 << s.nranks) - 1); }
            s.op("driver", "", {ex, val, neg ? 0 : G.d(12) ? G.in(1, 12) : 0, G.one<long>({1024, 4096, 256}), (long)G.r.below(s.nranks), neg, (long)G.r.below(1000000)}, a);
        } else {
            G.emit_geometry(); G.opts(o); G.prep();
            long n = G.in(1, 4), t0 = G.st.dir > 0 ? G.in(0, 3) : G.in(3, 6);
            s.op("refcmp", "", {t0, G.st.dir > 0 ? t0 + n - 1 : t0 - (n - 1), G.in(1, 20), (long)G.r.below(1000000), G.d(30) ? -1 : (long)G.r.below(s.nranks)});
            big = 20;
        }
        s.p.mode = G.one<int>({0, 1, 4}); s.p.interval = 50000;
        G.total_steps += big; s.p.budget = 4000;
    } else HERR("unknown profile");
    // The step budget must exceed the real work by far: only a run that makes no progress may exhaust it.
    double work = (prof == "C17" ? 3. : 1.) * (double)G.total_steps * (double)G.st.eqs.size();
    for (long q : G.g) work *= (double)q;
    s.p.budget = std::min<long>(20000, s.p.budget + (long)(work * 0.02));
    return s;
}
