// Runs one rank's program (a list of API operations) against the code under test.
#include "yask_kernel_api.hpp"
#include "hostapi.h"
#include <cstring>
#include <cmath>
#include <string>
#include <vector>
#include <functional>
#include <map>
#include <omp.h>
using namespace yask;
typedef std::vector<long> LV;

namespace {
const SimHost* H;
const SimScenario* S;
int R;

struct App {
    yk_factory fac;
    yk_env_ptr env;
    yk_solution_ptr soln;
    std::string step;
    std::vector<std::string> dd;
    bool prepared = false;
    long steps_done = 0, n1 = 0, n2 = 0; // steps since the last statistics, per solution
    std::vector<yk_solution_ptr> old;   // sources of fused vars
    struct UVar { yk_var_ptr v; long seed; bool filled, fixed, alloced; };
    std::vector<UVar> uv;               // vars created by the application
    int nuv = 0;
    std::vector<std::string> log, want; // hook calls, seen and expected
    int nhooks = 0;
    std::vector<int> hbp, hap, hbr, har;
    std::vector<std::string> names;     // the solution's own vars (a fused var goes by the name of its source)
    std::map<yk_var*, std::string> lname;
    yk_solution_ptr twin;               // another solution in the same environment
    // Ops that are executed by a hook of the op 'target'.
    int target = -1, before0 = 0, before1 = 0, after0 = 0, after1 = 0;
};
App* A;

char kind_of(yk_var_ptr v, const std::string& d) {
    if (d == A->step) return 's';
    for (auto& x : A->dd) if (x == d) return 'd';
    (void)v;
    return 'm';
}
std::vector<yk_var_ptr> vars() {
    std::vector<yk_var_ptr> r;
    for (auto& n : A->names) { auto v = A->soln->get_var(n); A->lname[v.get()] = n; r.push_back(v); }
    return r;
}
std::string vn(yk_var_ptr v) { auto it = A->lname.find(v.get()); return it == A->lname.end() ? v->get_name() : it->second; }
void cp(char* d, const std::string& s, size_t n) { strncpy(d, s.c_str(), n - 1); d[n - 1] = 0; }

void fill_info(yk_var_ptr v, SimVarInfo& f) {
    memset(&f, 0, sizeof f);
    cp(f.name, vn(v), sizeof f.name);
    auto dn = v->get_dim_names();
    f.nd = (int)dn.size();
    f.l1norm = v->get_halo_exchange_l1_norm();
    for (int i = 0; i < f.nd; i++) {
        cp(f.dim[i], dn[i], 8);
        f.kind[i] = kind_of(v, dn[i]);
        f.alloc[i] = v->get_alloc_size(dn[i]);
        if (f.kind[i] == 's') { f.step_alloc = v->get_alloc_size(dn[i]); }
        else if (f.kind[i] == 'd') {
            f.first_rank[i] = v->get_first_rank_domain_index(dn[i]);
            f.last_rank[i] = v->get_last_rank_domain_index(dn[i]);
            f.left_halo[i] = v->get_left_halo_size(dn[i]);
            f.right_halo[i] = v->get_right_halo_size(dn[i]);
        } else { f.misc_first[i] = v->get_first_misc_index(dn[i]); f.misc_last[i] = v->get_last_misc_index(dn[i]); }
        if (f.kind[i] != 's') { f.first_local[i] = v->get_first_local_index(dn[i]); f.last_local[i] = v->get_last_local_index(dn[i]); }
    }
}
// Visit a box in row-major order.
void visit(const LV& lo, const LV& hi, std::function<void(const LV&, size_t)> fn) {
    size_t n = lo.size();
    for (size_t d = 0; d < n; d++) if (hi[d] < lo[d]) return;
    LV p(lo); size_t k = 0;
    for (;;) {
        fn(p, k++);
        int d = (int)n - 1;
        while (d >= 0) { if (++p[d] <= hi[d]) break; p[d] = lo[d]; d--; }
        if (d < 0) return;
    }
}
size_t vol(const LV& lo, const LV& hi) { size_t v = 1; for (size_t d = 0; d < lo.size(); d++) v *= hi[d] < lo[d] ? 0 : hi[d] - lo[d] + 1; return v; }
idx_t_vec iv(const LV& v) { return idx_t_vec(v.begin(), v.end()); }

// Box of a var: owned domain (+ halos), all misc, given step.
void box(const SimVarInfo& f, bool halos, long step, LV& lo, LV& hi) {
    lo.assign(f.nd, 0); hi.assign(f.nd, 0);
    for (int d = 0; d < f.nd; d++) {
        if (f.kind[d] == 's') lo[d] = hi[d] = step;
        else if (f.kind[d] == 'd') { lo[d] = f.first_rank[d] - (halos ? f.left_halo[d] : 0); hi[d] = f.last_rank[d] + (halos ? f.right_halo[d] : 0); }
        else { lo[d] = f.misc_first[d]; hi[d] = f.misc_last[d]; }
    }
}
int step_pos(const SimVarInfo& f) { for (int d = 0; d < f.nd; d++) if (f.kind[d] == 's') return d; return -1; }

long gsize(const char* dim) { return (long)A->soln->get_overall_domain_size(dim); }

// op init: seed, method, shift, t_lo_of_window..., poison
void do_init(const SimOp& op, int k) {
    long seed = op.i[0], method = op.i[1], poison = op.i[2];
    for (auto v : vars()) {
        SimVarInfo f; fill_info(v, f);
        if (!v->is_storage_allocated()) H->violation(R, k, "api", ("no storage for var " + v->get_name()).c_str());
        int sp = step_pos(f);
        long w0 = 0, w1 = 0;
        if (sp >= 0) {
            if (!H->expect_window(k + 1, f.name, &w0, &w1)) H->harness_error("no window");
            // Documented: setting an element moves the window of valid steps.
            for (long s = w0; s <= w1; s++)
                if (s < v->get_first_valid_step_index() || s > v->get_last_valid_step_index()) {
                    LV lo, hi; box(f, false, s, lo, hi);
                    v->set_element(0.0, iv(lo));
                }
        }
        LV g(f.nd, 0);
        for (int d = 0; d < f.nd; d++) if (f.kind[d] == 'd') g[d] = gsize(f.dim[d]);
        for (long s = w0; s <= w1; s++) {
            LV lo, hi; box(f, true, s, lo, hi);
            size_t n = vol(lo, hi);
            std::vector<double> buf(n);
            visit(lo, hi, [&](const LV& p, size_t j) {
                bool outside = false, foreign = false;
                for (int d = 0; d < f.nd; d++) if (f.kind[d] == 'd') {
                    if (p[d] < 0 || p[d] >= g[d]) outside = true;
                    else if (p[d] < f.first_rank[d] || p[d] > f.last_rank[d]) foreign = true;
                }
                buf[j] = (poison && foreign && !outside) ? 7000 + (double)(j % 97) : H->val(seed, f.name, p.data(), f.nd);
            });
            if (method == 1) visit(lo, hi, [&](const LV& p, size_t j) { v->set_element(buf[j], iv(p)); });
            else if (method == 2) {
                std::vector<float> fb(buf.begin(), buf.end());
                idx_t c = v->set_elements_in_slice(fb.data(), fb.size(), iv(lo), iv(hi));
                H->observe_scalar(R, k, "set_elements_in_slice count", (double)c, (double)n);
            } else {
                idx_t c = v->set_elements_in_slice(buf.data(), buf.size(), iv(lo), iv(hi));
                H->observe_scalar(R, k, "set_elements_in_slice count", (double)c, (double)n);
            }
        }
    }
}

// op check: method (0 slice, 1 element, 2 float slice), halo (1: also check exchanged halo)
void do_check(const SimOp& op, int k) {
    long method = op.i[0], halo = op.i[1];
    for (auto v : vars()) {
        SimVarInfo f; fill_info(v, f);
        int sp = step_pos(f);
        long w0 = 0, w1 = 0;
        if (sp >= 0) {
            w0 = v->get_first_valid_step_index(); w1 = v->get_last_valid_step_index();
            long e0, e1;
            if (H->expect_window(k, f.name, &e0, &e1)) {
                H->observe_scalar(R, k, ("first valid step of " + v->get_name()).c_str(), (double)w0, (double)e0);
                H->observe_scalar(R, k, ("last valid step of " + v->get_name()).c_str(), (double)w1, (double)e1);
            }
        }
        for (long s = w0; s <= w1; s++) {
            LV lo, hi; box(f, halo != 0, s, lo, hi);
            size_t n = vol(lo, hi);
            std::vector<double> buf(n, -12345.0);
            if (method == 1) visit(lo, hi, [&](const LV& p, size_t j) { buf[j] = v->get_element(iv(p)); });
            else if (method == 2) {
                std::vector<float> fb(n, -12345.0f);
                v->get_elements_in_slice(fb.data(), n, iv(lo), iv(hi));
                buf.assign(fb.begin(), fb.end());
                // only integers that a float can hold exactly are compared below
            } else {
                idx_t c = v->get_elements_in_slice(buf.data(), n, iv(lo), iv(hi));
                H->observe_scalar(R, k, "get_elements_in_slice count", (double)c, (double)n);
            }
            visit(lo, hi, [&](const LV& p, size_t j) {
                if (method == 2 && std::abs(buf[j]) >= 16777216.0) return;
                int ndout = 0;
                if (halo) {
                    for (int d = 0; d < f.nd; d++) if (f.kind[d] == 'd' && (p[d] < f.first_rank[d] || p[d] > f.last_rank[d])) {
                        ndout++;
                        if (p[d] < 0 || p[d] >= gsize(f.dim[d])) ndout += 100;
                    }
                    if (ndout >= 100 || ndout > f.l1norm) return;
                }
                H->observe(R, k, ndout ? "exchanged halo" : "value", f.name, p.data(), f.nd, buf[j]);
            });
        }
    }
}

bool in_local(const SimVarInfo& f, const LV& p) {
    for (int d = 0; d < f.nd; d++) {
        if (f.kind[d] == 's') continue;
        if (p[d] < f.first_local[d] || p[d] > f.last_local[d]) return false;
    }
    return true;
}
// A rank "owns" a point outside of the overall domain if it stores it.
bool owned(const SimVarInfo& f, const LV& p) {
    bool own = true;
    for (int d = 0; d < f.nd; d++) if (f.kind[d] == 'd') {
        if (p[d] < 0 || p[d] >= gsize(f.dim[d])) return in_local(f, p);
        if (p[d] < f.first_rank[d] || p[d] > f.last_rank[d]) own = false;
    }
    return own;
}
yk_var_ptr var(const SimOp& op) { return A->soln->get_var(op.var); }

// op set: [method val idx...]; method 0 set_element, 1 add_to_element,
// 2 one-element slice, 3 set_element on ranks that store it (strict),
// 4 set_element and 5 add_to_element on the owner only: others must get it by exchange
void do_set(const SimOp& op, int k) {
    auto v = var(op);
    SimVarInfo f; fill_info(v, f);
    long method = op.i[0]; double val = (double)op.i[1];
    LV p(op.i + 2, op.i + 2 + f.nd);
    bool local = in_local(f, p);
    long n = 0;
    if (method >= 4) {
        local = owned(f, p);
        if (local) n = method == 4 ? v->set_element(val, iv(p)) : v->add_to_element(val, iv(p));
    }
    else if (method == 0) n = v->set_element(val, iv(p), false);
    else if (method == 1) n = v->add_to_element(val, iv(p), false);
    else if (method == 2) { if (local) n = v->set_elements_in_slice(&val, 1, iv(p), iv(p)); }
    else {
        // strict on the ranks that have it, an exception is documented elsewhere.
        if (local) n = v->set_element(val, iv(p), true);
    }
    H->observe_scalar(R, k, "number of elements set", (double)n, local ? 1 : 0);
}

// op setslice: [kind val lo... hi...]: kind 0 non-strict 'same', 1 strict 'same' on the
// intersection with the owned domain + halos, 2 strict buffer on the intersection,
// 3, 4: as 1, 2 but on the intersection with the owned domain only.
void do_setslice(const SimOp& op, int k) {
    auto v = var(op);
    SimVarInfo f; fill_info(v, f);
    long kind = op.i[0]; double val = (double)op.i[1];
    LV lo(op.i + 2, op.i + 2 + f.nd), hi(op.i + 2 + f.nd, op.i + 2 + 2 * f.nd);
    if (kind == 0) {
        LV clo(lo), chi(hi);
        for (int d = 0; d < f.nd; d++) if (f.kind[d] != 's') { clo[d] = std::max(lo[d], f.first_local[d]); chi[d] = std::min(hi[d], f.last_local[d]); }
        long n = v->set_elements_in_slice_same(val, iv(lo), iv(hi), false);
        H->observe_scalar(R, k, "set_elements_in_slice_same count", (double)n, (double)vol(clo, chi));
        return;
    }
    LV clo, chi; box(f, kind < 3, 0, clo, chi);
    for (int d = 0; d < f.nd; d++) { if (f.kind[d] == 's') { clo[d] = lo[d]; chi[d] = hi[d]; } clo[d] = std::max(lo[d], clo[d]); chi[d] = std::min(hi[d], chi[d]); }
    size_t n = vol(clo, chi);
    if (!n) return;
    long c;
    if (kind == 1 || kind == 3) c = v->set_elements_in_slice_same(val, iv(clo), iv(chi), true);
    else {
        std::vector<double> b(n, val);
        visit(clo, chi, [&](const LV& p, size_t j) { b[j] = H->val(op.i[1], f.name, p.data(), f.nd); });
        c = v->set_elements_in_slice(b.data(), n, iv(clo), iv(chi));
    }
    H->observe_scalar(R, k, "number of elements set in slice", (double)c, (double)n);
}

// op reduce: [strict lo... hi...] ; compares with the model.
void do_reduce(const SimOp& op, int k) {
    auto v = var(op);
    SimVarInfo f; fill_info(v, f);
    long strict = op.i[0], mask = op.i[1];
    LV lo(op.i + 2, op.i + 2 + f.nd), hi(op.i + 2 + f.nd, op.i + 2 + 2 * f.nd);
    // Part of the slice that this rank owns; its values are all determined.
    LV clo, chi; box(f, false, 0, clo, chi);
    for (int d = 0; d < f.nd; d++) { if (f.kind[d] == 's') { clo[d] = lo[d]; chi[d] = hi[d]; } clo[d] = std::max(lo[d], clo[d]); chi[d] = std::min(hi[d], chi[d]); }
    LV qlo(clo), qhi(chi);
    if (!strict) {
        // Use the whole slice when its intersection with the local allocation is the owned part.
        bool same = true;
        for (int d = 0; d < f.nd; d++) if (f.kind[d] != 's') {
            long a = std::max(lo[d], f.first_local[d]), b = std::min(hi[d], f.last_local[d]);
            if (vol(clo, chi) ? (a != clo[d] || b != chi[d]) : false) same = false;
        }
        if (!vol(clo, chi)) {
            // nothing owned: only when it is outside of the whole local allocation
            bool out = false;
            for (int d = 0; d < f.nd; d++) if (f.kind[d] != 's' && (hi[d] < f.first_local[d] || lo[d] > f.last_local[d])) out = true;
            same = out;
        }
        if (same) { qlo = lo; qhi = hi; }
    }
    size_t n = vol(clo, chi);
    if (!n && (strict || qlo == clo)) return;
    bool f32 = A->soln->get_element_bytes() == 4;
    double sab = 0, sum = 0, sq = 0, pr = 1, pa = 1, mx = 0, mn = 0; bool first = true, undef = false;
    visit(clo, chi, [&](const LV& p, size_t) {
        double x;
        if (!H->expect(k, f.name, p.data(), f.nd, &x)) { undef = true; return; }
        sum += x; sab += std::abs(x); sq += x * x; pr *= x; pa *= std::max(1.0, std::abs(x));
        mx = first || x > mx ? x : mx; mn = first || x < mn ? x : mn; first = false;
    });
    if (undef) return;
    auto r = v->reduce_elements_in_slice((int)mask, iv(qlo), iv(qhi), strict != 0);
    H->observe_scalar(R, k, "reduction element count", (double)r->get_num_elements_reduced(), (double)n);
    bool exact = sab < 4e15 && sq < 4e15 && !(f32 && (sab > 16e6 || sq > 16e6));
    if ((mask & yk_var::yk_sum_reduction) && exact) H->observe_scalar(R, k, "sum reduction", r->get_sum(), sum);
    if ((mask & yk_var::yk_sum_squares_reduction) && exact) H->observe_scalar(R, k, "sum-of-squares reduction", r->get_sum_squares(), sq);
    if ((mask & yk_var::yk_product_reduction) && pa < 1e15)   // no rounding in any order
         H->observe_scalar(R, k, "product reduction", r->get_product(), pr);
    if ((mask & yk_var::yk_max_reduction) && n) H->observe_scalar(R, k, "max reduction", r->get_max(), mx);
    if ((mask & yk_var::yk_min_reduction) && n) H->observe_scalar(R, k, "min reduction", r->get_min(), mn);
    H->note(R, k, "reduction", 1);
}

// op par: application threads use the API of one var concurrently.
// [kind nthr nops seed] kind 0: add_to_element on few shared elements;
// 1: set_element on disjoint elements; 2: disjoint set + concurrent gets of other elements
void do_par(const SimOp& op, int k) {
    auto v = var(op);
    SimVarInfo f; fill_info(v, f);
    long kind = op.i[0], nthr = op.i[1], per = op.i[2], seed = op.i[3], step = op.i[4];
    LV lo, hi; box(f, false, step, lo, hi);
    for (int d = 0; d < f.nd; d++) if (f.kind[d] == 'm') hi[d] = lo[d];
    size_t n = vol(lo, hi);
    std::vector<LV> pts; pts.reserve(n);
    visit(lo, hi, [&](const LV& p, size_t) { pts.push_back(p); });
    std::vector<double> before(n), want(n);
    for (size_t j = 0; j < n; j++) want[j] = before[j] = v->get_element(iv(pts[j]));
    size_t shared = kind == 0 ? std::min<size_t>(n, 2) : n;
    // Plan: fixed before the threads start.
    std::vector<std::vector<std::pair<size_t,double>>> plan(nthr);
    unsigned long s = (unsigned long)seed * 2654435761u + 12345;
    size_t base = n / 3;
    for (long t = 0; t < nthr; t++) for (long j = 0; j < per; j++) {
        s = s * 6364136223846793005ull + 1442695040888963407ull;
        size_t e = kind == 0 ? base + (s >> 33) % shared : (base + (size_t)(j * nthr + t)) % n;
        if (e >= n) e = n - 1;
        double x = 1 + (double)((s >> 40) % 5);
        plan[t].push_back({e, x});
    }
    if (kind != 0 && (size_t)(nthr * per) > n) return;
    for (auto& pl : plan) for (auto& q : pl) { if (kind == 0) want[q.first] += q.second; else want[q.first] = q.second; }
    std::vector<double> gotv(nthr * per, 0);
    std::vector<int> bad(nthr, 0);
    #pragma omp parallel num_threads((int)nthr)
    {
        // The runtime may supply fewer threads than requested.
        for (long t = omp_get_thread_num(); t < nthr; t += omp_get_num_threads())
            for (size_t j = 0; j < plan[t].size(); j++) {
                auto& q = plan[t][j];
                long c;
                if (kind == 0) c = v->add_to_element(q.second, iv(pts[q.first]));
                else c = v->set_element(q.second, iv(pts[q.first]));
                if (c != 1) bad[t]++;
                if (kind == 2 && v->get_element(iv(pts[q.first])) != q.second) bad[t]++;
            }
    }
    for (long t = 0; t < nthr; t++) if (bad[t]) H->violation(R, k, "concurrent-api", "concurrent API call returned a wrong count or value");
    for (size_t j = 0; j < n; j++)
        H->observe_scalar(R, k, "element after concurrent API calls", v->get_element(iv(pts[j])), want[j]);
    // Restore, so that the model need not know about per-rank values.
    for (size_t j = 0; j < n; j++) if (want[j] != before[j]) v->set_element(before[j], iv(pts[j]));
}

// Pseudo-random numbers that an op derives from its own seed.
struct Lcg {
    unsigned long s;
    Lcg(long seed) : s((unsigned long)seed * 0x9e3779b97f4a7c15UL + 0x1234567) { next(); next(); }
    unsigned long next() { s = s * 6364136223846793005UL + 1442695040888963407UL; return s >> 33; }
    long in(long a, long b) { return b <= a ? a : a + (long)(next() % (unsigned long)(b - a + 1)); }
    bool pct(int p) { return (long)(next() % 100) < p; }
};

// A random program of element, slice and reduction calls on one rank's part of a
// var, pads included, next to a plain array that holds what must be there.
void do_shadow(yk_var_ptr v, long seed, long nops, int k, bool restore) {
    SimVarInfo f; fill_info(v, f);
    Lcg r(seed + 7919 * R);
    int nd = f.nd;
    LV L0(nd), L1(nd);
    for (int d = 0; d < nd; d++) {
        if (f.kind[d] == 's') { L0[d] = v->get_first_valid_step_index(); L1[d] = v->get_last_valid_step_index(); }
        else if (f.kind[d] == 'd') { L0[d] = f.first_local[d]; L1[d] = f.last_local[d]; }
        else { L0[d] = f.misc_first[d]; L1[d] = f.misc_last[d]; }
    }
    LV b0(L0), b1(L1);
    while (vol(b0, b1) > 1200) {
        int w = -1;
        for (int d = 0; d < nd; d++) if (b1[d] > b0[d] && f.kind[d] == 'd' && (w < 0 || b1[d] - b0[d] > b1[w] - b0[w])) w = d;
        if (w < 0) for (int d = 0; d < nd; d++) if (b1[d] > b0[d]) w = d;
        long ext = b1[w] - b0[w] + 1, cut = r.in(1, std::max<long>(1, ext / 2));
        if (r.pct(50)) b0[w] += cut; else b1[w] -= cut;
    }
    size_t n = vol(b0, b1);
    std::vector<double> saved(n), sh(n);
    v->get_elements_in_slice(saved.data(), n, iv(b0), iv(b1));
    for (auto& x : sh) x = (double)r.in(-9, 9);
    H->observe_scalar(R, k, "set_elements_in_slice count", (double)v->set_elements_in_slice(sh.data(), n, iv(b0), iv(b1)), (double)n);
    auto at = [&](const LV& p) -> double& { size_t o = 0; for (int d = 0; d < nd; d++) o = o * (size_t)(b1[d] - b0[d] + 1) + (size_t)(p[d] - b0[d]); return sh[o]; };
    auto pt = [&] { LV p(nd); for (int d = 0; d < nd; d++) p[d] = r.in(b0[d], b1[d]); return p; };
    auto sub = [&](LV& lo, LV& hi) {
        lo = pt(); hi = lo;
        for (int d = 0; d < nd; d++) { if (r.pct(25)) { lo[d] = b0[d]; hi[d] = b1[d]; } else hi[d] = r.in(lo[d], b1[d]); }
    };
    for (long j = 0; j < nops; j++) {
        int w = (int)r.in(0, 13);
        LV p = pt(), lo, hi; double x = (double)r.in(-9, 9);
        sub(lo, hi);
        double m = (double)vol(lo, hi); size_t mn = (size_t)m;
        if (w == 0) { H->observe_scalar(R, k, "set_element count", (double)v->set_element(x, iv(p), r.pct(50)), 1); at(p) = x; }
        else if (w == 1) { H->observe_scalar(R, k, "add_to_element count", (double)v->add_to_element(x, iv(p), r.pct(50)), 1); at(p) += x; }
        else if (w == 2) H->observe_scalar(R, k, "element", v->get_element(iv(p)), at(p));
        else if (w == 3) {
            H->observe_scalar(R, k, "set_elements_in_slice_same count", (double)v->set_elements_in_slice_same(x, iv(lo), iv(hi), true), m);
            visit(lo, hi, [&](const LV& q, size_t) { at(q) = x; });
        } else if (w == 4 || w == 5) {
            std::vector<double> bd(mn); for (auto& y : bd) y = (double)r.in(-9, 9);
            double c;
            if (w == 4) c = (double)v->set_elements_in_slice(bd.data(), mn + r.in(0, 2), iv(lo), iv(hi));
            else { std::vector<float> bf(bd.begin(), bd.end()); c = (double)v->set_elements_in_slice(bf.data(), mn, iv(lo), iv(hi)); }
            H->observe_scalar(R, k, "set_elements_in_slice count", c, m);
            visit(lo, hi, [&](const LV& q, size_t i) { at(q) = bd[i]; });
        } else if (w == 6 || w == 7) {
            std::vector<double> bd(mn + 1, -54321.); double c;
            if (w == 6) c = (double)v->get_elements_in_slice(bd.data(), mn, iv(lo), iv(hi));
            else { std::vector<float> bf(mn + 1, -54321.f); c = (double)v->get_elements_in_slice(bf.data(), mn, iv(lo), iv(hi)); bd.assign(bf.begin(), bf.end()); }
            H->observe_scalar(R, k, "get_elements_in_slice count", c, m);
            H->observe_scalar(R, k, "memory after the slice buffer", bd[mn], -54321.);
            visit(lo, hi, [&](const LV& q, size_t i) { H->observe_scalar(R, k, "element in slice", bd[i], at(q)); });
        } else if (w == 8) {
            double sum = 0, sq = 0, pr = 1, mx = -1e9, mi = 1e9;
            bool big = false;
            visit(lo, hi, [&](const LV& q, size_t) { double y = at(q); sum += y; sq += y * y; pr *= y; if (std::abs(pr) > 1e6) big = true; mx = std::max(mx, y); mi = std::min(mi, y); });
            int mask = (int)r.in(1, 31);
            auto res = v->reduce_elements_in_slice(mask, iv(lo), iv(hi), r.pct(50));
            H->observe_scalar(R, k, "reduction element count", (double)res->get_num_elements_reduced(), m);
            if (mask & yk_var::yk_sum_reduction) H->observe_scalar(R, k, "sum reduction", res->get_sum(), sum);
            if (mask & yk_var::yk_sum_squares_reduction) H->observe_scalar(R, k, "sum-of-squares reduction", res->get_sum_squares(), sq);
            if ((mask & yk_var::yk_product_reduction) && !big) H->observe_scalar(R, k, "product reduction", res->get_product(), pr);
            if (mask & yk_var::yk_max_reduction) H->observe_scalar(R, k, "max reduction", res->get_max(), mx);
            if (mask & yk_var::yk_min_reduction) H->observe_scalar(R, k, "min reduction", res->get_min(), mi);
        } else if (w == 9 || w == 10) {
            // Beyond the local allocation, in dims where the box ends there.
            bool out = false;
            for (int d = 0; d < nd; d++) if (f.kind[d] != 's') {
                if (b0[d] == L0[d] && r.pct(40)) { lo[d] = L0[d] - r.in(1, 12); out = true; }
                if (b1[d] == L1[d] && r.pct(40)) { hi[d] = L1[d] + r.in(1, 12); out = true; }
                if (b0[d] == L0[d] && r.pct(5)) { lo[d] = L0[d] - r.in(5, 9); hi[d] = L0[d] - r.in(1, 4); out = true; }
            }
            LV clo(lo), chi(hi);
            for (int d = 0; d < nd; d++) { clo[d] = std::max(lo[d], L0[d]); chi[d] = std::min(hi[d], L1[d]); }
            if (w == 9) {
                H->observe_scalar(R, k, "set_elements_in_slice_same count", (double)v->set_elements_in_slice_same(x, iv(lo), iv(hi), false), (double)vol(clo, chi));
                visit(clo, chi, [&](const LV& q, size_t) { at(q) = x; });
            } else if (out) {
                bool threw = false;
                try { v->set_elements_in_slice_same(x, iv(lo), iv(hi), true); } catch (yask_exception& e) { threw = true; }
                H->observe_scalar(R, k, "exception for a strict slice outside of the allocation", threw, 1);
                auto res = v->reduce_elements_in_slice(yk_var::yk_sum_reduction, iv(lo), iv(hi), false);
                double sum = 0; visit(clo, chi, [&](const LV& q, size_t) { sum += at(q); });
                H->observe_scalar(R, k, "reduction element count", (double)res->get_num_elements_reduced(), (double)vol(clo, chi));
                H->observe_scalar(R, k, "sum reduction", res->get_sum(), sum);
            }
        } else if (w == 11) {
            // One index outside: skipped or rejected.
            std::vector<int> ds; for (int d = 0; d < nd; d++) if (f.kind[d] != 's') ds.push_back(d);
            if (ds.empty()) continue;
            int d = ds[(size_t)r.in(0, (long)ds.size() - 1)];
            H->observe_scalar(R, k, "are_indices_local inside", v->are_indices_local(iv(p)), 1);
            p[d] = r.pct(50) ? L0[d] - r.in(1, 20) : L1[d] + r.in(1, 20);
            H->observe_scalar(R, k, "are_indices_local outside", v->are_indices_local(iv(p)), 0);
            H->observe_scalar(R, k, "set_element count outside", (double)v->set_element(x, iv(p), false), 0);
            H->observe_scalar(R, k, "add_to_element count outside", (double)v->add_to_element(x, iv(p), false), 0);
            int threw = 0;
            try { v->set_element(x, iv(p), true); } catch (yask_exception& e) { threw++; }
            try { v->add_to_element(x, iv(p), true); } catch (yask_exception& e) { threw++; }
            try { v->get_element(iv(p)); } catch (yask_exception& e) { threw++; }
            H->observe_scalar(R, k, "exceptions for an index outside of the allocation", threw, 3);
        } else if (w == 12 && mn > 1) {
            // Buffers that are too small are rejected, and nothing is written.
            std::vector<double> bd(mn, 77.); std::vector<float> bf(mn, 77.f);
            int threw = 0;
            try { v->get_elements_in_slice(bd.data(), mn - 1, iv(lo), iv(hi)); } catch (yask_exception& e) { threw++; }
            try { v->set_elements_in_slice(bd.data(), mn - 1, iv(lo), iv(hi)); } catch (yask_exception& e) { threw++; }
            try { v->set_elements_in_slice(bf.data(), mn - 1, iv(lo), iv(hi)); } catch (yask_exception& e) { threw++; }
            H->observe_scalar(R, k, "exceptions for too small a buffer", threw, 3);
        } else if (w == 13) {
            // Wrong number of indices.
            LV q(p); q.push_back(0);
            int threw = 0;
            try { v->get_element(iv(q)); } catch (yask_exception& e) { threw++; }
            try { v->set_element(1., iv(q)); } catch (yask_exception& e) { threw++; }
            H->observe_scalar(R, k, "exceptions for a wrong number of indices", threw, 2);
        }
    }
    std::vector<double> fin(n, -1);
    v->get_elements_in_slice(fin.data(), n, iv(b0), iv(b1));
    visit(b0, b1, [&](const LV& q, size_t i) {
        H->observe_scalar(R, k, "element after all API calls", fin[i], sh[i]);
        if (i % 7 == 0) H->observe_scalar(R, k, "element after all API calls", v->get_element(iv(q)), sh[i]);
    });
    if (restore) v->set_elements_in_slice(saved.data(), n, iv(b0), iv(b1));
    H->note(R, k, "shadow", 1);
}

// op uvar: [base-var seed alloc-mode fixed]; alloc-mode 0: leave to prepare_solution(),
// 1: allocate now, 2: allocate now, the first attempt failing.
void do_uvar(const SimOp& op, int k) {
    auto& so = A->soln;
    auto vs = vars();
    auto base = vs[(size_t)op.i[0] % vs.size()];
    Lcg r(op.i[1]);
    bool fixed = op.i[3] != 0; long mode = op.i[2];
    auto dn = base->get_dim_names();
    #if ALLOW_NEW_VARS
    if (r.pct(50)) {
        // Any dims in any order, but the step dim first; also ones the solution does not have.
        size_t most = A->dd.size() + 1;
        for (auto& v : vs) most = std::max(most, v->get_dim_names().size());
        std::vector<std::string> c = A->dd;
        for (auto& m : so->get_misc_dim_names()) c.push_back(m);
        for (auto m : { "q", "p" }) if (std::find(c.begin(), c.end(), m) == c.end()) c.push_back(m);
        for (size_t i = c.size() - 1; i > 0; i--) std::swap(c[i], c[(size_t)r.in(0, (long)i)]);
        dn.clear();
        if (r.pct(40)) dn.push_back(A->step);
        size_t want = (size_t)r.in(dn.size() ? 1 : 0, (long)most);
        while (dn.size() < want && c.size()) { dn.push_back(c.back()); c.pop_back(); }
    }
    #endif
    std::string name = "uv" + std::to_string(A->nuv++);
    idx_t_vec sz;
    for (auto& d : dn) sz.push_back(kind_of(base, d) == 's' ? r.in(1, 4) : kind_of(base, d) == 'm' ? r.in(1, 4) : r.in(1, 14));
    auto v = fixed ? so->new_fixed_size_var(name, dn, sz) : so->new_var(name, dn);
    auto bad = [&](const char* m) { H->violation(R, k, "user-var", (std::string(m) + " (user var " + name + ")").c_str()); };
    if (v->get_name() != name || v->get_dim_names() != dn || v->get_num_dims() != (int)dn.size()) bad("wrong name or dims of a new var");
    if (v->is_fixed_size() != fixed) bad("is_fixed_size() is wrong");
    if (v->is_storage_allocated()) bad("a new var claims to have storage");
    if (so->get_var(name) != v) bad("get_var() does not find the new var");
    bool threw = false;
    try { if (fixed) so->new_fixed_size_var(name, dn, sz); else so->new_var(name, dn); } catch (yask_exception& e) { threw = true; }
    H->observe_scalar(R, k, "exception for a duplicate var name", threw, 1);
    for (size_t i = 0; i < dn.size(); i++) {
        auto& d = dn[i]; char kd = kind_of(v, d);
        if (kd == 'd') {
            long mp = so->get_min_pad_size(d), lp = r.pct(50) ? mp + r.in(0, 9) : 0, rp = r.pct(50) ? mp + r.in(0, 9) : 0, lh = r.pct(40) ? r.in(0, 5) : 0, rh = r.pct(40) ? r.in(0, 5) : 0;
            if (lp) v->set_left_min_pad_size(d, lp);
            if (rp) v->set_right_min_pad_size(d, rp);
            if (lh && lh == rh) v->set_halo_size(d, lh);
            else { if (lh) v->set_left_halo_size(d, lh); if (rh) v->set_right_halo_size(d, rh); }
            if (fixed && r.pct(30)) { sz[i] = r.in(1, 14); v->set_alloc_size(d, sz[i]); }
            if (v->get_left_pad_size(d) < std::max(lp, lh) || v->get_right_pad_size(d) < std::max(rp, rh)) bad("pads are smaller than requested");
            if (lh && v->get_left_halo_size(d) != lh) bad("left halo size was not set");
            if (rh && v->get_right_halo_size(d) != rh) bad("right halo size was not set");
            if (fixed) {
                if (v->get_rank_domain_size(d) != sz[i]) bad("domain size of a fixed-size var");
                if (v->get_alloc_size(d) < sz[i] + std::max(lp, lh) + std::max(rp, rh)) bad("allocation size is too small");
            }
        } else {
            if (!fixed || r.pct(30)) { sz[i] = r.in(1, 5); v->set_alloc_size(d, sz[i]); }
            H->observe_scalar(R, k, "allocation size of a user var", (double)v->get_alloc_size(d), (double)sz[i]);
            if (kd == 'm' && r.pct(60)) {
                long fm = r.in(-4, 4); v->set_first_misc_index(d, fm);
                H->observe_scalar(R, k, "first misc index", (double)v->get_first_misc_index(d), (double)fm);
                H->observe_scalar(R, k, "last misc index", (double)v->get_last_misc_index(d), (double)(fm + sz[i] - 1));
            }
            if (kd == 's') H->observe_scalar(R, k, "valid steps of a new var", (double)(v->get_last_valid_step_index() - v->get_first_valid_step_index() + 1), (double)sz[i]);
        }
    }
    LV z(dn.size(), 0); threw = false;
    try { v->get_element(iv(z)); } catch (yask_exception& e) { threw = true; }
    H->observe_scalar(R, k, "exception for reading a var without storage", threw, 1);
    bool al = false;
    if (mode && (fixed || A->prepared)) {
        if (mode == 2) {
            H->arm_alloc_fail(R, 1, 1);
            bool t2 = false; long seen = 0;
            try { v->alloc_storage(); } catch (yask_exception& e) { t2 = true; } catch (std::bad_alloc& e) { t2 = true; }
            long done = H->disarm_alloc_fail(R, &seen);
            if (done && !t2) bad("alloc_storage() reported success although an allocation had failed");
            if (t2 && v->is_storage_allocated()) bad("var claims storage after its allocation failed");
            H->note(R, k, "allocfail", done);
        }
        v->alloc_storage();
        if (!v->is_storage_allocated()) bad("no storage after alloc_storage()");
        al = true;
    }
    A->uv.push_back({v, op.i[1], false, fixed, al});
}

void ubox(yk_var_ptr v, LV& lo, LV& hi, SimVarInfo& f) {
    fill_info(v, f); lo.assign(f.nd, 0); hi.assign(f.nd, 0);
    for (int d = 0; d < f.nd; d++) {
        if (f.kind[d] == 's') { lo[d] = v->get_first_valid_step_index(); hi[d] = v->get_last_valid_step_index(); }
        else if (f.kind[d] == 'd') { lo[d] = f.first_local[d]; hi[d] = f.last_local[d]; }
        else { lo[d] = f.misc_first[d]; hi[d] = f.misc_last[d]; }
    }
}
void var_queries(yk_var_ptr v, const SimVarInfo& f, int k);
// op ucheck: [seed]: application-created vars keep what was written to them.
void do_ucheck(const SimOp& op, int k) {
    for (auto& u : A->uv) {
        SimVarInfo f; LV lo, hi; ubox(u.v, lo, hi, f);
        var_queries(u.v, f, k);
        auto bad = [&](const char* m) { H->violation(R, k, "user-var", (std::string(m) + " (user var " + u.v->get_name() + ")").c_str()); };
        if (u.alloced != u.v->is_storage_allocated()) bad(u.alloced ? "storage was lost" : "storage is still there");
        if (!u.alloced) continue;
        if (u.v->is_fixed_size() != u.fixed) bad("is_fixed_size() changed");
        for (int d = 0; d < f.nd; d++) if (f.kind[d] == 'd' && A->prepared) {
            if (u.fixed) H->observe_scalar(R, k, "first domain index of a fixed-size var", (double)f.first_rank[d], 0);
            else {
                H->observe_scalar(R, k, "first domain index of a user var", (double)f.first_rank[d], (double)A->soln->get_first_rank_domain_index(f.dim[d]));
                H->observe_scalar(R, k, "last domain index of a user var", (double)f.last_rank[d], (double)A->soln->get_last_rank_domain_index(f.dim[d]));
            }
        }
        if (vol(lo, hi) > 3000) { for (int d = 0; d < f.nd; d++) if (f.kind[d] == 'd') hi[d] = std::min(hi[d], lo[d] + 30); }
        size_t n = vol(lo, hi);
        auto val = [&](const LV& p, size_t) { unsigned long h = (unsigned long)u.seed; for (long x : p) h = (h ^ (unsigned long)(x + 99)) * 0x9E3779B97F4A7C15UL; return (double)((h >> 40) % 1000); };
        std::vector<double> b(n);
        if (!u.filled) {
            if (op.i[0] & 1) {
                u.v->set_all_elements_same(5.);
                H->observe_scalar(R, k, "element after set_all_elements_same()", u.v->get_element(iv(lo)), 5.);
                H->observe_scalar(R, k, "element after set_all_elements_same()", u.v->get_element(iv(hi)), 5.);
            }
            visit(lo, hi, [&](const LV& p, size_t i) { b[i] = val(p, i); });
            if (op.i[0] & 2) visit(lo, hi, [&](const LV& p, size_t i) { u.v->set_element(b[i], iv(p)); });
            else H->observe_scalar(R, k, "set_elements_in_slice count", (double)u.v->set_elements_in_slice(b.data(), n, iv(lo), iv(hi)), (double)n);
            u.filled = true;
        }
        u.v->get_elements_in_slice(b.data(), n, iv(lo), iv(hi));
        visit(lo, hi, [&](const LV& p, size_t i) { H->observe_scalar(R, k, "element of an application-created var", b[i], val(p, i)); });
        do_shadow(u.v, op.i[0] + 31, 6, k, true);
    }
}
// op ufuse: [base-var how]: the storage of a solution var becomes that of a var the application created.
void do_ufuse(const SimOp& op, int k) {
    auto& so = A->soln;
    auto v = so->get_var(op.var);
    auto dn = v->get_dim_names();
    SimVarInfo f; fill_info(v, f);
    auto u = so->new_var("uf" + std::to_string(A->nuv++), dn);
    for (int d = 0; d < f.nd; d++) {
        if (f.kind[d] == 'd') { u->set_left_halo_size(dn[d], f.left_halo[d]); u->set_right_halo_size(dn[d], f.right_halo[d]); }
        else { u->set_alloc_size(dn[d], f.alloc[d]); if (f.kind[d] == 'm') u->set_first_misc_index(dn[d], f.misc_first[d]); }
    }
    u->set_halo_exchange_l1_norm(f.l1norm);
    v->fuse_vars(u);
    if (v->is_storage_allocated() != u->is_storage_allocated()) H->violation(R, k, "fuse", "fused vars disagree about having storage");
    if (v->is_storage_allocated()) H->violation(R, k, "fuse", "the storage of a var was kept although it was fused with a var without storage");
}

// Hooks: each call is logged with its arguments.
void do_hooks(const SimOp& op, int) {
    auto& so = A->soln;
    for (long j = 0; j < op.i[0]; j++) {
        int id = A->nhooks++;
        int w = (int)(op.i[1] >> (2 * j)) & 3;
        App* a = A;
        if (w == 0) { A->hbp.push_back(id); so->call_before_prepare_solution([a, id](yk_solution&) { a->log.push_back("bp" + std::to_string(id)); }); }
        else if (w == 1) { A->hap.push_back(id); so->call_after_prepare_solution([a, id](yk_solution& s) { a->log.push_back("ap" + std::to_string(id)); (void)s.get_name(); }); }
        else if (w == 2) { A->hbr.push_back(id); so->call_before_run_solution([a, id](yk_solution&, idx_t f, idx_t l) { a->log.push_back("br" + std::to_string(id) + ":" + std::to_string(f) + "," + std::to_string(l)); }); }
        else { A->har.push_back(id); so->call_after_run_solution([a, id](yk_solution&, idx_t f, idx_t l) { a->log.push_back("ar" + std::to_string(id) + ":" + std::to_string(f) + "," + std::to_string(l)); }); }
    }
}
void want_hooks(const std::vector<int>& h, const char* pf, const std::string& sfx = "") { for (int id : h) A->want.push_back(pf + std::to_string(id) + sfx); }
void check_hooks(int k) {
    if (A->log != A->want) {
        std::string s; for (auto& x : A->log) s += x + " "; s += "; expected "; for (auto& x : A->want) s += x + " ";
        H->violation(R, k, "hooks", ("calls of hooks were " + s).c_str());
    }
    A->log.clear(); A->want.clear();
}

// Step indices outside of the window alias to kept steps while step-wrap is on.
void do_wrap(const SimOp& op, int k) {
    auto& so = A->soln;
    Lcg r(op.i[0] + R);
    H->observe_scalar(R, k, "step-wrap setting", so->get_step_wrap(), 0);
    so->set_step_wrap(true);
    H->observe_scalar(R, k, "step-wrap setting", so->get_step_wrap(), 1);
    for (auto v : vars()) {
        SimVarInfo f; fill_info(v, f); int sp = step_pos(f); if (sp < 0) continue;
        long w0 = v->get_first_valid_step_index(), w1 = v->get_last_valid_step_index(), ns = f.step_alloc;
        for (int j = 0; j < 8; j++) {
            LV lo, hi; box(f, false, r.in(w0, w1), lo, hi);
            LV p(lo); for (int d = 0; d < f.nd; d++) p[d] = r.in(lo[d], hi[d]);
            double x = v->get_element(iv(p));
            LV q(p); q[sp] += ns * r.in(-3, 3);
            H->observe_scalar(R, k, "element via step-wrap", v->get_element(iv(q)), x);
            v->set_element(x + 1, iv(q), true);
            H->observe_scalar(R, k, "element set via step-wrap", v->get_element(iv(p)), x + 1);
            v->add_to_element(-1, iv(q));
            H->observe_scalar(R, k, "element added to via step-wrap", v->get_element(iv(p)), x);
        }
        H->observe_scalar(R, k, "first valid step after access with step-wrap", (double)v->get_first_valid_step_index(), (double)w0);
    }
    so->set_step_wrap(false);
    H->observe_scalar(R, k, "step-wrap setting", so->get_step_wrap(), 0);
}

// Collective services of the environment.
void do_env(const SimOp& op, int k) {
    auto env = A->env; int n = env->get_num_ranks();
    if (env->get_rank_index() != R || n != S->nranks) H->violation(R, k, "env", "wrong rank index or number of ranks");
    Lcg r(op.i[0]);
    for (long j = 0; j < op.i[1]; j++) {
        int w = (int)r.in(0, 3);
        if (w == 0) env->global_barrier();
        else if (w == 1) {
            double want = 0; long mine = 0; long scale = r.pct(50) ? 1 : 100000000000L;
            for (int q = 0; q < n; q++) { long x = r.in(-1000, 1000) * scale; if (q == R) mine = x; want += (double)x; }
            H->observe_scalar(R, k, "sum_over_ranks", (double)env->sum_over_ranks(mine), want);
        } else {
            long b = r.in(-5, 5) + (r.pct(30) ? 0x500000000L : 0); int odd = w == 2 ? -1 : (int)r.in(0, n - 1); long delta = r.pct(50) ? 1 : 0x100000000L;
            bool threw = false;
            try { env->assert_equality_over_ranks(R == odd ? b + delta : b, "a value"); } catch (yask_exception& e) { threw = true; }
            H->observe_scalar(R, k, "exception of assert_equality_over_ranks", threw, odd >= 0 && n > 1);
        }
    }
}

// A second solution in the same environment that holds the same data.
void twin_copy(int) {
    for (auto v : vars()) {
        auto w = A->twin->get_var(vn(v));
        SimVarInfo f, g; fill_info(v, f); fill_info(w, g);
        int sp = step_pos(f);
        long w0 = 0, w1 = 0;
        if (sp >= 0) { w0 = v->get_first_valid_step_index(); w1 = v->get_last_valid_step_index(); }
        for (long s = w0; s <= w1; s++) {
            LV lo, hi; box(f, true, s, lo, hi);
            for (int d = 0; d < f.nd; d++) if (f.kind[d] == 'd') { lo[d] = std::max(lo[d], g.first_local[d]); hi[d] = std::min(hi[d], g.last_local[d]); }
            std::vector<double> b(vol(lo, hi));
            v->get_elements_in_slice(b.data(), b.size(), iv(lo), iv(hi));
            if (sp >= 0 && (s < w->get_first_valid_step_index() || s > w->get_last_valid_step_index())) w->set_element(0., iv(lo));
            w->set_elements_in_slice(b.data(), b.size(), iv(lo), iv(hi));
        }
    }
}
void twin_check(int k) {
    for (auto v : vars()) {
        auto w = A->twin->get_var(vn(v));
        SimVarInfo f; fill_info(v, f);
        int sp = step_pos(f);
        long w0 = 0, w1 = 0;
        if (sp >= 0) {
            w0 = v->get_first_valid_step_index(); w1 = v->get_last_valid_step_index();
            H->observe_scalar(R, k, "first valid step of the second solution", (double)w->get_first_valid_step_index(), (double)w0);
        }
        for (long s = w0; s <= w1; s++) {
            LV lo, hi; box(f, false, s, lo, hi);
            size_t n = vol(lo, hi);
            std::vector<double> b(n), c(n);
            v->get_elements_in_slice(b.data(), n, iv(lo), iv(hi));
            w->get_elements_in_slice(c.data(), n, iv(lo), iv(hi));
            for (size_t j = 0; j < n; j++) H->observe_scalar(R, k, ("value of " + vn(v) + " in the second solution").c_str(), c[j], b[j]);
        }
    }
}
// op twin: [how seed] with options
void do_twin(const SimOp& op, int k) {
    long how = op.i[0];
    if (how == 0) {
        if (A->twin) return;
        auto snap = [](yk_solution_ptr so) {
            std::vector<long> x{ (long)so->get_vars().size(), (long)so->get_misc_dim_names().size(), so->get_step_wrap(), so->get_default_numa_preferred(), so->get_block_size(A->step) };
            for (auto& d : A->dd) for (long y : { so->get_block_size(d), so->get_num_ranks(d), so->get_rank_index(d), so->get_min_pad_size(d), so->get_overall_domain_size(d), so->get_rank_domain_size(d), so->get_first_rank_domain_index(d) }) x.push_back(y);
            for (auto& n : A->names) { auto v = so->get_var(n); SimVarInfo f; fill_info(v, f); for (int d = 0; d < f.nd; d++) { x.push_back(f.alloc[d]); x.push_back(f.first_rank[d]); } }
            return x;
        };
        auto before = snap(A->soln);
        A->twin = A->fac.new_solution(A->env, A->soln); A->n2 = 0;
        std::string left = A->twin->apply_command_line_options(op.str);
        if (left.find_first_not_of(" \t") != std::string::npos) H->harness_error(("options not used: " + left).c_str());
        for (auto v : vars()) if (v->is_dynamic_step_alloc()) A->twin->get_var(vn(v))->set_alloc_size(A->step, v->get_alloc_size(A->step));
        A->twin->set_min_pad_size(A->dd[0], A->twin->get_min_pad_size(A->dd[0]) + 1);
        #if ALLOW_NEW_VARS
        A->twin->new_fixed_size_var("twq", {"tq"}, {3});
        #endif
        A->twin->prepare_solution();
        if (snap(A->soln) != before) H->violation(R, k, "settings", "settings of a solution changed when another one was created from it");
        twin_copy(k);
    }
    else if (!A->twin) return;
    else if (how == 1) twin_copy(k);
    else if (how == 2) twin_check(k);
    else if (how == 3) { A->twin->end_solution(); A->twin = nullptr; }
    else if (how == 4) for (auto& n : A->names) A->twin->get_var(n)->set_all_elements_same((double)op.i[1]);
    else if (how == 5) A->twin->exchange_halos();
    else if (how == 6) { H->observe_scalar(R, k, "steps done by the second solution", (double)A->twin->get_stats()->get_num_steps_done(), (double)A->n2); A->n2 = 0; }
    else if (how == 7) { H->observe_scalar(R, k, "steps done by the first solution", (double)A->soln->get_stats()->get_num_steps_done(), (double)A->n1); A->n1 = 0; }
    else if (how == 8) { A->twin->clear_stats(); A->n2 = 0; }
}

// All ways of asking for the same thing give the same answer.
void var_queries(yk_var_ptr v, const SimVarInfo& f, int k) {
    auto bad = [&](const std::string& m) { H->violation(R, k, "geometry", (m + " (var " + v->get_name() + ")").c_str()); };
    idx_t_vec al, fl, ll, lp, rp, lh, rh, le, re, ds, fd, ld, fh, lha; long vol = 1;
    for (int i = 0; i < f.nd; i++) {
        const std::string d = f.dim[i];
        if (!v->is_dim_used(d)) bad("is_dim_used() denies a dimension");
        al.push_back(v->get_alloc_size(d)); fl.push_back(v->get_first_local_index(d)); ll.push_back(v->get_last_local_index(d));
        vol *= al.back();
        if (ll.back() - fl.back() + 1 != al.back()) bad("local indices do not match the allocation size");
        if (f.kind[i] != 'd') continue;
        lp.push_back(v->get_left_pad_size(d)); rp.push_back(v->get_right_pad_size(d)); lh.push_back(v->get_left_halo_size(d)); rh.push_back(v->get_right_halo_size(d));
        le.push_back(v->get_left_extra_pad_size(d)); re.push_back(v->get_right_extra_pad_size(d)); ds.push_back(v->get_rank_domain_size(d));
        fd.push_back(v->get_first_rank_domain_index(d)); ld.push_back(v->get_last_rank_domain_index(d));
        fh.push_back(v->get_first_rank_halo_index(d)); lha.push_back(v->get_last_rank_halo_index(d));
        if (al.back() != lp.back() + ds.back() + rp.back()) bad("allocation size is not domain plus pads");
        if (le.back() != lp.back() - lh.back() || re.back() != rp.back() - rh.back() || le.back() < 0 || re.back() < 0) bad("extra pads are not pads minus halos");
        if (fh.back() != fd.back() - lh.back() || lha.back() != ld.back() + rh.back()) bad("halo indices do not match the halos");
        if (fl.back() != fd.back() - lp.back() || ld.back() - fd.back() + 1 != ds.back()) bad("local indices do not match the pads");
    }
    if (v->get_alloc_size_vec() != al || v->get_first_local_index_vec() != fl || v->get_last_local_index_vec() != ll ||
        v->get_rank_domain_size_vec() != ds || v->get_first_rank_domain_index_vec() != fd || v->get_last_rank_domain_index_vec() != ld ||
        v->get_first_rank_halo_index_vec() != fh || v->get_last_rank_halo_index_vec() != lha) bad("a _vec() query does not agree with the query of one dimension");
    if (v->is_storage_allocated() && v->get_num_storage_elements() < vol) bad("less storage than elements");
    if (v->get_num_storage_bytes() != v->get_num_storage_elements() * A->soln->get_element_bytes()) bad("storage bytes and elements do not match");
    if (!v->is_storage_layout_identical(v)) bad("storage layout is not identical to itself");
}

void report(int k) {
    auto so = A->soln;
    long f[MAXD], l[MAXD], o[MAXD], ri[MAXD], nr[MAXD];
    int i = 0;
    for (auto& d : A->dd) {
        f[i] = so->get_first_rank_domain_index(d); l[i] = so->get_last_rank_domain_index(d);
        o[i] = so->get_overall_domain_size(d); ri[i] = so->get_rank_index(d); nr[i] = so->get_num_ranks(d);
        if (so->get_rank_domain_size(d) != l[i] - f[i] + 1) H->violation(R, k, "geometry", "rank-domain size does not match its first and last indices");
        i++;
    }
    auto same = [&](const char* what, const idx_t_vec& v, const long* w) {
        bool ok = v.size() == (size_t)i; for (int j = 0; ok && j < i; j++) ok = v[(size_t)j] == w[j];
        if (!ok) H->violation(R, k, "geometry", (std::string(what) + "_vec() does not agree with " + what + "()").c_str());
    };
    same("get_first_rank_domain_index", so->get_first_rank_domain_index_vec(), f); same("get_last_rank_domain_index", so->get_last_rank_domain_index_vec(), l);
    same("get_overall_domain_size", so->get_overall_domain_size_vec(), o); same("get_rank_index", so->get_rank_index_vec(), ri); same("get_num_ranks", so->get_num_ranks_vec(), nr);
    long rs[MAXD], bs[MAXD]; for (int j = 0; j < i; j++) { rs[j] = so->get_rank_domain_size(A->dd[(size_t)j]); bs[j] = so->get_block_size(A->dd[(size_t)j]); }
    same("get_rank_domain_size", so->get_rank_domain_size_vec(), rs); same("get_block_size", so->get_block_size_vec(), bs);
    H->report_geom(R, k, i, f, l, o, ri, nr);
    for (auto v : vars()) { SimVarInfo s; fill_info(v, s); H->report_var(R, k, &s); var_queries(v, s, k); }
    H->report_var(R, k, nullptr);
}

void prep_done(int k) {
    H->agree(R, k, 1);
    A->prepared = true; A->n1 = 0;
    for (auto& u : A->uv) u.alloced = true;
    report(k);
}

#ifdef VP_DRIVER
}
std::string drv_refcmp(yk_factory& fac, yk_env_ptr env, yk_solution_ptr so, idx_t a, idx_t b, double seed, unsigned long rnd, int where);
namespace {
#endif
void do_op(const SimOp& op, int k);
void run_ops(int& a, int b) { int from = a; a = -1; for (int j = from; j < b; j++) { H->begin_op(R, j); do_op(S->ops[j], j); H->end_op(R, j); } }
void before_hook() {
    if (A->target < 0) return;
    if (A->before0 < 0) { H->violation(R, A->target, "hooks", "a hook was called twice"); return; }
    run_ops(A->before0, A->before1);
    H->begin_op(R, A->target);
}
void after_hook(bool prep) {
    if (A->target < 0 || A->after0 == A->after1) return;
    if (A->after0 < 0) { H->violation(R, A->target, "hooks", "a hook was called twice"); return; }
    if (A->before0 >= 0) H->violation(R, A->target, "hooks", "the hook before the work was not called before the one after it");
    if (prep) { H->report_prep(R, A->target, 1, ""); prep_done(A->target); }
    run_ops(A->after0, A->after1);
}

// Some ops are executed in hooks: returns the first op after them and their target.
int deferred(int k) {
    static const std::set<std::string> bp = { "opt", "gsize", "rsize", "nranks", "rindex", "minpad", "blk", "uvar", "stepalloc" },
        br = { "xchg", "set", "setslice", "setall", "check", "ucheck", "shadow" }, ap = { "init", "set", "setslice", "setall", "check", "ucheck", "shadow" };
    auto is = [&](int j, const char* kd) { return j < S->nops && !strcmp(S->ops[j].kind, kd); };
    auto tgt = [&](int j) { return is(j, "prep") || is(j, "run"); };
    int p = k;
    A->before0 = A->before1 = A->after0 = A->after1 = 0;
    if (is(p, "defer") && S->ops[p].i[0] == 0) {
        int j = p + 1;
        while (j < S->nops && (bp.count(S->ops[j].kind) || br.count(S->ops[j].kind))) j++;
        A->before0 = p + 1; A->before1 = j; p = j;
    }
    bool want = is(p, "defer") && S->ops[p].i[0] == 1;
    if (want) p++;
    if (!tgt(p)) return -1;
    auto& w = is(p, "prep") ? bp : br;
    for (int j = A->before0; j < A->before1; j++) if (!w.count(S->ops[j].kind)) return -1;
    int e = p + 1;
    if (want) { while (e < S->nops && ap.count(S->ops[e].kind)) e++; A->after0 = p + 1; A->after1 = e; }
    A->target = p;
    return e;
}

void new_soln() {
    A->soln = A->fac.new_solution(A->env);
    A->step = A->soln->get_step_dim_name();
    A->dd = A->soln->get_domain_dim_names();
    A->names.clear(); A->lname.clear();
    bool df = false;
    for (int j = 0; j < S->nops; j++) df |= !strcmp(S->ops[j].kind, "defer");
    if (df) {
        A->soln->call_before_prepare_solution([](yk_solution&) { before_hook(); });
        A->soln->call_after_prepare_solution([](yk_solution&) { after_hook(true); });
        A->soln->call_before_run_solution([](yk_solution&, idx_t, idx_t) { before_hook(); });
        A->soln->call_after_run_solution([](yk_solution&, idx_t, idx_t) { after_hook(false); });
    }
    for (auto v : A->soln->get_vars()) if (H->known_var(v->get_name().c_str())) A->names.push_back(v->get_name());
}

struct StopProgram {};

void do_op(const SimOp& op, int k) {
    std::string kd = op.kind;
    auto& so = A->soln;
    if (kd == "opt") {
        if (op.i[0] < 0 || op.i[0] == R) {
            std::string left = so->apply_command_line_options(op.str);
            if (left.find_first_not_of(" \t") != std::string::npos) H->harness_error(("options not used: " + left).c_str());
        }
    }
    else if (kd == "gsize" || kd == "rsize" || kd == "nranks" || kd == "rindex" || kd == "blk" || kd == "minpad") {
        // i[0] = rank or -1, then one value per domain dim (-1: leave unset)
        if (op.i[0] >= 0 && op.i[0] != R) return;
        idx_t_vec all; idx_t sum = 0;
        for (size_t d = 0; d < A->dd.size(); d++) { all.push_back(op.i[1 + d]); sum += all.back(); if (all.back() < 0) sum = -1000000; }
        if (sum > 0 && sum % 3 == 0 && kd != "minpad") {
            if (kd == "gsize") so->set_overall_domain_size_vec(all);
            else if (kd == "rsize") so->set_rank_domain_size_vec(all);
            else if (kd == "nranks") so->set_num_ranks_vec(all);
            else if (kd == "rindex") so->set_rank_index_vec(all);
            else so->set_block_size_vec(all);
            return;
        }
        for (size_t d = 0; d < A->dd.size(); d++) {
            long x = op.i[1 + d];
            if (x < 0) continue;
            if (kd == "gsize") so->set_overall_domain_size(A->dd[d], x);
            else if (kd == "rsize") so->set_rank_domain_size(A->dd[d], x);
            else if (kd == "nranks") so->set_num_ranks(A->dd[d], x);
            else if (kd == "rindex") so->set_rank_index(A->dd[d], x);
            else if (kd == "minpad") so->set_min_pad_size(A->dd[d], x);
            else so->set_block_size(A->dd[d], x);
        }
    }
    else if (kd == "prep") {
        bool ok = true; std::string m;
        want_hooks(A->hbp, "bp"); want_hooks(A->hap, "ap");
        try { so->prepare_solution(); }
        catch (yask_exception& e) { ok = false; m = e.get_message(); }
        if (k == A->target && ok && A->after0 < 0) { check_hooks(k); return; }    // reported by the hook
        // A failure on any rank ends the whole program, as in YASK's own driver.
        H->report_prep(R, k, ok, m.c_str());
        check_hooks(k);
        prep_done(k);
    }
    else if (kd == "failprep") {
        // prepare with the i[0]-th allocation of at least i[1] bytes failing; then retry.
        long done = 0;
        bool threw = false;
        H->arm_alloc_fail(R, op.i[0], op.i[1]);
        try { so->prepare_solution(); }
        catch (yask_exception& e) { threw = true; }
        catch (std::bad_alloc& e) { threw = true; }
        long seen = 0;
        done = H->disarm_alloc_fail(R, &seen);
        if (done && !threw) H->violation(R, k, "alloc-failure-ignored", "prepare_solution() reported success although an allocation had failed");
        if (!done && threw) H->violation(R, k, "exception", "prepare_solution() failed without an allocation failure");
        H->note(R, k, "allocfail", done);
        if (!threw) { A->prepared = true; }
        else {
            // Documented use: an exception is raised; the caller may try again.
            if (op.i[2]) { so = nullptr; new_soln(); throw StopProgram(); }
        }
    }
    else if (kd == "failprep1") {
        // An allocation fails on one of several ranks: it must report that.  (The others may
        // wait for it, as their program would be told to end.)
        if (R == op.i[0]) H->arm_alloc_fail(R, op.i[1], op.i[2]);
        bool threw = false; std::string m;
        try { so->prepare_solution(); }
        catch (yask_exception& e) { threw = true; m = e.get_message(); }
        catch (std::bad_alloc& e) { threw = true; m = "bad_alloc"; }
        long seen = 0, done = R == op.i[0] ? H->disarm_alloc_fail(R, &seen) : 0;
        if (done && !threw) H->violation(R, k, "alloc-failure-ignored", "prepare_solution() reported success although an allocation had failed");
        H->note(R, k, "allocfail", done);
        H->report_prep(R, k, !threw, m.c_str());
        H->agree(R, k, 1);
        A->prepared = true;
        report(k);
    }
    else if (kd == "init") do_init(op, k);
    else if (kd == "check") do_check(op, k);
    else if (kd == "run") {
        std::string fl = ":" + std::to_string(op.i[0]) + "," + std::to_string(op.i[1]);
        want_hooks(A->hbr, "br", fl); want_hooks(A->har, "ar", fl);
        long ns = std::labs(op.i[1] - op.i[0]) + 1; A->n1 += ns; A->n2 += ns;
        bool first = A->twin && (op.i[0] + op.i[1]) & 1;
        if (first) A->twin->run_solution(op.i[0], op.i[1]);
        if (op.i[0] == op.i[1] && op.i[2]) so->run_solution(op.i[0]);
        else so->run_solution(op.i[0], op.i[1]);
        if (A->twin && !first) A->twin->run_solution(op.i[0], op.i[1]);
        check_hooks(k);
    }
    else if (kd == "shadow") do_shadow(var(op), op.i[0], op.i[1], k, true);
    else if (kd == "uvar") do_uvar(op, k);
    else if (kd == "ucheck") do_ucheck(op, k);
    else if (kd == "ufuse") do_ufuse(op, k);
    else if (kd == "urel") {
        for (auto& u : A->uv) if (u.alloced) { u.v->release_storage(); u.alloced = u.filled = false; if (u.v->is_storage_allocated()) H->violation(R, k, "user-var", "storage is still there after release_storage()"); }
        if (op.i[0]) for (auto& u : A->uv) { u.v->alloc_storage(); u.alloced = true; }
    }
#ifdef VP_DRIVER
    else if (kd == "refcmp") {
        auto m = drv_refcmp(A->fac, A->env, so, op.i[0], op.i[1], (double)op.i[2] * 0.01, (unsigned long)op.i[3] + (unsigned long)R * 7919, (int)op.i[4]);
        if (!m.empty()) H->violation(R, k, "validation", m.c_str());
    }
#endif
    else if (kd == "defer") {}
    else if (kd == "hooks") do_hooks(op, k);
    else if (kd == "wrapchk") do_wrap(op, k);
    else if (kd == "env") do_env(op, k);
    else if (kd == "twin") do_twin(op, k);
    else if (kd == "tunechk") H->observe_scalar(R, k, "auto-tuner is enabled", so->is_auto_tuner_enabled(), op.i[0]);
    else if (kd == "early") {
        // Not prepared yet: an exception, and no harm done.
        bool threw = false;
        try { so->run_solution(op.i[0]); } catch (yask_exception& e) { threw = true; }
        H->observe_scalar(R, k, "exception for running an unprepared solution", threw, 1);
        A->log.clear();
    }
    else if (kd == "vfail") {
        // A var's own allocation fails once.
        auto v = var(op);
        v->release_storage();
        H->arm_alloc_fail(R, 1, 1);
        bool threw = false; long seen = 0;
        try { v->alloc_storage(); } catch (yask_exception& e) { threw = true; } catch (std::bad_alloc& e) { threw = true; }
        long done = H->disarm_alloc_fail(R, &seen);
        if (done && !threw) H->violation(R, k, "alloc-failure-ignored", "alloc_storage() reported success although an allocation had failed");
        if (done && v->is_storage_allocated()) H->violation(R, k, "alloc-failure-ignored", "var claims storage after its allocation failed");
        H->note(R, k, "allocfail", done);
        if (op.i[0]) { v->alloc_storage(); if (!v->is_storage_allocated()) H->violation(R, k, "storage", "storage not allocated after alloc"); }
    }
    else if (kd == "set") do_set(op, k);
    else if (kd == "setslice") do_setslice(op, k);
    else if (kd == "stepalloc") var(op)->set_alloc_size("t", op.i[0]);
    else if (kd == "setall") var(op)->set_all_elements_same((double)op.i[0]);
    else if (kd == "reduce") do_reduce(op, k);
    else if (kd == "par") do_par(op, k);
    else if (kd == "xchg") so->exchange_halos();
    else if (kd == "tune") so->reset_auto_tuner(op.i[0] != 0);
    else if (kd == "tunenow") so->run_auto_tuner_now(false);
    else if (kd == "stats") {
        // [expected steps, expected elements-per-step, writes per step (or -1)]
        auto st = so->get_stats(); A->n1 = 0;
        H->observe_scalar(R, k, "stats: steps done", (double)st->get_num_steps_done(), (double)op.i[0]);
        double ne = 1; for (auto& d : A->dd) ne *= (double)so->get_overall_domain_size(d);
        H->observe_scalar(R, k, "stats: elements", (double)st->get_num_elements(), ne);
        if (op.i[1] >= 0) {   // with wave-fronts across ranks, areas between ranks are legally written more than once
            double w = (double)st->get_num_writes_done(), ew = ne * op.i[1] * op.i[0];
            if (op.i[2] & 1) H->observe_scalar(R, k, "stats: at least the needed writes", w >= ew, 1);
            else H->observe_scalar(R, k, "stats: writes", w, ew);
        }
        double el = st->get_elapsed_secs();
        if (!(el >= 0) && !(op.i[2] & 4)) H->violation(R, k, "stats", "negative elapsed time");
        if (op.i[0] > 0 && el <= 0 && (op.i[2] & 2)) H->violation(R, k, "stats", "no elapsed time although the clock advanced");
    }
    else if (kd == "clearstats") { so->clear_stats(); A->n1 = 0; }
    else if (kd == "badget") {
        // Reading an invalid step must raise an exception.
        auto v = var(op);
        SimVarInfo f; fill_info(v, f);
        LV lo, hi; box(f, false, op.i[0], lo, hi);
        bool threw = false;
        try { v->get_element(iv(lo)); } catch (yask_exception& e) { threw = true; }
        H->observe_scalar(R, k, "exception for a step outside of the valid window", threw, 1);
    }
    else if (kd == "badset") {
        // Strict access outside of the local allocation must raise an exception
        // and leave everything unchanged.
        auto v = var(op);
        SimVarInfo f; fill_info(v, f);
        LV lo, hi; box(f, false, op.i[0], lo, hi);
        for (int d = 0; d < f.nd; d++) if (f.kind[d] == 'd') lo[d] = op.i[1] ? f.last_local[d] + 1 + op.i[2] : f.first_local[d] - 1 - op.i[2];
        bool threw = false;
        try { v->set_element(99.0, iv(lo)); } catch (yask_exception& e) { threw = true; }
        H->observe_scalar(R, k, "exception for an index outside of the allocation", threw, 1);
        threw = false;
        try { double b = 1; v->set_elements_in_slice(&b, 1, iv(lo), iv(lo)); } catch (yask_exception& e) { threw = true; }
        H->observe_scalar(R, k, "exception for a slice outside of the allocation", threw, 1);
        H->observe_scalar(R, k, "are_indices_local outside of the allocation", v->are_indices_local(iv(lo)), 0);
    }
    else if (kd == "wrap") so->set_step_wrap(op.i[0] != 0);
    else if (kd == "fuse") {
        // New solution with the same settings whose vars become references to those of the old one.
        // i[0]: 0 fuse all vars at once, 1 one by one; i[1]: also try an incompatible source first.
        A->uv.clear(); A->hbp.clear(); A->hap.clear(); A->hbr.clear(); A->har.clear();
        auto old = so;
        auto ns = A->fac.new_solution(A->env, old);
        if (op.i[1]) for (auto v : vars()) for (auto w : vars()) {
            if (v->get_dim_names() == w->get_dim_names()) continue;
            bool threw = false;
            auto mine = ns->get_var(vn(v));
            try { mine->fuse_vars(w); } catch (yask_exception& e) { threw = true; }
            H->observe_scalar(R, k, "exception for fusing with an incompatible var", threw, 1);
        }
        if (op.i[0] == 0) ns->fuse_vars(old);
        else for (auto v : vars()) ns->get_var(vn(v))->fuse_vars(v);
        if (op.i[2]) A->old.push_back(old);
        ns->prepare_solution();
        so = ns;
        A->step = so->get_step_dim_name();
        report(k);
        for (auto v : vars()) {
            auto ov = old->get_var(vn(v));
            if (!v->is_storage_allocated() || ov->get_raw_storage_buffer() != v->get_raw_storage_buffer())
                H->violation(R, k, "fuse", ("fused var does not share its storage: " + v->get_name()).c_str());
        }
    }
    else if (kd == "end") {
        so->end_solution();
        for (auto v : vars()) if (v->is_storage_allocated()) H->violation(R, k, "storage", ("storage still allocated after end_solution(): " + v->get_name()).c_str());
        for (auto& u : A->uv) u.alloced = u.filled = false;
    }
    else if (kd == "realloc") {
        for (auto v : vars()) { v->release_storage(); if (v->is_storage_allocated()) H->violation(R, k, "storage", "storage still allocated after release"); }
        for (auto v : vars()) { v->alloc_storage(); if (!v->is_storage_allocated()) H->violation(R, k, "storage", "storage not allocated after alloc"); }
    }
    else if (kd == "barrier") A->env->global_barrier();
    else if (kd == "newsoln") { if (so) so->end_solution(); so = nullptr; new_soln(); }
    else H->harness_error(("unknown op " + kd).c_str());
}
}

#ifdef VP_DRIVER
int drv_main(int argc, char** argv);
void drv_alter_next(unsigned long rnd, void (*f)(int));
static void run_driver(const SimOp& op) {
    std::vector<std::string> a{ "yask_kernel.exe" };
    std::istringstream is(op.str); std::string x; while (is >> x) a.push_back(x);
    std::vector<char*> v; for (auto& s : a) v.push_back(&s[0]);
    v.push_back(nullptr);
    H->begin_op(R, 0);
    if (R == op.i[4] && op.i[2]) H->arm_alloc_fail(R, op.i[2], op.i[3]);
    if (op.i[5] >> R & 1) drv_alter_next((unsigned long)op.i[6] + (unsigned long)R * 7919, [](int n) { H->altered(R, n); });
    int rc = drv_main((int)a.size(), v.data());
    long seen = 0, failed = R == op.i[4] && op.i[2] ? H->disarm_alloc_fail(R, &seen) : 0;
    if (failed && !rc) H->violation(R, 0, "program", "the program succeeded although an allocation had failed");
    H->program_end(R, rc);
    H->end_op(R, 0);
}
#endif

extern "C" void agent_main(const SimHost* h, const SimScenario* s, int rank) {
    H = h; S = s; R = rank;
    int k = 0;
    try {
#ifdef VP_DRIVER
        if (s->nops && !strcmp(s->ops[0].kind, "driver")) { run_driver(s->ops[0]); return; }
#endif
        if (!getenv("SIM_TRACE")) yk_env::disable_debug_output();
        else yk_env::set_trace_enabled(true);
        A = new App;
        A->env = A->fac.new_env();
        new_soln();
        for (k = 0; k < s->nops; k++) {
            int e = !strcmp(s->ops[k].kind, "defer") ? deferred(k) : -1;
            if (e > 0) {
                h->begin_op(rank, k); h->end_op(rank, k);
                k = A->target;
                if (k >= A->before1 && A->before0 == A->before1) A->before0 = A->before1 = k;
                do_op(s->ops[k], k);
                if (A->before0 >= 0 || (A->after0 >= 0 && A->after0 < A->after1)) h->violation(rank, k, "hooks", "a hook was not called");
                h->end_op(rank, k);
                A->target = -1;
                k = e - 1;
                continue;
            }
            h->begin_op(rank, k);
            try { do_op(s->ops[k], k); }
            catch (StopProgram&) { h->end_op(rank, k); break; }
            h->end_op(rank, k);
        }
        if (A->soln && A->prepared) A->soln->end_solution();
        if (A->twin) { A->twin->end_solution(); A->twin = nullptr; }
        A->uv.clear();
        A->soln = nullptr;
        A->old.clear();
        auto env = A->env;
        delete A;
        env->finalize();
        env = nullptr;
    }
    catch (yask_exception& e) { h->violation(rank, k, "exception", (std::string("unexpected exception: ") + e.get_message()).c_str()); }
    catch (std::exception& e) { h->violation(rank, k, "exception", (std::string("unexpected exception: ") + e.what()).c_str()); }
}
