// Reference model: global arrays of 64-bit integers, executed sequentially,
// interpreting the stencil specification (stencils/*.st or a generated one) and
// following the API documentation only.
#pragma once
#include <cstdint>
#include <string>
#include <vector>
#include <map>
#include <set>
#include <climits>
#include <cstring>
#include <cmath>
#include <fstream>
#include <sstream>
#include <algorithm>

typedef long long i64;
static const i64 UNDEF = LLONG_MIN;

struct ModelError { std::string msg; };

static inline uint64_t mix64(uint64_t z) {
    z += 0x9e3779b97f4a7c15ULL;
    z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ULL;
    z = (z ^ (z >> 27)) * 0x94d049bb133111ebULL;
    return z ^ (z >> 31);
}

// Initial values: small integers that depend on every index.
static inline i64 model_val(long seed, const char* var, const long* idx, int nd) {
    uint64_t h = mix64(seed * 7919 + 13);
    for (const char* c = var; *c; c++) h = mix64(h ^ (uint64_t)*c);
    for (int i = 0; i < nd; i++) h = mix64(h ^ (uint64_t)(idx[i] + 1000003L * (i + 1)));
    return (i64)(h % 9) - 4;
}

struct MVar {
    std::string name;
    std::vector<std::string> dim;
    std::string kind;                 // one char per dim: s d m
    std::vector<long> lh, rh;         // halos the equations need (domain dims).
    std::vector<long> m0, m1;         // misc ranges used.
    bool output = false;
    long want_slots = 0;              // number of steps to keep if overridden.
    bool dyn = false;                 // may be changed at run time.
    long back = 0;                    // oldest step the equations read, relative to the current one.
    // after geometry is known:
    std::vector<long> lo, hi;
    std::vector<size_t> stride;
    long nslots = 1;
    bool has_step = false;
    long first_valid = 0;
    std::vector<i64> data;
    std::vector<long> gsz;

    size_t pos(const long* idx) const {
        size_t p = 0;
        for (size_t d = 0; d < dim.size(); d++) {
            long v = idx[d];
            if (kind[d] == 's') { v = v % nslots; if (v < 0) v += nslots; }
            if (v < lo[d] || v > hi[d]) return (size_t)-1;
            p += (v - lo[d]) * stride[d];
        }
        return p;
    }
    i64 get(const long* idx) const {
        size_t p = pos(idx);
        return p == (size_t)-1 ? UNDEF : data[p];
    }
    void set(const long* idx, i64 v) {
        size_t p = pos(idx);
        if (p != (size_t)-1) data[p] = v;
    }
    // Documented effect of writing at step t.
    void touch_step(long t) {
        if (!has_step) return;
        if (t < first_valid) first_valid = t;
        else if (t > first_valid + nslots - 1) first_valid = t - nslots + 1;
    }
    bool step_valid(long t) const {
        return !has_step || (t >= first_valid && t < first_valid + nslots);
    }
    void alloc(const std::map<std::string,long>& g, long slots) {
        size_t n = dim.size();
        lo.assign(n, 0); hi.assign(n, 0); stride.assign(n, 0); gsz.assign(n, 0);
        has_step = false; nslots = 1; first_valid = 0;
        for (size_t d = 0; d < n; d++) {
            if (kind[d] == 's') { has_step = true; nslots = slots; lo[d] = 0; hi[d] = slots - 1; }
            else if (kind[d] == 'd') { gsz[d] = g.at(dim[d]); lo[d] = -lh[d]; hi[d] = gsz[d] - 1 + rh[d]; }
            else { lo[d] = m0[d]; hi[d] = m1[d]; }
        }
        size_t s = 1;
        for (int d = (int)n - 1; d >= 0; d--) { stride[d] = s; s *= (hi[d] - lo[d] + 1); }
        data.assign(s, UNDEF);
    }
};

// One access: per dim of the var an offset from the current point (s, d) or a constant (m).
struct MAcc { int v = -1; bool scratch = false; std::vector<int> dd; std::vector<long> off; };
struct MFac { char op = 0; std::vector<MAcc> a; };    // op: 0 plain, 'M' max, 'm' min, 'a' abs
struct MTerm { long c = 1; std::vector<MFac> f; };
struct MCond { int dd; std::string op; bool last; long off; int dd2 = -1; long mod = 0; int alt = 0; };
struct MEq {
    MAcc lhs; std::vector<MTerm> terms;
    bool hasc = false, cneg = false; std::vector<MCond> cs;
    bool hass = false, sneg = false; long mod = 1, rem = 0;
    bool hasv = false, vneg = false; MAcc va; char vop = 0; long vk = 0;      // value of a misc-only var
};
struct MScr { std::string name; std::vector<std::string> dim; std::string kind; std::vector<long> el, er; bool used = false; };

struct ModelStencil {
    std::string name;
    std::vector<std::string> ddims;
    int dir = 1;                 // step direction.
    std::vector<MVar> vars;
    std::vector<MScr> scr;
    std::vector<MEq> eqs;
    int stages = 1;
    bool tiled = false;
    std::vector<long> max_halo;  // per domain dim, incl. effect of scratch vars.
    std::vector<long> safe_halo; // upper bound of what the compiler may derive when it groups scratch vars.
    long growth_bits = 4;
    long first_t = 0;            // first step from which the initial window suffices.
    long wps = -1;               // elements written per point and step; -1: not defined by the documentation.
};

struct Model {
    ModelStencil st;
    std::map<std::string,long> gsize;
    std::map<std::string,int> vidx;
    bool ready = false;
    i64 maxabs = 0;

    MVar& v(const std::string& n) {
        auto it = vidx.find(n);
        if (it == vidx.end()) throw ModelError{"no model var " + n};
        return st.vars[it->second];
    }
    bool has(const std::string& n) const { return vidx.count(n) > 0; }

    std::vector<std::vector<i64>> old;    // contents before the step, of the vars written in it
    i64 read(const MAcc& a, long t, const long* p) {
        if (a.scratch) {
            long q[8]; long mc[8] = { 0 };
            for (size_t k = 0; k < st.ddims.size(); k++) q[k] = p[k];
            for (size_t k = 0; k < a.dd.size(); k++) if (a.dd[k] >= 0) q[a.dd[k]] = p[a.dd[k]] + a.off[k]; else mc[k] = a.off[k];
            return scratch(a.v, t, q, mc);
        }
        MVar& m = st.vars[a.v];
        long ix[8]; bool isnew = false;
        for (size_t k = 0; k < a.dd.size(); k++) {
            if (m.kind[k] == 's') { ix[k] = t + a.off[k]; if (m.output && a.off[k] == st.dir) isnew = true; }
            else if (m.kind[k] == 'd') ix[k] = p[a.dd[k]] + a.off[k];
            else ix[k] = a.off[k];
        }
        size_t pos = m.pos(ix);
        i64 x = pos == (size_t)-1 ? UNDEF : !isnew && m.output ? old[a.v][pos] : m.data[pos];
        if (x == UNDEF) {
            std::string s = "undefined read of " + m.name + "(";
            for (size_t k = 0; k < a.dd.size(); k++) s += std::to_string(ix[k]) + " ";
            throw ModelError{s + ")"};
        }
        return x;
    }
    bool step_applies(const MEq& e, long t) {
        if (e.hass && ((t % e.mod == e.rem) == e.sneg)) return false;
        if (e.hasv) { long p[8] = { 0 }; i64 x = read(e.va, t, p); if ((e.vop == '>' ? x > e.vk : x < e.vk) == e.vneg) return false; }
        return true;
    }
    bool applies(const MEq& e, long t, const long* p) {
        if (e.hasc) {
            bool ok = true, any = false; int alt = 0;
            for (auto& c : e.cs) {
                if (c.alt != alt) { any = any || ok; ok = true; alt = c.alt; }
                long ref = (c.last ? gsize[st.ddims[c.dd]] - 1 : 0) + c.off, x = p[c.dd];
                if (c.dd2 >= 0) x += p[c.dd2];
                if (c.mod) x %= c.mod;
                bool b = c.op == ">=" ? x >= ref : c.op == "<=" ? x <= ref : c.op == ">" ? x > ref : c.op == "<" ? x < ref : c.op == "==" ? x == ref : x != ref;
                ok = ok && b;
            }
            if ((ok || any) == e.cneg) return false;
        }
        return step_applies(e, t);
    }
    i64 eval(const MEq& e, long t, const long* p) {
        i64 sum = 0;
        for (auto& tm : e.terms) {
            i64 x = tm.c;
            for (auto& f : tm.f) {
                i64 y = read(f.a[0], t, p);
                if (f.op == 'M') y = std::max(y, read(f.a[1], t, p));
                else if (f.op == 'm') y = std::min(y, read(f.a[1], t, p));
                else if (f.op == 'a') y = y < 0 ? -y : y;
                x *= y;
            }
            sum += x;
        }
        i64 a = sum < 0 ? -sum : sum;
        if (a > maxabs) maxabs = a;
        return sum;
    }
    std::map<std::vector<long>, i64> memo;
    i64 scratch(int sv, long t, const long* p, const long* mc) {
        std::vector<long> key{ sv };
        for (size_t k = 0; k < st.ddims.size(); k++) key.push_back(p[k]);
        for (size_t k = 0; k < st.scr[sv].dim.size(); k++) key.push_back(mc[k]);
        auto it = memo.find(key);
        if (it != memo.end()) return it->second;
        for (auto& e : st.eqs) if (e.lhs.scratch && e.lhs.v == sv) {
            bool same = true;
            for (size_t k = 0; k < e.lhs.dd.size(); k++) if (e.lhs.dd[k] < 0 && e.lhs.off[k] != mc[k]) same = false;
            if (same && applies(e, t, p)) return memo[key] = eval(e, t, p);
        }
        throw ModelError{"scratch var " + st.scr[sv].name + " is not defined where it is read"};
    }
    void step(long t) {
        memo.clear();
        old.assign(st.vars.size(), {});
        for (size_t i = 0; i < st.vars.size(); i++) if (st.vars[i].output) old[i] = st.vars[i].data;
        size_t nd = st.ddims.size();
        for (auto& e : st.eqs) {
            if (e.lhs.scratch) continue;
            MVar& m = st.vars[e.lhs.v];
            if (!step_applies(e, t)) {
                // The step counts as reached although this equation leaves its var alone (documented as "may have been written").
                m.touch_step(t + st.dir);
                continue;
            }
            std::vector<i64> val; std::vector<size_t> at;
            long p[8] = { 0 }, g[8];
            for (size_t k = 0; k < nd; k++) g[k] = gsize[st.ddims[k]];
            for (;;) {
                if (applies(e, t, p)) {
                    long ix[8];
                    for (size_t k = 0; k < e.lhs.dd.size(); k++) ix[k] = m.kind[k] == 's' ? t + e.lhs.off[k] : m.kind[k] == 'd' ? p[e.lhs.dd[k]] : e.lhs.off[k];
                    at.push_back(m.pos(ix)); val.push_back(eval(e, t, p));
                }
                int d = (int)nd - 1;
                while (d >= 0) { if (++p[d] < g[d]) break; p[d] = 0; d--; }
                if (d < 0) break;
            }
            for (size_t k = 0; k < at.size(); k++) m.data[at[k]] = val[k];
            m.touch_step(t + st.dir);
        }
    }
    void run(long a, long b) {
        // Steps from a through b in the stencil's direction.
        if (st.dir > 0) for (long t = a; t <= b; t++) step(t);
        else for (long t = a; t >= b; t--) step(t);
    }
};

inline std::string& spec_dir() { static std::string d; return d; }

// Reads <dir>/<name>.st and derives what the equations need.
inline bool make_stencil(const std::string& name, ModelStencil& s) {
    std::string base = name.substr(0, name.find('.'));
    static std::map<std::string, ModelStencil> cache;
    if (cache.count(base)) { s = cache[base]; s.name = name; return true; }
    s = ModelStencil(); s.name = name;
    std::ifstream f(spec_dir() + "/" + base + ".st");
    if (!f) { fprintf(stderr, "no specification of %s in %s\n", base.c_str(), spec_dir().c_str()); exit(2); }
    std::string line;
    long all_slots = 0;
    auto dnum = [&](const std::string& d) { for (size_t k = 0; k < s.ddims.size(); k++) if (s.ddims[k] == d) return (int)k; return -1; };
    auto parse_acc = [&](const std::vector<std::string>& w, size_t a, size_t b) {
        MAcc r;
        for (size_t k = 0; k < s.vars.size(); k++) if (s.vars[k].name == w[a]) r.v = (int)k;
        for (size_t k = 0; k < s.scr.size(); k++) if (s.scr[k].name == w[a]) { r.v = (int)k; r.scratch = true; }
        if (r.v < 0) { fprintf(stderr, "%s: no var %s\n", base.c_str(), w[a].c_str()); exit(2); }
        const std::string& kd = r.scratch ? s.scr[r.v].kind : s.vars[r.v].kind;
        const auto& dm = r.scratch ? s.scr[r.v].dim : s.vars[r.v].dim;
        if (b - a - 1 != kd.size()) { fprintf(stderr, "%s: bad access %s\n", base.c_str(), w[a].c_str()); exit(2); }
        for (size_t k = 0; k < kd.size(); k++) {
            const std::string& x = w[a + 1 + k];
            if (kd[k] == 'm') { r.dd.push_back(-1); r.off.push_back(atol(x.c_str())); continue; }
            size_t q = x.find_first_of("+-");
            r.dd.push_back(kd[k] == 's' ? -2 : dnum(dm[k]));
            r.off.push_back(q == std::string::npos ? 0 : atol(x.c_str() + q));
        }
        return r;
    };
    while (std::getline(f, line)) {
        line = line.substr(0, line.find('#'));
        std::stringstream ss(line); std::vector<std::string> w; std::string x; while (ss >> x) w.push_back(x);
        if (w.empty()) continue;
        const std::string& k = w[0];
        if (k == "ycopts") for (size_t q = 1; q + 1 < w.size(); q++) if (w[q] == "-step-alloc") all_slots = atol(w[q + 1].c_str());
        if (k == "loop" && w[2] == "tiled") s.tiled = true;
        if (k == "soln" || k == "misc" || k == "fold" || k == "ycopts" || k == "style" || k == "loop" || k == "newvars") continue;
        if (k == "stepalloc") { for (auto& m : s.vars) if (m.name == w[1]) m.want_slots = atol(w[2].c_str()); continue; }
        if (k == "dynstep") { for (auto& m : s.vars) if (m.name == w[1]) m.dyn = true; continue; }
        if (k == "ddims") { s.ddims.assign(w.begin() + 1, w.end()); continue; }
        if (k == "var" || k == "scratch") {
            std::vector<std::string> dims(w.begin() + 2, w.end()); std::string kind;
            for (auto& d : dims) kind += d == "t" ? 's' : dnum(d) >= 0 ? 'd' : 'm';
            if (k == "var") {
                MVar m; m.name = w[1]; m.dim = dims; m.kind = kind; size_t n = dims.size();
                m.lh.assign(n, 0); m.rh.assign(n, 0); m.m0.assign(n, 0); m.m1.assign(n, -1);
                s.vars.push_back(m);
            } else { MScr m; m.name = w[1]; m.dim = dims; m.kind = kind; m.el.assign(s.ddims.size(), 0); m.er = m.el; s.scr.push_back(m); }
        } else if (k == "eq") { MEq e; e.lhs = parse_acc(w, 1, w.size()); s.eqs.push_back(e); }
        else if (k == "if" || k == "ifnot") {
            MEq& e = s.eqs.back(); e.hasc = true; e.cneg = k == "ifnot";
            int alt = 0;
            for (size_t q = 1; q < w.size(); q++) {
                if (w[q] == "|") { alt++; continue; }
                size_t a = w[q].find_first_of("<>=!"), b = w[q].find_first_not_of("<>=!", a);
                MCond c; std::string l = w[q].substr(0, a); c.alt = alt;
                size_t pl = l.find('+'), md = l.find('%');
                if (pl != std::string::npos) { c.dd2 = dnum(l.substr(pl + 1)); l = l.substr(0, pl); }
                if (md != std::string::npos) { c.mod = atol(l.c_str() + md + 1); l = l.substr(0, md); }
                c.dd = dnum(l); c.op = w[q].substr(a, b - a); c.last = w[q][b] == 'l'; c.off = atol(w[q].c_str() + b + 1);
                e.cs.push_back(c);
            }
        } else if (k == "step" || k == "stepnot") { MEq& e = s.eqs.back(); e.hass = true; e.sneg = k == "stepnot"; e.mod = atol(w[1].c_str()); e.rem = atol(w[2].c_str()); }
        else if (k == "sval" || k == "svalnot") { MEq& e = s.eqs.back(); e.hasv = true; e.vneg = k == "svalnot"; size_t n = w.size(); e.vop = w[n - 2][0]; e.vk = atol(w[n - 1].c_str()); e.va = parse_acc(w, 1, n - 2); }
        else {
            MTerm t; t.c = atol(w[0].c_str());
            size_t a = 1;
            while (a < w.size()) { size_t b = a; while (b < w.size() && w[b] != "*") b++;
                MFac fc; size_t q = a;
                if (w[a] == "max" || w[a] == "min" || w[a] == "abs") { fc.op = w[a] == "max" ? 'M' : w[a] == "min" ? 'm' : 'a'; q++; }
                size_t e1 = q; while (e1 < b && w[e1] != ",") e1++;
                fc.a.push_back(parse_acc(w, q, e1)); if (e1 < b) fc.a.push_back(parse_acc(w, e1 + 1, b));
                t.f.push_back(fc); a = b + 1; }
            s.eqs.back().terms.push_back(t);
        }
    }
    // Derived facts.
    if (all_slots) for (auto& m : s.vars) m.want_slots = all_slots;
    size_t nd = s.ddims.size();
    bool odd = false;
    for (auto& e : s.eqs) {
        if (e.lhs.scratch || e.hasc || e.hass || e.hasv) odd = true;
        if (e.lhs.scratch) continue;
        s.vars[e.lhs.v].output = true;
        for (size_t k = 0; k < e.lhs.dd.size(); k++) if (e.lhs.dd[k] == -2) s.dir = (int)e.lhs.off[k];
    }
    s.wps = odd ? -1 : (long)s.eqs.size();
    auto misc = [&](const MAcc& a) {
        if (a.scratch) return;
        MVar& m = s.vars[a.v];
        for (size_t k = 0; k < a.dd.size(); k++) if (a.dd[k] == -1) {
            if (m.m1[k] < m.m0[k]) m.m0[k] = m.m1[k] = a.off[k];
            m.m0[k] = std::min(m.m0[k], a.off[k]); m.m1[k] = std::max(m.m1[k], a.off[k]);
        }
    };
    std::vector<double> amp(s.vars.size(), 1), samp(s.scr.size(), 0);
    std::vector<int> depth(s.vars.size(), 0), sdepth(s.scr.size(), 0);
    std::vector<double> namp(s.vars.size(), 0);
    double worst = 1;
    for (auto& e : s.eqs) {
        misc(e.lhs);
        if (e.hasv) misc(e.va);
        double a = 0; int dep = 0;
        for (auto& t : e.terms) {
            double x = std::abs((double)t.c) ; bool any = false;
            for (auto& fc : t.f) {
                double fy = 0;
                for (auto& r : fc.a) {
                misc(r);
                double y;
                if (r.scratch) { y = samp[r.v]; dep = std::max(dep, sdepth[r.v]); }
                else if (!s.vars[r.v].output) y = 1;
                else {
                    y = 1;
                    for (size_t k = 0; k < r.dd.size(); k++) if (r.dd[k] == -2) {
                        if (r.off[k] == s.dir) { y = namp[r.v]; dep = std::max(dep, depth[r.v]); }
                        else if (s.dir > 0) s.first_t = std::max(s.first_t, -r.off[k]);
                    }
                }
                fy = std::max(fy, y); }
                x *= any ? 4 * fy : fy; any = true;
            }
            a += x;
        }
        if (e.lhs.scratch) { samp[e.lhs.v] = std::max(samp[e.lhs.v], a); sdepth[e.lhs.v] = std::max(sdepth[e.lhs.v], dep); }
        else { namp[e.lhs.v] = std::max(namp[e.lhs.v], a); depth[e.lhs.v] = std::max(depth[e.lhs.v], dep + 1); s.stages = std::max(s.stages, depth[e.lhs.v]); }
        worst = std::max(worst, a);
    }
    s.growth_bits = std::max<long>(1, (long)std::ceil(std::log2(worst)));
    // Extents of scratch vars, last consumer first; then halos.
    for (int i = (int)s.eqs.size() - 1; i >= 0; i--) {
        MEq& e = s.eqs[i];
        std::vector<long> el(nd, 0), er(nd, 0);
        if (e.lhs.scratch) { if (!s.scr[e.lhs.v].used) continue; el = s.scr[e.lhs.v].el; er = s.scr[e.lhs.v].er; }
        for (auto& t : e.terms) for (auto& fc : t.f) for (auto& r : fc.a) {
            if (r.scratch) {
                MScr& c = s.scr[r.v]; c.used = true;
                std::vector<long> l = el, h = er;
                for (size_t k = 0; k < r.dd.size(); k++) if (r.dd[k] >= 0) { l[r.dd[k]] = el[r.dd[k]] - r.off[k]; h[r.dd[k]] = er[r.dd[k]] + r.off[k]; }
                for (size_t k = 0; k < nd; k++) { c.el[k] = std::max(c.el[k], l[k]); c.er[k] = std::max(c.er[k], h[k]); }
            } else {
                MVar& m = s.vars[r.v];
                for (size_t k = 0; k < r.dd.size(); k++) if (r.dd[k] >= 0) {
                    m.lh[k] = std::max(m.lh[k], el[r.dd[k]] - r.off[k]); m.rh[k] = std::max(m.rh[k], er[r.dd[k]] + r.off[k]);
                }
                for (size_t k = 0; k < r.dd.size(); k++) if (r.dd[k] == -2) m.back = std::max(m.back, -s.dir * r.off[k]);
            }
        }
    }
    s.max_halo.assign(nd, 0);
    for (auto& m : s.vars) for (size_t k = 0; k < m.dim.size(); k++) if (m.kind[k] == 'd')
        for (size_t d = 0; d < nd; d++) if (s.ddims[d] == m.dim[k]) s.max_halo[d] = std::max(s.max_halo[d], std::max(m.lh[k], m.rh[k]));
    s.safe_halo = s.max_halo;
    std::vector<long> vo(nd, 0), so(nd, 0);
    for (auto& e : s.eqs) for (auto& t : e.terms) for (auto& fc : t.f) for (auto& r : fc.a)
        for (size_t k = 0; k < r.dd.size(); k++) if (r.dd[k] >= 0) { long& o = (r.scratch ? so : vo)[r.dd[k]]; o = std::max(o, std::abs(r.off[k])); }
    for (size_t d = 0; d < nd; d++) s.safe_halo[d] = vo[d] + so[d] * (long)s.scr.size();
    cache[base] = s;
    return true;
}
