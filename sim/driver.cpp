// YASK's own program (src/kernel/yask_main.cpp) and its reference evaluation, for the simulator.
#include "yask_stencil.hpp"
#include "hostapi.h"
#include <set>
using namespace yask;

static unsigned long alter_rnd;
static void (*altered)(int) = nullptr;
static idx_t next(idx_t n) { alter_rnd = alter_rnd * 6364136223846793005UL + 1442695040888963407UL; return idx_t((alter_rnd >> 33) % (unsigned long)n); }
struct Alt { yk_var_ptr v; std::vector<idx_t> p; double x; };

// Alters some elements of output vars in this rank's domain.
static std::vector<Alt> alter(StencilContext& c) {
    std::vector<Alt> alt;
    std::set<std::pair<std::string, std::vector<idx_t>>> seen;
    auto step = c.get_step_dim_name();
    auto dd = c.get_domain_dim_names();
    int n = 1 + int(next(3));
    for (int k = 0; k < n; k++) {
        auto v = c.output_var_ptrs.at(size_t(next(idx_t(c.output_var_ptrs.size()))));
        std::vector<idx_t> p;
        auto edge = next(4);
        for (auto& d : v->get_dim_names()) {
            idx_t lo = 0, hi = 0;
            if (d == step) { lo = v->get_first_valid_step_index(); hi = v->get_last_valid_step_index(); }
            else if (std::find(dd.begin(), dd.end(), d) != dd.end()) { lo = v->get_first_rank_domain_index(d); hi = v->get_last_rank_domain_index(d); }
            else { lo = v->get_first_misc_index(d); hi = v->get_last_misc_index(d); }
            p.push_back(edge == 0 ? lo : edge == 1 ? hi : lo + next(hi - lo + 1));
        }
        if (!seen.insert({ v->get_name(), p }).second) continue;
        double x = v->get_element(p);
        v->set_element(x + 1. + 0.5 * fabs(x), p, true);
        alt.push_back({ v, p, x });
    }
    return alt;
}

// The reference solution is altered before the program compares its own with it.
static const StencilContext& drv_alter(const StencilContext& ref) {
    if (altered) {
        auto f = altered; altered = nullptr;
        f((int)alter(const_cast<StencilContext&>(ref)).size());
    }
    return ref;
}
void drv_alter_next(unsigned long rnd, void (*f)(int)) { alter_rnd = rnd; altered = f; }

#define compare_data(r) compare_data(drv_alter(r))
#define main drv_main
#include VP_YASK_MAIN
#undef main
#undef compare_data

// Compares the optimized evaluation with the reference one, then alters elements on one rank:
// exactly those must be found.
std::string drv_refcmp(yk_factory& fac, yk_env_ptr env, yk_solution_ptr so, idx_t a, idx_t b, double seed, unsigned long rnd, int where) {
    alter_rnd = rnd;
    auto c = dynamic_pointer_cast<StencilContext>(so);
    auto ref = fac.new_solution(env, so);
    auto rc = dynamic_pointer_cast<StencilContext>(ref);
    ref->apply_command_line_options("-force_scalar");
    if (env->get_num_ranks() > 1) ref->apply_command_line_options("-no-overlap_comms -no-use_shm -exchange_halos");
    auto step = so->get_step_dim_name();
    for (auto v : so->get_vars()) if (v->is_dim_used(step) && v->is_dynamic_step_alloc()) ref->get_var(v->get_name())->set_alloc_size(step, v->get_alloc_size(step));
    ref->prepare_solution();
    c->init_diff(seed); rc->init_diff(seed);
    so->run_solution(a, b);
    rc->run_ref(a, b);
    idx_t e = c->compare_data(*rc);
    if (e) return "results of run_solution() and run_ref() differ in " + to_string(e) + " element(s)";
    std::vector<Alt> alt;
    if (where < 0 || where == env->get_rank_index()) alt = alter(*c);
    std::string what;
    for (auto& x : alt) what += " " + x.v->format_indices(x.p);
    e = c->compare_data(*rc);
    if (e != idx_t(alt.size())) return "comparison found " + to_string(e) + " of " + to_string(alt.size()) + " altered element(s)" + what;
    for (auto& x : alt) x.v->set_element(x.x, x.p, true);
    if (c->compare_data(*rc)) return "comparison still fails after the elements were restored";
    ref->end_solution();
    return "";
}
