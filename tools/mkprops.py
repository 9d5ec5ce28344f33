#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json (one source keeps them in step)."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
K = "src/kernel/lib/"
P = []


def prop(id, title, statement, over, text, why, files, mech, observe=None, state=None, hook=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if observe:
        a["observe_at"] = observe
    if state:
        a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    a["hook_needed"] = hook
    P.append({"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})


prop("C01", "Optimized evaluation equals point-by-point sequential evaluation",
     "On a single rank, after run_solution() every element of every solution var, including all retained steps, has exactly the value that evaluating the stencil equations one point and one step at a time in program order would give. "
     "This holds for every legal combination of domain sizes, mega-block, block, micro-block, nano-block and pico-block sizes, temporal (wave-front and temporal-block) depths, thread counts, thread bindings and padding, for sub-domain and step conditions, scratch vars, misc dims and either step direction. "
     "Performance settings may change only the time a run takes.",
     ["configurations", "schedules", "programs"], "all legal tiling/temporal/threading settings x domain sizes x stencil shapes x thread interleavings",
     "The tests run a few fixed sizes and block settings of some stencils on real threads; wrong results that need a particular remainder size, temporal depth or thread timing are not reached.",
     [K + "context.cpp", K + "stencil_calc.cpp", K + "stencil_calc.hpp", K + "setup.cpp", K + "settings.cpp", "src/compiler/lib/", "utils/bin/gen_loops.pl"],
     [("run_solution/calc_mega_block/calc_block/calc_micro_block shifting and trimming", K + "context.cpp"), ("temporal tiling info", K + "setup.cpp update_tb_info"), ("nano-block peel/remainder masks", K + "stencil_calc.cpp")],
     ["yk_var get_element()/get_elements_in_slice() after run_solution()"])
prop("C02", "Multi-rank results equal single-rank results",
     "Partitioning the overall domain over any number of ranks in any layout, with any mix of shared-memory and network neighbors, gives every element on the rank that owns it the value that a single rank would have computed. "
     "This holds whatever the delivery delays and relative speeds of the ranks, and whichever overlap, exterior-size, scalar-exchange, shared-memory, wave-front and threading options are selected. "
     "Values written with the API on the owning rank before or between runs are seen by the neighbors that need them.",
     ["schedules", "configurations", "inputs"], "all rank layouts, node placements, message timings and communication options",
     "The tests use 2-4 real MPI ranks on one node whose timing is nearly constant; late messages, slow ranks, mixed nodes and odd sizes per rank never occur.",
     [K + "halo.cpp", K + "context.cpp", K + "alloc.cpp", K + "setup.cpp", K + "settings.cpp", K + "generic_var.cpp"],
     [("halo exchange", K + "halo.cpp exchange_halos"), ("dirty tracking", K + "context.cpp update_var_info/mark_vars_dirty"), ("interior/exterior split", K + "setup.cpp find_bounding_boxes")],
     ["yk_var get_element() on the owning rank"])
prop("C03", "Multi-rank runs make progress and leave no communication behind",
     "If all ranks make the same sequence of collective calls (creation of the environment and solution, prepare_solution(), run_solution(), exchange_halos(), barriers, sums over ranks, statistics, end_solution()), every call returns in a bounded number of steps once messages are delivered, for every timing of the ranks and the network. "
     "Every message that is sent is received with matching sender, tag and size, every request is completed, and no buffer is changed while it is still in use by a transfer. "
     "Every collective call gives every rank the same, correct result.",
     ["schedules", "fault_sequences", "configurations"], "all delivery orders, delays, slow or stalled ranks and rank layouts",
     "Deadlocks, unmatched or overlapping transfers and unfinished requests depend on timing that a real MPI library on one idle machine does not produce, and eager sends hide most of them.",
     [K + "halo.cpp", K + "alloc.cpp", K + "setup.cpp", K + "soln_apis.cpp", K + "utils.cpp"],
     [("posting and waiting of halo messages", K + "halo.cpp"), ("shared-memory handshake", K + "halo.cpp, settings.hpp MPIData"), ("collectives", K + "setup.cpp, utils.cpp")],
     ["return of every API call", "state of the simulated MPI runtime at finalize"])
prop("C04", "Rank domains tile the overall domain exactly, or preparation fails",
     "After prepare_solution() the domains of all ranks are non-empty boxes that cover the overall domain exactly once, in the order of the rank indices, and every query of rank counts, rank indices, offsets and sizes agrees on all ranks and with every value the user set. "
     "Settings given as overall sizes, per-rank sizes, rank counts and rank indices in any legal combination and order are honored (zero means: choose automatically; for rank indices, zero on all ranks). "
     "If the settings are inconsistent, preparation raises an exception on some rank and completes on none of the ranks that detect it; no rank silently uses other values than those requested.",
     ["configurations", "inputs"], "all combinations of sizes, rank counts, rank indices and call orders over 1-8 ranks",
     "The tests use even splits chosen by default; remainders, user-chosen indices, partly set counts and contradictions between ranks are not tried.",
     [K + "setup.cpp", K + "settings.cpp", K + "soln_apis.cpp", "src/common/tuple.cpp"],
     [("rank setup", K + "setup.cpp setup_rank"), ("compact factorization", "src/common/tuple.cpp get_compact_factors"), ("set/get APIs", K + "soln_apis.cpp")],
     ["yk_solution getters on every rank", "exception from prepare_solution()"])
prop("C05", "Shared-memory halo exchange transfers every halo exactly once",
     "When ranks on one node exchange halos through shared memory, each receiver reads exactly the data its neighbor produced for that exchange: never data of an earlier or later exchange, never a partly written buffer, and never none at all. "
     "The results, and the termination of all ranks, are the same as with message passing, for every interleaving of the ranks and for any mix of shared-memory and message-passing neighbors, including ranks without any shared-memory neighbor.",
     ["schedules", "configurations"], "all interleavings of ranks at every shared-memory access, node placements, options",
     "A real run has one fast interleaving; a missing hand-over or fence shows only when a rank is preempted at a particular instruction.",
     [K + "halo.cpp", K + "settings.hpp", K + "alloc.cpp", K + "utils.hpp"],
     [("lock per buffer pair", K + "utils.hpp SimpleLock"), ("buffer hand-over", K + "halo.cpp"), ("window allocation", K + "alloc.cpp")],
     ["yk_var values after run_solution()", "completion of every rank"])
prop("C06", "Results do not depend on the OpenMP schedule or number of threads",
     "The values computed by run_solution(), and those seen by element and slice APIs that are themselves parallel, do not depend on how many threads the OpenMP runtime supplies (including fewer than requested), how it distributes iterations, or how threads interleave. "
     "No element is lost, computed twice with effect, or read by one thread while another is still computing it. "
     "Concurrent calls of add_to_element() on the same element are all applied, and concurrent set_element()/get_element() calls on distinct elements do not disturb each other.",
     ["schedules", "configurations"], "all thread interleavings, team sizes, bindings, nesting and dynamic-schedule outcomes",
     "Real threads interleave in the same few ways and the runtime always supplies all threads in the test sandbox.",
     [K + "context.cpp", K + "stencil_calc.cpp", K + "setup.cpp", "src/common/common_utils.hpp", K + "yk_var_apis.cpp"],
     [("parallel regions and thread counts", K + "setup.cpp set_num_outer_threads/start_inner_threads"), ("yask_parallel_for", "src/common/common_utils.hpp"), ("atomic update", K + "yk_var.hpp add_to_elem")],
     ["yk_var values", "return values of concurrent API calls"])
prop("C07", "Var APIs read back exactly what was written, on every rank",
     "Reading an element or slice returns the last value written there by any element, slice or whole-var write API or by the solution, for every local index including halos and pads, every valid step and every misc index, in both precisions. "
     "Writes touch only the named elements, return the number of elements written, extend the range of valid steps as documented, and writes outside the local allocation are skipped or rejected as documented. "
     "After a halo exchange the halo values on a rank are those written on the neighbor.",
     ["histories", "inputs", "configurations"], "all sequences of API calls over all vars, indices, slice shapes and ranks",
     "The API tests use a handful of fixed calls; interplay of slices, steps, halos, user-created vars and multiple ranks is not sampled.",
     [K + "yk_var_apis.cpp", K + "generic_var.cpp", K + "yk_var.hpp", K + "yk_var.cpp", K + "new_var.cpp"],
     [("index checks and step wrapping", K + "yk_var.cpp check_indices/update_valid_step"), ("slice copies", K + "generic_var.cpp"), ("layouts", "utils/bin/gen_layouts.pl")],
     ["yk_var get/set APIs"])
prop("C08", "Reductions and slice operations equal their sequential definition",
     "reduce_elements_in_slice() gives the sum, sum of squares, product, maximum and minimum of exactly the elements in the slice, for any combination of requested reductions, any slice shape, any number of threads and any interleaving. "
     "Slice reads, writes and fills act on every element of the slice once, in the documented buffer order, and non-strict slices that lie partly or wholly outside the local allocation act on just the part inside and report that count.",
     ["inputs", "schedules", "configurations"], "all slices, masks, values, thread counts and schedules",
     "The tests reduce a few whole vars; combinations of masks, partial slices and threads are not tried.",
     [K + "generic_var.cpp", K + "yk_var.hpp", K + "yk_var_apis.cpp", "src/common/common_utils.hpp"],
     [("slice visitors", K + "yk_var.hpp _visit_elements_in_slice and friends"), ("parallel partial results", K + "generic_var.cpp reduce")],
     ["result objects and buffers of slice APIs"])
prop("C09", "Splitting a run into several calls changes nothing",
     "Running steps a..c by one call of run_solution() gives the same values as running a..b and then b+1..c (or b-1..c for stencils that step backwards), for every split, any temporal tiling and any number of ranks. "
     "Afterwards exactly the documented number of most recent steps is readable, the first and last valid step indices say so, and reading an invalid step raises an exception, as does an inconsistent step range where documented. "
     "Step indices may start anywhere, including negative values.",
     ["histories", "configurations"], "all splits of all step ranges, start indices, temporal depths",
     "The tests run one range per solution.",
     [K + "context.cpp", K + "yk_var.cpp", K + "yk_var.hpp", K + "stencil_calc.cpp"],
     [("valid-step window", K + "yk_var.cpp update_valid_step"), ("step loop with partial last wave-front", K + "context.cpp run_solution")],
     ["yk_var values and valid-step getters"])
prop("C10", "The auto-tuner terminates and never changes results",
     "Tuning during run_solution() changes only performance settings: results are the same as without tuning, for every choice of tuning targets, radius and trial length, and any behavior of the clock including coarse ticks, jumps, being set back or not advancing. "
     "run_auto_tuner_now() terminates on all ranks and leaves the solution in a state from which subsequent runs are correct. "
     "The tuner stays enabled or disabled as requested by the option or by reset_auto_tuner().",
     ["fault_sequences", "schedules", "configurations"], "all clock behaviors and thus all orders of tried settings, targets, radii",
     "Which settings are tried depends on measured times, so a test never visits the same search twice and none with a misbehaving clock.",
     [K + "auto_tuner.cpp", K + "auto_tuner.hpp", K + "context.cpp", K + "setup.cpp"],
     [("search state machine", K + "auto_tuner.cpp eval"), ("applying sizes", K + "auto_tuner.cpp adjust_settings/apply_best")],
     ["yk_var values", "return of run_auto_tuner_now()", "is_auto_tuner_enabled()"])
prop("C11", "Statistics count exactly the work done since they were last cleared",
     "get_stats() reports the number of overall-domain elements, the number of steps executed and the number of elements written since the last call of get_stats() or clear_stats(), on every rank and for every split of the runs. "
     "The counts do not depend on tiling, threads, or message timing; the elapsed time is never negative when the clock does not go backwards, and is positive after a run.",
     ["histories", "configurations"], "all histories of runs and statistics calls, rank layouts and temporal settings",
     "The tests print the statistics and do not compare them.",
     [K + "soln_apis.cpp", K + "stencil_calc.cpp", K + "context.hpp"],
     [("get_stats/clear_timers", K + "soln_apis.cpp"), ("per-stage step and work counts", K + "stencil_calc.cpp init_work_stats/add_steps")],
     ["yk_stats getters"])
prop("C12", "A failed storage allocation is reported and preparation can be retried",
     "If allocating storage for vars, scratch data or communication buffers fails at any point of prepare_solution() or of a var's own allocation call, a YASK exception is raised and the process is neither terminated nor left with a var that claims storage it does not have. "
     "When memory becomes available again, calling prepare_solution() once more succeeds and all later results are correct.",
     ["fault_sequences", "crash_points"], "failure of the n-th storage request, for every n, allocation size class and allocator (default or NUMA)",
     "No test makes an allocation fail.",
     [K + "alloc.cpp", K + "alloc.hpp", K + "generic_var.cpp", K + "soln_apis.cpp"],
     [("allocators that throw", K + "alloc.cpp yask_aligned_alloc/numa_alloc"), ("allocation bookkeeping", K + "alloc.cpp alloc_var_data/alloc_scratch_data/alloc_mpi_data")],
     ["exceptions", "is_storage_allocated()", "values after the retry"])
prop("C13", "Solutions can be re-prepared, ended, restarted and fused without corruption",
     "Any legal sequence of prepare_solution(), run_solution(), end_solution(), creating a new solution from an old one, fusing vars, and releasing and allocating var storage leaves every var either without storage (and says so) or with correct data: re-preparing (also with other run-time settings) keeps existing data, fused vars share one storage and one set of data, and after end_solution() and a new preparation (also with another layout of the ranks) the solution works like a fresh one. "
     "Fusing vars with different dimensions raises an exception.",
     ["histories"], "all histories of life-cycle calls, on one or several ranks",
     "The tests use each solution object once.",
     [K + "soln_apis.cpp", K + "yk_var_apis.cpp", K + "alloc.cpp", K + "generic_var.cpp", K + "setup.cpp"],
     [("prepare_solution/end_solution", K + "soln_apis.cpp"), ("fuse_vars", K + "yk_var_apis.cpp"), ("storage release", K + "generic_var.cpp")],
     ["is_storage_allocated()", "raw storage pointers", "yk_var values"])
prop("C14", "A compiled program computes what its equations say",
     "For any legal stencil program (any mix of vars, scratch vars, domain and step conditions, misc indices, several stages, forward or backward in time, in-place or multi-step updates), any legal setting of the compiler (folding, inner loop, bundling, expression optimizations, early loads, layouts, step allocation) and either precision, "
     "run_solution() gives each point at each step the value of the expression written for it, evaluated on the values the program says, with any tiling, threading and number of ranks. "
     "Enough steps are kept for every read the program makes, overridden step allocations are honored, and no legal program is rejected or turned into code that does not compile.",
     ["programs", "configurations", "schedules"], "all stencil programs x compiler settings x run-time settings",
     "The tests compile a few built-in stencils with one setting each, and compare two modes of the same generated code, so a wrong equation or too few kept steps looks right in both.",
     ["src/compiler/lib/", K + "stencil_calc.cpp", "include/aux/yc_node_api.hpp"],
     [("equation analysis, stages and scratch halos", "src/compiler/lib/Eqs.cpp"), ("step allocation", "src/compiler/lib/Var.cpp"), ("expression optimizers", "src/compiler/lib/Expr.cpp, ExprUtils.cpp"), ("vector and C++ printers", "src/compiler/lib/Cpp*.cpp, Vec*.cpp, Yask*.cpp")],
     ["yk_var values after run_solution()", "yk_var::get_alloc_size() of the step dim", "success of the YASK compiler and of compiling its output"])
prop("C15", "Application-created vars, hooks and step wrapping work as documented",
     "A var created with new_var() or new_fixed_size_var() stores what the application wrote to it and nothing else: neither running the solution, exchanging halos, preparing again nor accessing other vars changes its elements, and its sizes follow the documented rules (the solution's domain for new_var(), the given sizes for new_fixed_size_var(), pads at least as large as requested). "
     "Every hook is called exactly once per prepare_solution() or run_solution(), in the order of registration, before or after the work as its name says, with the step indices of that call. "
     "With set_step_wrap(true), step indices outside of the valid range refer to the steps that share their storage; with it off they are rejected.",
     ["histories", "schedules", "configurations"], "all histories of var creation, API accesses, hook registrations and runs, on one or several ranks",
     "The tests create one or two such vars and register no hooks.",
     [K + "new_var.cpp", K + "yk_var_apis.cpp", K + "yk_var.cpp", K + "soln_apis.cpp", K + "context.cpp"],
     [("var creation", K + "new_var.cpp"), ("hooks", K + "soln_apis.cpp call_hooks"), ("step wrap", K + "yk_var.hpp check_indices/get_alloc_step_index")],
     ["yk_var values, sizes and exceptions of application-created vars", "sequence and arguments of hook calls"])
prop("C16", "No access outside allocated storage and no use of uninitialized data",
     "For every legal setting and every schedule, the library reads and writes only memory it has allocated and not released: var storage with its pads, scratch data, message buffers and bookkeeping. "
     "No block is written past its end or released twice, and no value that was never written reaches an element of the computed domain.",
     ["configurations", "schedules"], "all legal sizes, paddings, tilings, temporal depths, rank layouts and schedules",
     "An overrun into a pad or a neighboring block usually changes nothing visible; the tests run without memory checking.",
     [K + "alloc.cpp", K + "stencil_calc.cpp", K + "halo.cpp", K + "setup.cpp", K + "yk_var.cpp"],
     [("pad and scratch sizing", K + "alloc.cpp, setup.cpp, yk_var.cpp resize"), ("buffer sizing", K + "alloc.cpp alloc_mpi_data")],
     ["every memory access of the instrumented library"])
prop("C17", "Solutions that share an environment do not affect each other",
     "Two solutions created from one environment, each with its own settings, storage and run-time state, behave as if the other one did not exist: preparing, running, setting data in, exchanging halos of, clearing statistics of or ending one of them changes no var of the other, their messages are never mixed up, and the same inputs give both the same results whatever tiling, threading and communication settings each one uses. "
     "A solution created with another one as the source of its settings is independent of it afterwards.",
     ["histories", "schedules", "configurations"], "all interleavings of calls on two solutions, on one or several ranks",
     "The tests use two solutions only to validate one against the other, with one fixed order of calls.",
     [K + "context.cpp", K + "settings.cpp", K + "factory.cpp", K + "halo.cpp", K + "soln_apis.cpp"],
     [("per-solution state", K + "settings.cpp KernelState"), ("creation from a source", K + "factory.cpp new_solution"), ("message tags and buffers", K + "halo.cpp")],
     ["yk_var values of both solutions"])
prop("C18", "The benchmark and validation program reports what happened",
     "The kernel program (yask_kernel.exe) started on any number of ranks with any legal combination of its options runs to its end on every rank, however differently the ranks' clocks advance and their tuners search: all ranks run the same trials with the same number of steps, and the number of trials and of steps that is reported is the number that was run. "
     "With -validate, every rank reports a passed test and the program succeeds if every element of every output var in the domain agrees with the reference evaluation; if any element on any rank differs, that rank reports a failed test with the number of differing elements and the program does not succeed. "
     "Illegal options, a failed allocation on any rank, or nothing to do end the program with a message and without success.",
     ["schedules", "configurations", "timing", "faults"], "all option combinations, rank counts, schedules, clock rates and jumps, and allocation failures on any rank",
     "The tests run the program on one host with its real clock; there the ranks are tuned and timed alike, and no allocation fails.",
     ["src/kernel/yask_main.cpp", K + "context.cpp", K + "yk_var.cpp", K + "auto_tuner.cpp"],
     [("main", "src/kernel/yask_main.cpp main"), ("run_ref, compare_data", K + "context.cpp"), ("compare", K + "yk_var.cpp YkVarBase::compare")],
     ["output and exit status of the program"])

NA = [
    ("N02", "Command-line options set exactly the setting they name",
     "Each run-time option changes the setting it documents, in the documented dimensions, and unknown options are returned to the caller unchanged.",
     ["inputs"], "all option strings", "The tests use a few options.", ["src/common/common_utils.cpp", K + "settings.cpp"], [("command_line_parser", "src/common/common_utils.cpp")],
     "a pure function of a string; nothing in it depends on scheduling, time, I/O or other parties"),
    ("N03", "Finite-difference coefficient functions return the documented weights",
     "The finite-difference coefficient helpers return the weights of the unique interpolating polynomial for the given points and derivative order.",
     ["inputs"], "all point sets and orders", "The tests print a few.", ["src/contrib/coefficients/fd_coeff.cpp"], [("fd_coeff", "src/contrib/coefficients/fd_coeff.cpp")],
     "pure arithmetic without concurrency, time, I/O or parties"),
    ("N04", "The Python API behaves like the C++ API",
     "Every operation available through the Python wrapper has the same effect as the C++ operation of the same name.",
     ["programs"], "all sequences of Python calls", "One Python test program.", ["src/kernel/swig/", "src/compiler/swig/"], [("SWIG interface files", "src/kernel/swig/")],
     "a binding layer generated by SWIG: calls map one to one onto the C++ API, which is what the simulator drives; the mapping itself has no nondeterminism for a schedule or fault to act on"),
]
for i, t, s, o, q, w, f, m, r in NA:
    prop(i, t, s, o, q, w, f, m)

import sys
sys.path.insert(0, V)
from props import PROPS
TECH = "deterministic simulation with fault injection: seeded schedules, message timings and faults over the whole library; replayable minimised counterexamples"
NOTE = {
    "default": "Seeded search, not exhaustive: it decides the property for the schedules, settings and fault sequences it visits. Trusted: the simulated MPI/OpenMP runtimes and the executable reference model in /verif/sim, gcc -fsanitize=thread instrumentation.",
}
from props import NOTES
checks = []
with open(V + "/properties.jsonl", "w") as f:
    for p in P:
        f.write(json.dumps(p) + "\n")
for p in P:
    if p["id"] in PROPS:
        checks.append({"property": p["id"], "quick_cmd": "python3 check.py " + p["id"] + " --tier quick", "thorough_cmd": "python3 check.py " + p["id"] + " --tier thorough",
                       "technique": PROPS[p["id"]].get("technique", TECH), "level": PROPS[p["id"]].get("level", "exploration"),
                       "level_note": NOTES.get(p["id"], "") + NOTE["default"]})
na = [{"property": x[0], "reason": x[-1]} for x in NA]
ids = {p["id"] for p in P}
assert ids == {c["property"] for c in checks} | {n["property"] for n in na}, ids ^ ({c["property"] for c in checks} | {n["property"] for n in na})
for p in P:
    assert len(p["title"]) <= 80, p["title"]
json.dump({"version": 1, "setup_cmd": "python3 setup.py", "checks": checks, "not_applicable": na,
           "notes": "No hooks in /repo: the seams are the MPI and OpenMP ABIs, libc clocks and allocation, and compiler instrumentation. fix: commits are listed in known_findings.json. Replay: python3 check.py replay <file>."},
          open(V + "/MANIFEST.json", "w"), indent=1)
