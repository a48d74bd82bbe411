"""One function per property: what is built, which harness modes run, with how many cases."""
import os
import build, run

H = os.path.join(build.VERIF, "h")
PROPS = {}


def prop(f):
    PROPS[f.__name__] = f
    return f


def prog(ctx, variant, name, srcs, libs=(), extra=(), inc=()):
    # harness objects first: they are the longest single compilations
    objs = [ctx.b.obj(variant, os.path.join(H, s) if "/" not in s else s, extra=extra, inc=inc) for s in srcs]
    return ctx.b.link(variant, name, objs + ctx.b.lib_jobs(variant), libs=libs)


def cases(ctx, exe, mode, q, t=None, **kw):
    if ctx.only:
        if ctx.only["mode"] != mode:
            return
        return run.run_cases(ctx, exe, mode, 1, **dict(kw, base=ctx.only["case"]))
    n = ctx.quick(q, t or 12 * q)
    run.run_cases(ctx, exe, mode, n, **kw)


@prop
def C01(ctx):
    exe = prog(ctx, "plain", "d_kkt", ["d_kkt.cpp"])
    cases(ctx, exe, "c01", 8000, 120000)
    return run.finish(ctx, "random NLPs (convex with planted solution, nonconvex, degenerate, LP, chain, trivial) x random option sets with one tolerance "
                      "clause made binding; non-trivial = solve ended with a success status and its final point was judged; distinct by problem structure + options",
                      need={"success": 500, "acceptable_by_check": 20, "binding_dual_inf_tol": 20, "binding_constr_viol_tol": 20, "binding_compl_inf_tol": 20, "binding_tol": 50})


@prop
def C02(ctx):
    exe = prog(ctx, "plain", "d_kkt", ["d_kkt.cpp"])
    cases(ctx, exe, "c02", 6000, 80000)
    return run.finish(ctx, "iteration/time limits, user stops, planted infeasible/unbounded/contradictory/over-determined problems, refusing callbacks, unusable options; "
                      "non-trivial = outcome compared with what was planted; distinct by problem structure + options",
                      need={"maxiter_exits": 50, "user_stops": 50, "infeasible_certified": 50, "contradictory_bounds": 50, "too_few_dof": 50, "time_exits": 10})


@prop
def C03(ctx):
    exe = prog(ctx, "plain", "d_kkt", ["d_kkt.cpp"])
    cases(ctx, exe, "c03", 6000, 90000)
    if not ctx.only and ctx.stats.get("limited_memory_unsolved", 0) > 0.02 * ctx.stats.get("limited_memory", 0):
        ctx.add("limited-memory-rate", -1, "%d of %d strictly convex problems not solved in 3000 iterations with limited-memory Hessian" % (ctx.stats["limited_memory_unsolved"], ctx.stats["limited_memory"]), {"mode": "c03", "case": 0, "seed": ctx.seed})
    return run.finish(ctx, "strictly convex NLPs/QPs/LPs with planted strictly complementary KKT point x option sets, and the permuted/re-based variant; "
                      "non-trivial = solved and compared with the planted solution; distinct by structure + options", need={"solves": 1000})


@prop
def C04(ctx):
    exe = prog(ctx, "plain", "d_cb", ["d_cb.cpp"])
    cases(ctx, exe, "c04", 8000, 100000)
    return run.finish(ctx, "all problem families x option sets (constant-derivative promises, finite differences, derivative test, warm start, user scaling, reformulations, stops); "
                      "every callback is judged; distinct by structure + options", need={"eval_f": 50000, "eval_h": 20000, "constant_jac_solves": 100, "constant_hess_solves": 50, "constant_grad_solves": 50})


@prop
def C05(ctx):
    exe = prog(ctx, "plain", "d_cb", ["d_cb.cpp"])
    cases(ctx, exe, "c05", 6000, 80000)
    return run.finish(ctx, "one fault plan per case: callback kind x refusal/NaN/Inf/exception x single, burst, permanent, random or by region of the variable space; positions drawn from the calls of the fault-free solve; "
                      "non-trivial = at least one fault was delivered; distinct by structure + options + plan", need={"faults_injected": 3000, "garbage_pairs": 500, "transient": 100, "domain_solves": 200})


@prop
def C06(ctx):
    exe = prog(ctx, "plain", "d_step", ["d_step.cpp"], libs=["-llapack"])
    cases(ctx, exe, "c06", 14000, 200000)
    cases(ctx, exe, "c06f", 400, 8000, evals_per_case=False)
    return run.finish(ctx, "random problems x option sets; the line search of the algorithm is wrapped and every step, barrier update and filter decision judged against the documented rules; "
                      "the Filter class against the list of all pairs ever added; distinct by structure + options",
                      need={"steps": 30000, "full_steps_checked": 20000, "mu_decreases": 4000, "filter_checks": 4000, "types_checked": 4000, "restorations": 100, "kappa_sigma_checks": 50000, "filter_class_queries": 50000})


@prop
def C07(ctx):
    exe = prog(ctx, "plain", "d_rep", ["d_rep.cpp"])
    cases(ctx, exe, "c07", 4000, 50000)
    return run.finish(ctx, "random problems x option sets; at every callback all arguments, get_curr_iterate and get_curr_violations (scaled/unscaled, partial) are compared with values recomputed from the user's functions; "
                      "final report, statistics, printed summary and iteration table likewise; the same solve without queries must take the same course; distinct by structure + options",
                      need={"iterates": 10000, "iterates_in_restoration": 300, "queries": 40000, "summaries": 1000, "table_rows": 10000})


@prop
def C08(ctx):
    exe = prog(ctx, "plain", "d_step", ["d_step.cpp"], libs=["-llapack"])
    cases(ctx, exe, "c08", 14000, 200000)
    cases(ctx, exe, "c08t", 1200, 30000, evals_per_case=False)
    if not ctx.only and ctx.stats.get("directions_inaccurate", 0) > 0.03 * ctx.stats.get("directions", 1):
        ctx.add("inaccurate-rate", -1, "%d of %d directions have a relative residual above 1e-9" % (ctx.stats["directions_inaccurate"], ctx.stats["directions"]), {"mode": "c08", "case": 0, "seed": ctx.seed})
    return run.finish(ctx, "random problems x option sets; each direction is put into the primal-dual equations formed from the user's functions, and the inertia of that matrix computed densely; "
                      "every system given to the sparse solver is checked for residual, symmetry and inertia; triplet-to-compressed conversion with permuted and duplicate entries against a dense sum; distinct by structure + options",
                      need={"directions": 20000, "directions_regularised": 500, "inertia_checked": 8000, "solver_inertia_checked": 10000, "systems_checked": 50000, "csr_entries": 50000})


@prop
def C09(ctx):
    exe = prog(ctx, "plain", "d_la", ["d_la.cpp"], libs=["-llapack"])
    cases(ctx, exe, "c09v", 60000, 1500000)
    cases(ctx, exe, "c09m", 60000, 1500000)
    cases(ctx, exe, "c09d", 40000, 1000000)
    asan = prog(ctx, "asan", "d_la", ["d_la.cpp"], libs=["-llapack"])
    for m in ("c09v", "c09m", "c09d"):
        cases(ctx, asan, m, 6000, 100000)
    return run.finish(ctx, "random sequences of operations on dense and (nested) compound vectors incl. homogeneous ones; random trees of every matrix class; dense factorisations and multi-vector algebra; each result, cached scalar and tag compared "
                      "with long double arithmetic on plain arrays; distinct by shape + operation sequence",
                      need={"vector_ops": 500000, "scalars_checked": 1000000, "matvec": 50000, "amax": 5000, "triplets": 50000, "dense_ops": 50000, "poisoned": 1000, "AddMSinvZ": 10000, "SinvBlrmZMTdBr": 10000})


@prop
def C10(ctx):
    env = {"MON_LEAKS": "1"}
    mem = prog(ctx, "asan", "d_mem", ["d_mem.cpp"])
    cases(ctx, mem, "c10o", 1500, 40000, env=env)
    cases(ctx, mem, "c10a", 1400, 40000, env=env)
    cases(ctx, mem, "c10c", 1500, 60000, env=env)
    cases(ctx, mem, "c10k", 8, 8, chunk=1, evals_per_case=False)
    # the workloads of the other properties; only what the sanitizers say counts here
    for src, libs, modes in (("d_kkt", [], (("c01", 500), ("c02", 700), ("c03", 300))), ("d_cb", [], (("c04", 500), ("c05", 500))), ("d_rep", [], (("c07", 250),)),
                             ("d_step", ["-llapack"], (("c06", 300), ("c06f", 20))), ("d_hist", [], (("c11", 120),))):
        exe = prog(ctx, "asan", src, [src + ".cpp"], libs=libs)
        for m, n in modes:
            cases(ctx, exe, m, n, 30 * n, env=env, as_prop="-")
    plain = prog(ctx, "plain", "d_mem", ["d_mem.cpp"])
    if not ctx.only or ctx.only.get("harness") == "d_mem":
        for m, n in (("c10o", 96), ("c10a", 64), ("c10c", 48)):
            cases(ctx, plain, m, n, 4000, wrap=("valgrind", "-q", "--error-exitcode=97", "--num-callers=20"), percase=20)
    ctx.stats.update({"valgrind_cases": ctx.quick(208, 12000)})
    return run.finish(ctx, "random registered options at valid values, all print levels, odd orders of API calls, refusing/throwing callbacks and stops in the C++ and C interfaces, plus the workloads of the other properties, "
                      "under AddressSanitizer, UndefinedBehaviorSanitizer, a leak check after every case, and partly valgrind (uninitialised reads); distinct by structure + options + call order",
                      need={"leak_checks": 6000, "options_set": 5000, "solves": 5000, "user_exceptions": 20})


@prop
def C11(ctx):
    exe = prog(ctx, "plain", "d_hist", ["d_hist.cpp"])
    cases(ctx, exe, "c11", 2400, 40000)
    return run.finish(ctx, "one problem solved in different histories (fresh process object, after other solves, after failing solves, beside other applications, nested in a callback, re-optimised, with freed memory poisoned) "
                      "and every callback argument and result compared bit by bit with the reference run; distinct by structure + options + history",
                      need={"solves_compared": 7000, "events_compared": 200000, "nested": 700, "how:reoptimize": 300, "how:reoptimize-data": 100})


@prop
def C12(ctx):
    tsan = prog(ctx, "tsan", "d_thr", ["d_thr.cpp"])
    cases(ctx, tsan, "c12", 280, 6000, chunk=4, percase=8)
    exe = prog(ctx, "plain", "d_thr", ["d_thr.cpp"])
    cases(ctx, exe, "c12", 900, 20000, base=100000)
    return run.finish(ctx, "2-6 threads, each with its own application(s), options, options file, output file and journal, started behind a barrier, with yields and delays injected at callbacks; ThreadSanitizer watches the first part; "
                      "every thread's callback arguments, results and printed text are compared with those of the same solves run alone; distinct by problem + options + number of threads",
                      need={"threads": 3000, "solves_compared": 6000, "evals_while_others_active": 100000, "texts_compared": 1000})


@prop
def C13(ctx):
    exe = prog(ctx, "plain", "d_opt", ["d_opt.cpp"])
    cases(ctx, exe, "c13s", 606, 30000)
    cases(ctx, exe, "c13", 12000, 400000)
    cases(ctx, exe, "c13u", 5000, 60000)
    return run.finish(ctx, "every registered option at and around the boundaries of its documented domain (committed table) incl. default and printed domain; random histories of set/set-if-unset/unset/copy/clear with prefixes, protection, "
                      "wrong types, unknown names and own options against a model; solves with explicit defaults, foreign prefixes, other spelling or an options text compared bit by bit with the plain ones; distinct by history",
                      need={"domains_checked": 606, "accepted_settings": 50000, "rejected_settings": 30000, "protected": 2000, "reads": 300000, "solves_compared": 4500, "defaults_set": 100000})


@prop
def C14(ctx):
    exe = prog(ctx, "plain", "d_opt", ["d_opt.cpp"])
    asan = prog(ctx, "asan", "d_opt", ["d_opt.cpp"])
    cases(ctx, exe, "c14", 16000, 500000)
    cases(ctx, exe, "c14f", 8000, 500000)
    cases(ctx, exe, "c14x", 120, 3000, chunk=6)
    cases(ctx, asan, "c14f", 4000, 300000, base=1000000)
    cases(ctx, asan, "c14", 1500, 100000, base=1000000)
    return run.finish(ctx, "generated options texts (comments, quotes, blanks, number notations, prefixes; partly with malformed, unknown or out-of-range entries), mutated and random bytes, very long tokens, directories; read through all entry points, "
                      "with settings made before (partly protected), against a reference reader; part under address and undefined-behaviour sanitizer; distinct by text",
                      need={"valid_texts": 9000, "malformed_texts": 5000, "entries": 60000, "protected_before": 5000, "odd_files": 120})


def java_classes(ctx):
    """class files and JNI header from the repository's Ipopt.java and the harness's subclass"""
    import shutil, subprocess, tempfile
    src = [os.path.join(build.SRC, "Interfaces", "Ipopt.java"), os.path.join(H, "java", "Fwd.java")]
    key = build._h("java1", *[build._read(s) for s in src])
    d = os.path.join(build.OUT, "java", key)
    if not os.path.isdir(d):
        os.makedirs(os.path.dirname(d), exist_ok=True)
        t = tempfile.mkdtemp(dir=os.path.dirname(d))
        r = subprocess.run(["javac", "-nowarn", "-h", t + "/inc", "-d", t + "/cls"] + src, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        if r.returncode:
            raise build.BuildError("javac\n" + r.stdout.decode(errors="replace")[-2000:])
        try:
            os.rename(t, d)
        except OSError:
            shutil.rmtree(t, ignore_errors=True)
    home = os.path.dirname(os.path.dirname(os.path.realpath(shutil.which("javac"))))
    return d + "/cls", [d + "/inc", home + "/include", home + "/include/linux"], home + "/lib/server"


@prop
def C15(ctx):
    exe = prog(ctx, "plain", "d_cif", ["d_cif.cpp"])
    asan = prog(ctx, "asan", "d_cif", ["d_cif.cpp"])
    cls, inc, jvm = java_classes(ctx)
    objs = [ctx.b.obj("plain", os.path.join(H, "d_java.cpp"), inc=inc), ctx.b.obj("plain", os.path.join(build.SRC, "Interfaces", "IpStdJInterface.cpp"), inc=inc)]
    jexe = ctx.b.link("plain", "d_java", objs + ctx.b.lib_jobs("plain"), libs=["-rdynamic", "-L" + jvm, "-Wl,-rpath," + jvm, "-ljvm"])
    cases(ctx, exe, "c15", 4000, 100000)
    cases(ctx, jexe, "c15j", 2500, 60000, chunk=160, args=["--classes", cls])
    cases(ctx, asan, "c15", 800, 20000, base=1000000)
    return run.finish(ctx, "random problems (both index bases, scaling, warm starts, faults, early stops, options by call or options file, re-solves, null outputs) through the C, Fortran and Java (embedded JVM, -Xcheck:jni) interfaces; every evaluation, flag, "
                      "callback argument and answer to an iterate query is compared bit by bit with the C++ interface, final arrays and status too; part under address and undefined-behaviour sanitizer; distinct by problem + options + interface",
                      need={"how:c": 3000, "how:fortran": 2000, "how:java": 2500, "final_compared": 5000, "queries_compared": 20000, "outside_queries": 5000, "refused_creates": 2000})


def ampl_progs(ctx, variant):
    inc = ["/usr/include/ampl-netlib-solvers", os.path.join(build.SRC, "Apps", "AmplSolver")]
    d = os.path.join(build.SRC, "Apps", "AmplSolver")
    tn = ctx.b.obj(variant, d + "/AmplTNLP.cpp", inc=inc)
    mn = ctx.b.obj(variant, d + "/ampl_ipopt.cpp", inc=inc)
    hx = ctx.b.obj(variant, os.path.join(H, "d_ampl.cpp"), inc=inc)
    lib = ctx.b.lib_jobs(variant)
    return ctx.b.link(variant, "d_ampl", [hx, tn] + lib, libs=["-lamplsolver", "-ldl"]), ctx.b.link(variant, "ampl_ipopt", [mn, tn] + lib, libs=["-lamplsolver", "-ldl"])


@prop
def C16(ctx):
    exe, sol = ampl_progs(ctx, "plain")
    cases(ctx, exe, "c16", 4000, 60000, args=["--exe", sol])
    aexe, asol = ampl_progs(ctx, "asan")
    cases(ctx, aexe, "c16", 300, 6000, base=1000000, args=["--exe", asol], percase=10.0)
    return run.finish(ctx, "random models written as .nl files (minimise/maximise, no objective, ranges, integer declarations, start values, duals, scaling and multiplier suffixes) x option channels (command line, environment, options file): "
                      "evaluations, bounds, start, scaling against the analytic model; .sol file against the final report, status codes and AMPL sign conventions; solver program gives the same file; distinct by model + options",
                      need={"evals": 30000, "evals_outside": 1000, "solutions_written": 2000, "program_runs": 1000, "options_checked": 3000, "refused_inputs": 300, "kkt_rows": 5000})


@prop
def C17(ctx):
    exe = prog(ctx, "plain", "d_chk", ["d_chk.cpp"])
    asan = prog(ctx, "asan", "d_chk", ["d_chk.cpp"])
    cases(ctx, exe, "c17", 24000, 600000, chunk=1000)
    cases(ctx, asan, "c17", 1500, 40000, base=1000000)
    return run.finish(ctx, "random problems with planted errors in gradient, Jacobian and Hessian (scaled, shifted, sign, zero, NaN), missing and repeated structure entries, failing evaluations, refused starts x test mode, first index, tolerance, "
                      "perturbation, radius, index base: every line the checker writes is compared with an independent difference quotient at the checker's own reference point; the trace of the following solve equals that without the test",
                      need={"entries_checked": 1000000, "entries_wrong": 15000, "missing_jac": 2000, "missing_hess": 2000, "traces_compared": 10000, "failed_tests": 200, "refused_start": 200})


@prop
def C18(ctx):
    exe = prog(ctx, "plain", "d_qn", ["d_qn.cpp"], libs=["-llapack"])
    asan = prog(ctx, "asan", "d_qn", ["d_qn.cpp"], libs=["-llapack"])
    cases(ctx, exe, "c18q", 7000, 200000, chunk=500)
    cases(ctx, exe, "c18f", 5000, 150000, chunk=500)
    cases(ctx, asan, "c18q", 200, 5000, base=1000000)
    cases(ctx, asan, "c18f", 200, 5000, base=1000000)
    return run.finish(ctx, "random NLPs x limited-memory options (update type, history, initialisation, special update in restoration, skipping, nonlinear variables, reduced space): every quasi-Newton matrix the algorithm uses against an independent implementation of the "
                      "documented update fed from the observed iterates; finite differences: every perturbed point against the bounds, every entry against the analytic derivative",
                      need={"matrices_checked": 30000, "secant_checked": 25000, "definiteness_checked": 25000, "resto_matrices": 2000, "fd_entries": 400000, "tiny_ranges": 300, "fixed_columns": 5000})


@prop
def C19(ctx):
    exe = prog(ctx, "plain", "d_scal", ["d_scal.cpp"])
    asan = prog(ctx, "asan", "d_scal", ["d_scal.cpp"])
    cases(ctx, exe, "c19", 8000, 250000, chunk=500)
    cases(ctx, exe, "c19b", 8000, 250000, chunk=500)
    cases(ctx, asan, "c19", 200, 5000, base=1000000)
    cases(ctx, asan, "c19b", 100, 5000, base=1000000)
    return run.finish(ctx, "random NLPs x scaling method (none, gradient-based with targets, equilibration with an own MC19, user scaling of objective/variables/constraints), maximisation, warm starts: the problem the algorithm sees against the documented scaling of the "
                      "analytic problem at every iterate (point, bounds, objective, constraints, gradient, Jacobian, Hessian, starting multipliers), final report in user's units; maximise f vs minimise -f and power-of-two scaling vs problem scaled by hand bit by bit",
                      need={"iterates_checked": 60000, "warm_starts": 2000, "hessians": 20000, "bounds_checked": 4000, "equilibrated": 800, "maximise_pairs": 3000, "hand_pairs": 3000, "planted_compared": 2000})


@prop
def C20(ctx):
    exe = prog(ctx, "plain", "d_ref", ["d_ref.cpp"])
    asan = prog(ctx, "asan", "d_ref", ["d_ref.cpp"])
    cases(ctx, exe, "c20p", 8000, 250000, chunk=500)
    cases(ctx, exe, "c20f", 8000, 250000, chunk=500)
    cases(ctx, asan, "c20p", 300, 6000, base=1000000)
    cases(ctx, asan, "c20f", 300, 6000, base=1000000)
    return run.finish(ctx, "random NLPs x reformulation (fixed-variable treatments, infinity values, skipped constraints/bounds by TNLPReducer, bounds replaced by constraints, dependency detection, repeated solves): run on the original against a run on the problem reformulated by hand, "
                      "event by event; optimality of the report for the original problem incl. multipliers of fixed variables and removed rows",
                      need={"infinity_pairs": 1500, "reducer_pairs": 1500, "reducer_rows_fortran": 250, "parameter_pairs": 700, "constraint_pairs": 700, "fixed_multipliers": 500, "replaced_bounds": 2000, "reoptimized": 500, "dependency_detection": 1000, "rows_dropped": 900,
                            "kkt_checked": 5000, "planted_compared": 4000, "events_compared": 250000})


@prop
def C21(ctx):
    exe = prog(ctx, "plain", "d_init", ["d_init.cpp"], libs=["-llapack"])
    asan = prog(ctx, "asan", "d_init", ["d_init.cpp"], libs=["-llapack"])
    for m in ("c21", "c21w", "c21r"):
        cases(ctx, exe, m, 10000, 300000, chunk=1000)
        cases(ctx, asan, m, 300, 6000, base=1000000)
    return run.finish(ctx, "random NLPs with starting points inside, outside and on the bounds x push/initialisation/warm-start options: first iterate (x, s, y, z, v) against the documented rules computed independently (dense least squares); "
                      "warm starts keep what need not move; restarts from a reported solution and from a saved entire iterate, with refusing callbacks; distinct by problem and options",
                      need={"first_iterates": 15000, "entries_pushed": 15000, "entries_kept": 25000, "starts_outside": 10000, "pushed_by_frac": 2500, "mu_based_multipliers": 12000, "constant_multipliers": 30000, "ls_y": 2500, "ls_y_discarded": 800, "ls_duals": 1000, "square": 600, "zero_y": 1200,
                            "warm_primals": 7000, "warm_multipliers": 25000, "restarts": 3500, "reoptimized": 1200, "entire_iterates": 1500, "iterate_refused": 250, "refusals": 1200})

