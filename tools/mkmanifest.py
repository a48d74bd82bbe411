#!/usr/bin/env python3
# Regenerates /verif/MANIFEST.json from the implemented checks.
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "lib"))
import props
T = {
 "C01": ("runtime monitor: residuals recomputed from the user's functions at every reported optimum", "Oracle independent of the library; convergence tolerances made binding one by one over random NLPs x options."),
 "C02": ("runtime monitor: final-report automaton plus planted infeasible/unbounded/contradictory problems, limits and stops", "Outcome judged against what was planted; stationarity of the violation by an own bounded least-squares solve."),
 "C03": ("runtime monitor: result of each solve compared with the planted KKT point, also of the permuted problem", "Planted strictly complementary solutions; accuracy limits follow the tolerance."),
 "C04": ("online trace-specification monitor of every user callback", "Contract automaton over all callbacks of random solves."),
 "C05": ("fault injection into every callback with containment monitors", "Fault kind, callback and position enumerated/sampled; monitors on termination, reports and use of failed values."),
 "C06": ("online monitor of iterates, step sizes, barrier parameter and filter", "State read through public accessors in every iteration and around every line search."),
 "C07": ("online monitor comparing every reported quantity with an independent evaluation", "All queries are made in the callbacks and recomputed from the user's functions."),
 "C08": ("online monitor of every linear solve: residuals of the Newton system, inertia by LAPACK, dense re-assembly", "Wrapped search-direction and solver objects."),
 "C09": ("model-based monitor: random operation sequences on all vector/matrix types against a dense long-double model (ASan+UBSan)", "Differential model; all types and representations."),
 "C10": ("AddressSanitizer, LeakSanitizer and UBSan over all workloads and API misuse", "Sanitizer reports decide; uninitialised reads via valgrind memcheck on a sample."),
 "C11": ("trace-equality monitor over solve histories", "Bit-exact callback traces compared."),
 "C12": ("ThreadSanitizer and trace equality of concurrent solves", "Races in the executed schedules; stress with barriers and random delays."),
 "C13": ("model-based monitor of the options object against a reference registry", "Random setting sequences incl. boundary values."),
 "C14": ("differential monitor: options file against equivalent calls; byte-mutated files under ASan+UBSan", "Reference reader written from the documentation."),
 "C15": ("differential trace monitor across the C++, C, Fortran and Java interfaces", "Same problem through all interfaces; traces compared bit for bit."),
 "C16": ("differential monitor of the AMPL executable with an own .nl writer and .sol reader", "Generated problems, suffixes, options; .sol compared with direct solve."),
 "C17": ("monitor of derivative-test reports against planted wrong derivatives", "Planted errors in entries; exact reports expected."),
 "C18": ("model-based monitor of quasi-Newton matrices and finite differences", "Dense recursion of the documented updates."),
 "C19": ("monitor of values exchanged with the user under all scalings", "Scaling factors and values recomputed."),
 "C20": ("monitor of returned points and KKT conditions of the original formulation across reformulations", "Metamorphic comparison of reformulated problems."),
 "C21": ("monitor of first iterates and warm starts against the documented initialisation rules", "Rules re-implemented from the documentation."),
 "C22": ("monitor of sensitivity steps against re-solved perturbed problems and dense KKT algebra", "Quadratic error decay observed."),
 "C23": ("monitor of journals, output files and iteration table against a routing model", "Every message delivered to recording journals; traces with and without output compared."),
 "C24": ("model-based monitor of reference counts, observers and caches (ASan)", "Random operation sequences against a reference model."),
 "C25": ("protocol automaton around plugged-in linear solvers with injected faults", "Custom solver objects and run-time loaded mock libraries."),
}
checks = []
for p in sorted(props.PROPS):
    checks.append({"property": p, "quick_cmd": "python3 check.py " + p, "thorough_cmd": "python3 check.py %s --thorough" % p,
                   "evidence_file": "evidence/%s.json" % p, "technique": T[p][0], "level": "exploration",
                   "level_note": T[p][1] + " Bounds: the executions listed in the evidence file; trusts the compiler, MUMPS/LAPACK and the harness."})
ids = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
NA = {}
json.dump({"version": 1, "setup_cmd": "python3 lib/build.py plain asan tsan", "checks": checks,
           "not_applicable": [{"property": i, "reason": NA.get(i, "no check registered yet (work in progress)")} for i in ids if i not in props.PROPS],
           "notes": "No hooks in /repo are needed: monitors use public and internal C++ interfaces; fix: commits only."},
          open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
