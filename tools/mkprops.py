#!/usr/bin/env python3
# Regenerates /verif/properties.jsonl (the source of truth for the property texts).
import json, os
P=[]
def p(id,title,statement,over,qtext,why,files,mech,state=(),observe=(),hook=None):
    assert len(title)<=80,(id,len(title))
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=qtext),why_tests_cant=why,
      anchors=dict(files=files,state=[dict(name=a,meaning=b,where=c) for a,b,c in state],
                   mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=list(observe),hook_needed=hook)))
A='src/Algorithm/'; I='src/Interfaces/'; L='src/LinAlg/'; C='src/Common/'; S='src/Algorithm/LinearSolvers/'
T='The test suite solves a handful of fixed example problems (hs071, a parametric toy, an empty NLP) and greps for "Optimal Solution Found"; '
p('C01','A claim of optimality is always backed by the returned point',
 'Whenever a solve ends with "optimal" (or "solved to acceptable level"), the primal point and multipliers handed to the user satisfy the first-order optimality conditions of the user\'s own problem: stationarity of the Lagrangian, constraint and bound satisfaction, complementarity and multiplier signs, each within the tolerances that were set by options (overall scaled tolerance and the separate unscaled dual, constraint and complementarity tolerances; respectively their acceptable-level counterparts, sustained for the configured number of iterations). Residuals are those recomputed from the user\'s functions at the returned point, up to the documented bound relaxation and rounding.',
 ['inputs','configurations'],'every NLP (convex, nonconvex, degenerate, square, unconstrained) and every setting of tolerances, scaling, barrier, Hessian and linear-algebra options',
 T+'none recomputes the optimality residuals, and the tolerance clauses are never individually binding there.',
 [A+'IpOptErrorConvCheck.cpp',A+'IpIpoptCalculatedQuantities.cpp',A+'IpIpoptAlg.cpp',I+'IpTNLPAdapter.cpp',A+'IpBacktrackingLineSearch.cpp'],
 [('scaled error and separate unscaled tolerances','OptimalityErrorConvergenceCheck::CheckConvergence'),('s_d/s_c scaled residuals','IpoptCalculatedQuantities::curr_nlp_error')],
 observe=['TNLP::finalize_solution','ApplicationReturnStatus'])
p('C02','Every non-optimal outcome is reported truthfully and exactly once',
 'Each accepted solve call ends with exactly one final report to the user whose status agrees with the returned code and with what happened: iteration-limit exits happen at exactly the limit, a stop request is honoured at that iteration, "infeasible" is only claimed at points that violate the constraints and are (near) stationary for the violation, "diverging" only beyond the configured magnitude, contradictory bounds, too few degrees of freedom and invalid options are rejected as such without iterating. A problem with no feasible point or with objective unbounded below is never reported as solved.',
 ['inputs','configurations','histories'],'every problem, every limit value including 0, and every iteration at which the user asks to stop (also inside the restoration phase)',
 T+'only the success outcome is exercised.',
 [A+'IpIpoptAlg.cpp',A+'IpOptErrorConvCheck.cpp',A+'IpRestoConvCheck.cpp',A+'IpRestoMinC_1Nrm.cpp',I+'IpIpoptApplication.cpp',A+'IpBacktrackingLineSearch.cpp'],
 [('status to return-code mapping and final report','IpoptApplication::call_optimize'),('limits and user stop','OptimalityErrorConvergenceCheck / RestoConvergenceCheck')],
 observe=['ApplicationReturnStatus','TNLP::finalize_solution','TNLP::intermediate_callback'])
p('C03','Well-posed convex problems are solved to their known solution',
 'For a strictly convex problem with regular constraints, every supported algorithmic configuration (barrier strategy, line search, scaling, fixed-variable treatment, bound relaxation, exact or limited-memory second derivatives, Mehrotra predictor, linear-solver settings) reports success and returns the problem\'s unique minimiser, objective value and multipliers within accuracy implied by the tolerance. The answer does not depend on variable or constraint order, on how the sparse entries are listed, on the index base, or on the starting point.',
 ['inputs','configurations'],'all strictly convex problems with planted Karush-Kuhn-Tucker points, all permutations/representations of them, all starting points, all option settings in the supported set',
 T+'one start, one representation and default options per problem.',
 [A+'IpIpoptAlg.cpp',A+'IpAlgBuilder.cpp',A+'IpFilterLSAcceptor.cpp',A+'IpAdaptiveMuUpdate.cpp',A+'IpMonotoneMuUpdate.cpp',I+'IpTNLPAdapter.cpp',S+'IpMumpsSolverInterface.cpp'],
 [('interior-point iteration','IpoptAlgorithm::Optimize'),('strategy selection','AlgorithmBuilder')],observe=['TNLP::finalize_solution'])
p('C04','The evaluation-callback contract is kept on every call',
 'In every solve the user\'s callbacks are called in the documented order and with documented arguments: sizes equal those announced, structure is requested with null value arrays before any values, the "new point" flags are false only if the same point (multipliers) was passed before, fixed variables always carry their fixed value, points never leave the (slightly relaxed) variable bounds, and no arrays other than the documented ones are supplied. Functions declared constant or linear by options are not re-evaluated, second derivatives are never requested under quasi-Newton approximation, and no callback is called after the final report.',
 ['inputs','configurations','histories'],'every problem and option setting, at every single call of every callback',
 T+'the example callbacks ignore the flags and never validate what they are given.',
 [I+'IpTNLPAdapter.cpp',A+'IpOrigIpoptNLP.cpp',I+'IpStdInterfaceTNLP.cpp',A+'IpDefaultIterateInitializer.cpp'],
 [('tag-based new_x/new_lambda','TNLPAdapter::update_local_x / update_local_lambda'),('constant-function caching','OrigIpoptNLP')],observe=['TNLP callbacks'])
p('C05','A failing evaluation callback is contained',
 'If any user evaluation reports failure or yields a non-finite value, at any call and any number of times, the solve still terminates in bounded work with a documented status and a single final report, without crash, exception or leak. Iterates that could not be evaluated are never accepted or reported as solution, values of a failed evaluation are never used, and a transient failure at a trial point is survived by shortening the step.',
 ['fault_sequences','inputs','configurations'],'every position k of a failing call among all evaluation calls of a solve, each kind of callback, single, periodic and permanent failures, and NaN/Inf in place of a failure return',
 'No test makes an evaluation fail; the failure positions are as many as the calls of a solve.',
 [A+'IpOrigIpoptNLP.cpp',I+'IpTNLPAdapter.cpp',A+'IpBacktrackingLineSearch.cpp',A+'IpIpoptAlg.cpp',I+'IpIpoptApplication.cpp'],
 [('Eval_Error and step halving','BacktrackingLineSearch::DoBacktrackingLineSearch'),('Invalid_Number_Detected','IpoptApplication::call_optimize')],observe=['TNLP callbacks','ApplicationReturnStatus'])
p('C06','Every iterate is strictly interior and each step obeys the barrier rules',
 'In every iteration all slacks and bound multipliers are strictly positive, reported step sizes lie in (0,1] and respect the fraction-to-the-boundary rule, the new iterate is the old one moved along the computed direction, the barrier parameter is positive and, under the monotone strategy, never increases and stays at or above its documented floor, and iteration numbers increase by one. In filter mode an accepted iterate is never dominated by a previously recorded filter entry and the filter holds no comparable pairs.',
 ['inputs','configurations','histories'],'all iterations of all solves, including restoration, watchdog, soft restoration and second-order-correction steps',
 'No test looks at intermediate iterates.',
 [A+'IpBacktrackingLineSearch.cpp',A+'IpFilterLSAcceptor.cpp',A+'IpFilter.cpp',A+'IpIpoptAlg.cpp',A+'IpMonotoneMuUpdate.cpp',A+'IpAdaptiveMuUpdate.cpp',A+'IpIpoptCalculatedQuantities.cpp'],
 [('fraction to the boundary','IpoptCalculatedQuantities::*_frac_to_the_bound'),('filter','Filter / FilterLSAcceptor'),('barrier update','MonotoneMuUpdate / AdaptiveMuUpdate')],observe=['TNLP::intermediate_callback','IpoptData'])
p('C07','Progress, statistics and results reported to the user are true',
 'Everything the solver reports about an iterate equals what an independent evaluation of the user\'s functions at that iterate gives: the per-iteration callback values, the current-iterate and current-violation queries (scaled and unscaled), the final objective, constraint values and multipliers, the solve statistics (iteration and evaluation counts, final residuals) and the printed summary agree with each other and with the actual calls made. Queries made at times when no iterate exists are refused without side effect, and querying never changes the course of the solve.',
 ['inputs','configurations','histories'],'all iterations of all solves in regular and restoration mode, with and without scaling, fixed variables, and every subset of requested outputs',
 T+'getcurr.cpp checks one problem with fixed settings.',
 [I+'IpTNLP.cpp',I+'IpTNLPAdapter.cpp',A+'IpIpoptCalculatedQuantities.cpp',A+'IpOrigIpoptNLP.cpp',I+'IpSolveStatistics.cpp',A+'IpOptErrorConvCheck.cpp',A+'IpRestoConvCheck.cpp',A+'IpRestoIpoptNLP.cpp'],
 [('cached calculated quantities','IpoptCalculatedQuantities (CachedResults)'),('mapping back to user space','TNLPAdapter::Resort*')],observe=['intermediate_callback','get_curr_iterate','get_curr_violations','SolveStatistics'])
p('C08','Search directions solve the intended linear system',
 'Each computed search direction satisfies the (perturbed) primal-dual Newton equations of the current iterate, formed from the user\'s derivatives, to within a small relative residual, with the regularisation that is reported. The matrix that was factorised had as many negative eigenvalues as there are constraints whenever the direction is used for descent, and linear systems handed to the sparse solver represent the intended matrix entry for entry whatever the order or duplication of entries.',
 ['inputs','configurations','histories'],'all iterations of all solves, all sparsity patterns, scaling methods and solver settings; all triplet inputs to the compressed-format conversion',
 'The tests never look at a linear system; indefinite and singular systems hardly occur in them.',
 [A+'IpPDFullSpaceSolver.cpp',A+'IpPDPerturbationHandler.cpp',A+'IpStdAugSystemSolver.cpp',S+'IpTSymLinearSolver.cpp',S+'IpTripletToCSRConverter.cpp',S+'IpMumpsSolverInterface.cpp',A+'IpPDSearchDirCalc.cpp'],
 [('iterative refinement and inertia correction','PDFullSpaceSolver / PDPerturbationHandler'),('triplet to CSR','TripletToCSRConverter')],observe=['IpoptData::delta','SparseSymLinearSolverInterface'])
p('C09','Vector and matrix operations equal plain dense arithmetic',
 'For every vector and matrix type (dense, compound, sparse, expansion, diagonal, identity, zero, scaled, sum, transposed, multi-vector, low-rank) every operation gives the mathematically defined result for its arguments, in every internal representation, for any sequence of operations, including zero dimensions, zero factors and aliases allowed by the interface. Values that are remembered between operations (norms, products, tags) are never stale after a modification.',
 ['inputs','histories','programs'],'all operation sequences over all object types, dimensions, factors (0, +-1, general) and homogeneous/explicit representations',
 'There are no unit tests of the linear algebra layer; solves touch a small part of the operation/representation space.',
 [L+'IpDenseVector.cpp',L+'IpCompoundVector.cpp',L+'IpVector.hpp',L+'IpMatrix.hpp',L+'IpExpansionMatrix.cpp',L+'IpCompoundMatrix.cpp',L+'IpCompoundSymMatrix.cpp',L+'IpScaledMatrix.cpp',L+'IpSumMatrix.cpp',L+'TMatrices/IpGenTMatrix.cpp',L+'TMatrices/IpSymTMatrix.cpp',L+'TMatrices/IpTripletHelper.cpp',L+'IpDenseGenMatrix.cpp',L+'IpMultiVectorMatrix.cpp',L+'IpLowRankUpdateSymMatrix.cpp',C+'IpCachedResults.hpp',C+'IpTaggedObject.hpp'],
 [('change tags and cached results','TaggedObject / CachedResults')],observe=['Vector/Matrix public API'])
p('C10','No memory error, undefined behaviour or leak on any supported use',
 'No sequence of supported API calls, problem data and option settings makes the library read or write outside its objects, use freed or uninitialised memory, perform undefined arithmetic, or keep memory after the application and all user references are released. This includes error exits, exceptions and stops at any point.',
 ['inputs','configurations','histories','fault_sequences'],'all API histories (create, set options, solve, re-solve, query, destroy) over all interfaces, problems and failure points',
 'The suite runs uninstrumented binaries on a few regular solves.',
 [I+'IpTNLPAdapter.cpp',I+'IpStdCInterface.cpp',I+'IpIpoptApplication.cpp',A+'IpRestoIpoptNLP.cpp',A+'IpLimMemQuasiNewtonUpdater.cpp',C+'IpSmartPtr.hpp',C+'IpRegOptions.cpp',I+'IpTNLPReducer.cpp'],
 [('reference counting','SmartPtr/ReferencedObject')],observe=['AddressSanitizer','UndefinedBehaviorSanitizer','LeakSanitizer','valgrind'])
p('C11','Solves are deterministic, repeatable and independent of history',
 'Solving the same problem with the same options gives bit-identical iterates and results, no matter whether it is the first or a later solve of the application object, which problems (also failing ones) were solved before, whether other solver objects exist, or whether the solve is started from inside a callback of another solve. Re-optimising an unchanged or data-changed problem of the same structure gives what a fresh application would give.',
 ['histories','inputs','configurations'],'all sequences of solve/re-solve/option changes on one or several applications, nested solves, preceding failures',
 T+'each process solves one problem once (recursive_nlp nests one fixed pair).',
 [I+'IpIpoptApplication.cpp',A+'IpIpoptData.cpp',A+'IpOrigIpoptNLP.cpp',I+'IpTNLPAdapter.cpp',A+'IpAlgBuilder.cpp',A+'IpPDPerturbationHandler.cpp',C+'IpTaggedObject.cpp'],
 [('re-initialisation of strategy objects','AlgorithmStrategyObject::Initialize')],observe=['evaluation-call trace','finalize_solution'])
p('C12','Concurrent solves in separate threads do not interfere',
 'Applications that are used by different threads at the same time, without sharing objects, behave exactly as if each ran alone: no data race, no deadlock, and results identical to those of the sequential run.',
 ['schedules','inputs'],'all interleavings of any number of threads creating, solving, re-solving and destroying their own applications',
 'No test uses a second thread.',
 [S+'IpMumpsSolverInterface.cpp',C+'IpTaggedObject.cpp',A+'IpIpoptAlg.cpp',C+'IpUtils.cpp',I+'IpStdCInterface.cpp'],
 [('mutex around MUMPS','MumpsSolverInterface'),('thread-local tags','TaggedObject')],observe=['ThreadSanitizer','evaluation-call trace'])
p('C13','Options are type- and range-checked, and what is set is what is used',
 'For every registered option, a setting is accepted exactly if its type is right and its value lies in the documented domain (with documented strictness of bounds, case-insensitive enumeration values, and the ban on overwriting protected settings); a rejected setting changes nothing. A later read returns the set value, else the documented default; a prefixed setting applies only to its prefix, and removing a setting restores the default.',
 ['inputs','histories'],'all options, all values, all sequences of set/read/unset calls and prefixes',
 'Tests set a few valid options and never read them back or set invalid ones.',
 [C+'IpOptionsList.cpp',C+'IpRegOptions.cpp',C+'IpOptionsList.hpp',I+'IpStdCInterface.cpp'],
 [('registration with bounds','RegisteredOption'),('typed get/set','OptionsList')],observe=['OptionsList Set*/Get*','AddIpopt*Option'])
p('C14','Reading an options file equals making the same settings by calls',
 'For every options text, reading it gives the same settings as the equivalent sequence of individual settings: comments, blank lines and quoted strings are handled as documented, numbers in documented notations are accepted, a malformed, unknown or out-of-range entry is reported as an error and nothing is silently misread. No byte sequence in the file can crash the reader or make it loop, and settings protected by the program are not overridden unless allowed.',
 ['inputs'],'all byte strings as options files or streams, incl. missing final newline, over-long tokens, binary data',
 'No test reads an options file with more than trivial content.',
 [C+'IpOptionsList.cpp',I+'IpIpoptApplication.cpp'],[('tokenizer','OptionsList::ReadFromStream / readnexttoken')],observe=['IpoptApplication::Initialize','OptionsList::ReadFromStream'])
p('C15','All language interfaces solve the same problem identically',
 'The C, Fortran and Java interfaces pass problem data, options, scaling, start values and multipliers through unchanged: the same problem with the same options gives the same sequence of evaluations, the same status and the same final point, objective, constraint values and multipliers as the C++ interface, under both index bases. Invalid arguments are refused without side effects, user data pointers are returned untouched, and the intermediate callback and current-iterate queries give the same values.',
 ['inputs','configurations','histories'],'all problems, options, optional (null) output arguments and call orders of each interface',
 T+'each interface is run on hs071 only.',
 [I+'IpStdCInterface.cpp',I+'IpStdInterfaceTNLP.cpp',I+'IpStdFInterface.c',I+'IpStdJInterface.cpp',I+'Ipopt.java'],
 [('adapters','StdInterfaceTNLP, IpStdFInterface, Java_org_coinor_Ipopt_*')],observe=['callbacks and results of each interface'])
p('C16','The AMPL solver solves the .nl problem and writes a faithful solution file',
 'For every .nl problem the AMPL executable solves the problem encoded in the file (objective sense, bounds, ranges, suffixes for initial multipliers and scaling, options given on the command line or in the environment) and writes a .sol file whose message, solve-result code, primal and dual values are those of the solve, with the sign convention of AMPL. Command-line settings, options file and environment have the documented effect.',
 ['inputs','configurations'],'all smooth .nl problems, objective senses, suffixes and option channels',
 'The suite runs one .nl file and checks only for the success message.',
 ['src/Apps/AmplSolver/AmplTNLP.cpp','src/Apps/AmplSolver/ampl_ipopt.cpp'],[('ASL bridge','AmplTNLP'),('option channels','AmplOptionsList')],observe=['.sol file','exit status'])
p('C17','The derivative checker flags exactly the wrong derivatives',
 'For every problem, the derivative test reports an entry of gradient, Jacobian or Hessian if and only if the user\'s value deviates from the finite-difference value by more than the given tolerance, names the right entry and the right number of errors, and handles missing and repeated entries of the sparse structure. Running the check does not change the solve that follows.',
 ['inputs','configurations'],'all problems, all positions and sizes of a wrong derivative, all test modes, first-index settings, tolerances and index bases',
 'No test runs the derivative checker with an error present.',
 [I+'IpTNLPAdapter.cpp'],[('finite-difference comparison','TNLPAdapter::CheckDerivatives')],observe=['journal output of the checker','TNLP callbacks'])
p('C18','Quasi-Newton and finite-difference approximations are what they claim',
 'Under limited-memory approximation the matrix used for second derivatives equals the documented BFGS or SR1 update formula applied to the last accepted step/gradient-difference pairs (secant equation, symmetry, positive definiteness for BFGS with damping/skipping, documented initial scaling and memory length, restricted to declared nonlinear variables). Finite-difference Jacobians and gradients agree with the true derivatives to first order, do not evaluate beyond bounds, and leave fixed variables alone.',
 ['inputs','configurations','histories'],'all iterations of quasi-Newton solves over all memory lengths, update types, initial scalings and nonlinear-variable subsets',
 'Only the R and one C example run quasi-Newton, checked for termination only.',
 [A+'IpLimMemQuasiNewtonUpdater.cpp',L+'IpLowRankUpdateSymMatrix.cpp',A+'IpLowRankAugSystemSolver.cpp',A+'IpLowRankSSAugSystemSolver.cpp',I+'IpTNLPAdapter.cpp'],
 [('update','LimMemQuasiNewtonUpdater::UpdateHessian')],observe=['IpoptData::W','TNLP callbacks'])
p('C19','Scaling is invisible to the user',
 'Whatever scaling method or factors are used (none, gradient-based, equilibration, user factors, objective factor including negative ones for maximisation), all values exchanged with the user are in the user\'s units and sign, the problem solved is the user\'s, and factors are applied exactly as documented (gradient-based factors never enlarge, respect the thresholds, and are computed at the starting point).',
 ['inputs','configurations'],'all problems, all positive/negative scale factors of any magnitude, all scaling methods and thresholds',
 T+'with default scaling that is inactive for them.',
 [A+'IpNLPScaling.cpp',A+'IpGradientScaling.cpp',A+'IpEquilibrationScaling.cpp',A+'IpUserScaling.cpp',A+'IpOrigIpoptNLP.cpp',I+'IpTNLPAdapter.cpp'],
 [('scaling object','NLPScalingObject / StandardScalingBase')],observe=['TNLP callbacks','finalize_solution','get_curr_iterate scaled/unscaled'])
p('C20','Problem reformulations do not change the solution reported to the user',
 'However fixed variables are treated, whether bounds are turned into constraints, constraints or variables are removed through the reduction wrapper, redundant equations are detected and dropped, or infinite bounds are given by different large numbers, the user sees the same problem: the returned point has full length and original order, fixed variables have exactly their value, absent bounds have zero multipliers, and values and multipliers satisfy the optimality conditions of the original formulation. Returned points lie within the original bounds when that is requested.',
 ['inputs','configurations'],'all patterns of fixed/free/one-sided/ranged variables and constraints and all reformulation options',
 'The tests contain no fixed variable, no free row and no redundant constraint.',
 [I+'IpTNLPAdapter.cpp',I+'IpTNLPReducer.cpp',A+'IpNLPBoundsRemover.cpp',S+'IpTSymDependencyDetector.cpp',A+'IpOrigIpoptNLP.cpp'],
 [('index maps','TNLPAdapter::GetSpaces / Resort*'),('honor_original_bounds','OrigIpoptNLP::FinalizeSolution')],observe=['finalize_solution'])
p('C21','Starting points and warm starts are honoured',
 'The first iterate is the user\'s starting point moved into the interior of the bounds only as far as the documented push parameters require (exactly the user\'s point if it is far enough inside); multipliers are initialised by the selected documented rule. With warm start the supplied multipliers are used (moved only as far as documented), restarting from a solution reproduces that solution in few iterations, and required but refused start values end the solve with an error.',
 ['inputs','configurations'],'all start points inside, on and outside the bounds, all bound types and push parameters, all warm-start data',
 T+'from fixed interior starts; the warm start in the C example is not checked.',
 [A+'IpDefaultIterateInitializer.cpp',A+'IpWarmStartIterateInitializer.cpp',A+'IpLeastSquareMults.cpp',I+'IpTNLPAdapter.cpp'],
 [('push to interior','DefaultIterateInitializer::push_variables')],observe=['intermediate_callback at iteration 0'])
p('C22','Sensitivity results equal the derivative of the solution',
 'For a regular solution, sensitivity steps computed for a parameter perturbation equal the first-order change of the true solution (primal and dual), so that the error against re-solving the perturbed problem vanishes quadratically in the perturbation; bound checking keeps the predicted point within its bounds, and the reduced Hessian and its eigenvalues equal those of the projected Lagrangian Hessian.',
 ['inputs','configurations'],'all parametric problems with regular solutions, numbers of parameters and perturbation directions and sizes',
 'Three example programs are run and checked for the success message only.',
 ['contrib/sIPOPT/src/SensApplication.cpp','contrib/sIPOPT/src/SensAlgorithm.cpp','contrib/sIPOPT/src/SensStdStepCalc.cpp','contrib/sIPOPT/src/SensIndexSchurData.cpp','contrib/sIPOPT/src/SensIndexPCalculator.cpp','contrib/sIPOPT/src/SensReducedHessianCalculator.cpp','contrib/sIPOPT/src/SensMetadataMeasurement.cpp','contrib/sIPOPT/src/SensDenseGenSchurDriver.cpp'],
 [('Schur complement','SensAlgorithm / SchurDriver')],observe=['sens_sol_state_* metadata','reduced Hessian output'])
p('C23','Output is complete, correctly routed and free of side effects',
 'Every message is delivered to exactly the journals whose level for its category admits it, completely and in order, whatever its length; output files contain everything when the solve returns, are truncated or appended as requested, and the iteration log\'s columns match the iterates. Verbosity, output files and names supplied by the user (of any content) change nothing in the course or result of a solve.',
 ['inputs','configurations','histories'],'all print levels, journal set-ups, message lengths, name strings and output options',
 'Tests only search stdout for one phrase.',
 [C+'IpJournalist.cpp',A+'IpOrigIterationOutput.cpp',A+'IpRestoIterationOutput.cpp',I+'IpIpoptApplication.cpp',L+'IpDenseVector.cpp'],
 [('journal filtering','Journalist/Journal')],observe=['Journal output','output_file'])
p('C24','Reference-counted objects live exactly as long as they are referenced',
 'An object managed by the library\'s smart pointers is destroyed exactly once, exactly when its last reference disappears, under any sequence of copy, assign, reset, exception and container operations; observers are told of changes and destruction and never notified after detaching; cached results are returned only for the exact dependencies they were stored for and expire when any dependency changes or dies.',
 ['histories'],'all sequences of smart-pointer, observer/subject and cache operations',
 'No test exercises these classes directly.',
 [C+'IpSmartPtr.hpp',C+'IpReferenced.hpp',C+'IpObserver.hpp',C+'IpObserver.cpp',C+'IpCachedResults.hpp',C+'IpTaggedObject.hpp'],
 [('reference count','ReferencedObject'),('observer protocol','Observer/Subject'),('dependency tags','CachedResults')],observe=['public class API'])
p('C25','Exchangeable linear solvers are driven by their protocol',
 'Every linear solver that can be plugged in (custom solver object, or HSL/Pardiso code loaded at run time) is called in its documented order with the correct matrix structure and values, its status and inertia reports are acted upon (refactorisation with more memory, more accurate pivoting, singularity and wrong-inertia handling), and the solve gives the same answer as with any other correct solver. A missing or incomplete solver library is reported as an error before iterating.',
 ['configurations','fault_sequences','inputs'],'all matrices, all sequences of solver outcomes (success, singular, wrong inertia, needs memory, fatal) and all selectable solvers',
 'Only MUMPS on well-behaved systems is run; the other interfaces are compiled but never executed.',
 [S+'IpTSymLinearSolver.cpp',S+'IpMa27TSolverInterface.cpp',S+'IpMa57TSolverInterface.cpp',S+'IpMa97SolverInterface.cpp',S+'IpPardisoSolverInterface.cpp',S+'IpSparseSymLinearSolverInterface.hpp',C+'IpLibraryLoader.cpp',A+'IpAlgBuilder.cpp'],
 [('solver contract','SparseSymLinearSolverInterface'),('run-time loading','LibraryLoader')],observe=['calls received by the plugged-in solver'])
here=os.path.dirname(os.path.abspath(__file__))
with open(os.path.join(here,'..','properties.jsonl'),'w') as f:
    for x in P: f.write(json.dumps(x)+'\n')
print(len(P))
