#!/usr/bin/env python3
# Regenerates known_findings.json (the list of fix: commits and of findings recorded but not repaired).
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
FIXED = """18a28cc|C10|Ma97 interface's destructor called ma97_finalise through a NULL pointer when the HSL library could not be loaded
4f3a4f5|C10|limited_memory_max_history=0 with BFGS crashed in the restoration phase
110e66b|C05|a constraint evaluation refused by the user was taken as valid when requested again at the same point
6e067d6|C10|last column pointer of an empty finite-difference Jacobian was not initialized
3ffa4c9|C07|multipliers of fixed variables were missing when the time limit was reached
d9d3083|C04|final gradient evaluation for fixed variables passed new_x=false at a point the user had not seen
4426e56|C01|iterates of square problems were counted several times for acceptable_iter
2eb6385|C03|slack-based scaling made the KKT matrix singular for constraints without bounds
40ad351|C02|no final report was given if the algorithm ended with an internal error
b6c7575|C10|slack-based scaling left factors of the extended KKT system uninitialized
db6e937|C05|a refused constraint evaluation crashed if check_derivatives_for_naninf is set
891df5a|C18|an SR1 update could be undone to a state from before the start or a reset
fdbf414|C04|new_x=false could be passed for a point that is not the one the user has seen last
97bb8d7|C04|perturbed evaluation point was outside of the bounds if the starting point is far outside
339d672|C18|finite-difference derivatives for fixed variables were not initialized
fa99c25|C05|crash if the restoration phase fails at its start while no trial point exists
f5abf1d|C05|no final report if the functions cannot be evaluated again at the final point
2ddddf3|C05|crash if the restoration phase fails while its iterates are initialized
6843603|C07|wrong grad_lag_x and constraint violations from get_curr_violations with fixed variables or scaled inequalities
d63ec7d|C11|entries behind the end of the piecewise penalty list were read
b0b0fef|C07|original bounds were not kept if bound_relax_factor=0 although slack corrections may move bounds
00e62ee|C11|penalty line search used uninitialized values and entries of a previous solve
927da24|C13|numeric options set by SetNumericValue were truncated to 6 digits
d9e403d|C06|mehrotra_algorithm crashed if no affine step had been computed in an iteration
c9a0678|C06|the step that ends the soft restoration phase left the constraint multipliers unchanged and was reported with size 0
85e2d6c|C06|bounds were not moved for corrected slacks if the slacks of the trial point had been requested twice
ac72729|C09|sums and norms of an empty DenseVector are zero also when its homogeneous value is not finite
20cdacc|C09|DenseVector::ElementWiseSelect uses the sign, not the value, of a homogeneous vector
b2b5162|C09|DenseVector::CopyToPos keeps homogeneous values and copies the scalar of the other vector
32ee5d7|C09|DenseVector::AddTwoVectors adds the second vector once, not once per element, when a=0, b=1, c=1
31c00ce|C09|Vector::Scal does not update the cached sum of logarithms for a non-positive factor
f3b5b68|C09|products of dense matrices with homogeneous vectors no longer read a null pointer
78a1a6e|C09|DiagMatrix::SetDiag and IdentityMatrix::SetFactor mark the matrix as changed
f4f4fd1|C09|row norms of an IdentityMatrix are those of its factor
ba7d3db|C09|IdentityMatrix::AddMSinvZ applies the factor of the matrix
e6c4027|C09|DenseSymMatrix row norms read the entries of the lower triangle
252a29a|C09|IpBlasGemv passes the numbers of rows and columns in the right order
4c578b6|C09|DenseGenMatrix row and column norms follow its column-major storage
0335c05|C09|ExpandedMultiVectorMatrix::HasValidNumbers is true if all vectors are valid, not if all are invalid
6f6e1d6|C09|CompoundMatrix column norms go to the block of the column
e6c5eda|C09|DenseSymMatrix::AddMatrix scales this matrix by beta also if alpha is zero
b62cc77|C09|a CompoundMatrix with more block columns than block rows is not diagonal
7de61a6|C09|SymTMatrix row norms keep the values already in the vector unless asked to initialize
43fa467|C09|the product of a DenseGenMatrix without rows or columns sets the result vector
fa6738b|C09|CompoundSymMatrix row norms take the column norms of the transposed blocks
16db48b|C09|the product of an empty DenseSymMatrix does not call BLAS with illegal arguments
1d3a0bd|C09|initialize the tag of the cached validity of a Vector
25e928e|C10|do not leak work arrays when a user callback throws an exception or refuses
07b7a03|C10|do not print a Hessian that was not computed yet in the restoration phase
5b6bc44|C10|do not use a null iterate with warm_start_target_mu
ca6cbf2|C10|initialize the bound multipliers before slacks are computed from them with bound_mult_init_method=mu-based
54b667b|C12|no data races on process-wide state between applications used in different threads
b4d1693|C14|refuse option values that are not (completely) a number or do not fit the type
6b61a2c|C14|read empty quoted strings in options files, and report unterminated ones and read errors
893b2ce|C14|do not accept NaN as value of a number option
dfc1b4b|C14|do not cut long option values when printing the list of user options
3b7e7c8|C13|do not read the uninitialized strictness of a missing lower bound of an option
c818d16|C15|C interface: do not refuse missing multipliers of zero constraints at a warm start
094cbf3|C15|Java interface: hand the final objective value to the user
7e21ee8|C15|Java interface: read as many constraint scaling factors as there are constraints
67147f6|C15|C and Java interface: do not let exceptions escape from queries of the current iterate
a0c86c7|C17|derivative checker: do not test at an undefined point when the starting point is refused
f0c520b|C17|derivative checker: flag derivatives that are not a number
f917d4c|C18|quasi-Newton update in restoration phase: scale the proximal term of all pairs
97558e7|C18|quasi-Newton update in restoration phase: recompute V when eta changes
3446727|C18|TripletToCSRConverter: handle empty rows between nonempty ones
4b46228|C18|finite differences: do not perturb beyond the bounds of narrow variables
ba31a6c|C19|scale initial bound multipliers inversely to the variables
1c03186|C19|equilibration-based scaling used the reciprocal of the column factors
9d0015d|C19|constraint target gradient with an all-zero Jacobian gave infinite scaling factors
aee23c7|C20|TNLPReducer ignored the index style when counting kept Jacobian entries
0b51dd2|C20|report values of constraints that dependency detection removed
9bdffda|C20|replace_bounds passed unsigned initial lower bound multipliers
d9e4409|C20|ReOptimizeNLP rejected problems solved with replace_bounds
de35e8b|C21|least-squares duals used the Jacobian at the point before it was pushed into the bounds"""
KNOWN = [
    {"id": "KF-SLACKSCALE", "property": "C10", "status": "known", "key": ".*(ExpansionMatrix|DenseVector|SEGV|crash).*", "match": "SlackBasedTSymScaling",
     "what": "linear_system_scaling=slack-based together with least_square_init_primal=yes or least_square_init_duals=yes (linear_scaling_on_demand=no) reads the slack variables of the current iterate "
             "(SlackBasedTSymScalingMethod::ComputeSymTScalingFactors) before they have been initialized: null pointer dereference at the start of the solve"},
]
F = []
for l in FIXED.split("\n"):
    c, p, w = l.split("|")
    F.append({"id": "FIX-" + c, "property": p, "status": "fixed", "commit": c, "what": w, "line": "fixed: property=%s %s %s" % (p, c, w)})
json.dump({"findings": KNOWN + F}, open(os.path.join(V, "known_findings.json"), "w"), indent=1)
