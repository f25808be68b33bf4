#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one place to edit the statements)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe, state=None, hook=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech], "observe_at": observe, "hook_needed": hook}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})
C = "include/cppad/core/"; L = "include/cppad/local/"; U = "include/cppad/utility/"

p("C01", "Replaying a recording computes the user's algorithm",
  "For every algorithm recorded with AD<Base> and every argument at which no comparison recorded on the tape changes its result, zero order forward mode returns (to rounding) exactly what the same algorithm returns when run directly in Base arithmetic, and the AD values seen while recording are those values too. This holds for every combination of constant, dynamic parameter and variable operands, every operator and math function overload, compound assignment, conditional expression, discrete function and VecAD access, and for any size of recording.",
  ["programs", "inputs"], "all operation sequences over all operators, all operand kinds (constant/dynamic/variable, AD/Base/int/double), all arguments in the domain",
  "Tests replay a few hand-written formulas, nearly always at the point of recording and with variable operands; operator x operand-kind x value (0, 1, -1 special cases) x tape-size combinations are unbounded.",
  [C+"add.hpp", C+"mul.hpp", C+"div.hpp", C+"pow.hpp", C+"azmul.hpp", C+"cond_exp.hpp", C+"std_math_11.hpp", C+"vec_ad/vec_ad.hpp", C+"discrete/discrete.hpp", L+"sweep/forward_0.hpp", L+"record/recorder.hpp", L+"var_op/"],
  [("operator overloads choose the op code from operand kinds and fold identical zero/one", C+"mul.hpp"), ("zero order sweep", L+"sweep/forward_0.hpp")],
  ["ADFun::Forward(0, x)", "Value(AD) while recording"])
p("C02", "Forward mode Taylor coefficients of every order are correct",
  "For every recorded function, every order q and every input Taylor polynomial x(t), forward mode returns the Taylor coefficients of f(x(t)) to rounding. The answer is the same whether the orders are computed all at once, one at a time, or in any grouping, and whatever coefficient capacity was requested beforehand.",
  ["programs", "inputs", "histories"], "all functions, orders, input curves, and groupings of order calls / capacity requests",
  "Tests check orders up to about 3 for single operators at one point against hand formulas; higher orders, mixed operand kinds and capacity interactions are not covered.",
  [C+"forward/forward.hpp", L+"sweep/forward_any.hpp", L+"var_op/", C+"capacity_order.hpp"],
  [("any order sweep and per operator forward recurrences", L+"sweep/forward_any.hpp"), ("taylor coefficient storage and capacity", C+"capacity_order.hpp")],
  ["ADFun::Forward(q, xq)", "ADFun::size_order", "ADFun::capacity_order"])
p("C03", "Multiple-direction forward mode agrees with single directions",
  "For every recorded function, order and number of directions r, the coefficients that multiple-direction forward mode computes for direction l are those that single-direction forward mode computes for that direction alone, independently of the other directions and of r.",
  ["programs", "inputs", "histories"], "all functions, orders, direction counts, direction sets",
  "Tests use a handful of functions with 2-3 directions; each operator has a separate multi-direction recurrence and storage layout.",
  [C+"forward/forward.hpp", L+"sweep/forward_dir.hpp", L+"var_op/", C+"capacity_order.hpp"],
  [("multi-direction sweep", L+"sweep/forward_dir.hpp")], ["ADFun::Forward(q, r, xq)", "ADFun::size_direction"])
p("C04", "Reverse mode of every order is the derivative of forward mode",
  "For every recorded function, every order q, every weighting (either form of the weight vector) and every input polynomial, reverse mode returns the partial derivatives, with respect to every Taylor coefficient of the arguments, of the weighted Taylor coefficients of the results. Reverse mode does not alter the stored forward coefficients, so repeated or interleaved reverse calls of different orders give the same answers.",
  ["programs", "inputs", "histories"], "all functions, orders, weights, input curves",
  "Each operator has its own reverse recurrence; tests exercise mostly first order reverse at one point.",
  [C+"reverse.hpp", L+"sweep/reverse.hpp", L+"var_op/"], [("reverse sweep and per operator reverse recurrences", L+"sweep/reverse.hpp")],
  ["ADFun::Reverse(q, w)"])
p("C05", "First and second derivative drivers return the true derivatives",
  "Jacobian, Hessian (any result component or weighting), ForOne, RevOne, ForTwo and RevTwo return, for any function, the exact (to rounding) first and second partial derivatives, in the documented layout, for every combination of numbers of arguments and results (including one, and more of either than the other).",
  ["programs", "inputs", "configurations"], "all functions, domain/range sizes, index selections and weight vectors",
  "Tests use fixed small functions; the drivers pick forward or reverse mode from the sizes, and repeated or unordered index selections are not sampled.",
  [C+"jacobian.hpp", C+"hessian.hpp", C+"for_one.hpp", C+"rev_one.hpp", C+"for_two.hpp", C+"rev_two.hpp"],
  [("driver selects forward or reverse by cost", C+"jacobian.hpp")], ["ADFun::Jacobian", "ADFun::Hessian", "ADFun::ForOne", "ADFun::RevOne", "ADFun::ForTwo", "ADFun::RevTwo"])
p("C06", "Optimizing a function never changes what it computes",
  "For every recorded function and every combination of optimization options, the optimized function has the same values, derivatives of every order, dependence on dynamic parameters, comparison changes (unless comparisons were asked to be removed; identical comparisons may be counted once) and printed output as the original, to rounding, at every argument, including when optimized repeatedly. It is never larger in variables than the original.",
  ["programs", "inputs", "configurations"], "all operation sequences (shared and nested sub-expressions, long sums, nested conditional expressions, VecAD, discrete and atomic calls, dead code), all option strings, all arguments away from the recording point",
  "Tests optimize a few tens of fixed functions; the optimizer's matching, cumulative-sum, conditional-skip and dead-code decisions interact combinatorially.",
  [C+"optimize.hpp", L+"optimize/", L+"val_graph/", L+"var_op/csum_op.hpp", L+"var_op/cskip_op.hpp"],
  [("reverse dependency analysis, CSE by hash, cumulative sums, conditional skip", L+"optimize/optimize_run.hpp"), ("value graph optimizer", L+"val_graph/val_optimize.hpp")],
  ["ADFun::optimize", "ADFun::Forward", "ADFun::Reverse", "ADFun::compare_change_number"])
p("C07", "Sparsity patterns and dependency reports never miss a dependency",
  "Every Jacobian or Hessian sparsity pattern CppAD computes (forward, reverse and subgraph; packed-bool and set internal representations; old and new interfaces; any seed pattern, range/domain selection and transpose) contains every entry whose derivative can be non-zero, in the coordinates documented; dependency patterns additionally contain every entry on which the value depends, even with zero derivative. For functions where each result element depends structurally on its arguments through non-degenerate operators, no spurious entries are reported and all methods agree.",
  ["programs", "configurations"], "all functions, all sparsity interfaces, representations and selections",
  "Tests compare fixed patterns on small functions; conservative propagation is implemented once per operator per direction per set type.",
  [C+"for_jac_sparsity.hpp", C+"rev_jac_sparsity.hpp", C+"for_hes_sparsity.hpp", C+"rev_hes_sparsity.hpp", C+"subgraph_sparsity.hpp", C+"for_sparse_jac.hpp", C+"rev_sparse_jac.hpp", C+"rev_sparse_hes.hpp", C+"for_sparse_hes.hpp", L+"sweep/for_jac.hpp", L+"sweep/rev_jac.hpp", L+"sweep/for_hes.hpp", L+"sweep/rev_hes.hpp", L+"subgraph/"],
  [("sparsity sweeps over the tape", L+"sweep/for_jac.hpp"), ("subgraph search", L+"subgraph/")], ["for_jac_sparsity", "rev_jac_sparsity", "for_hes_sparsity", "rev_hes_sparsity", "subgraph_sparsity", "ForSparseJac", "RevSparseJac", "RevSparseHes", "ForSparseHes"])
p("C08", "Sparse derivative calculations equal the dense derivatives",
  "For every function, valid sparsity pattern, requested subset of entries, method, coloring algorithm and group size, the sparse Jacobian and Hessian routines (including the subgraph ones and the older interfaces) return exactly the corresponding entries of the dense derivative in the requested order. Reusing the work information for other arguments, or after evaluating other things with the same function, does not change this.",
  ["programs", "inputs", "configurations", "histories"], "all functions, patterns, subsets in any order, methods and colorings, reuse histories",
  "Tests use a few fixed patterns; a wrong coloring or recovery shows only on particular pattern/subset combinations.",
  [C+"sparse_jac.hpp", C+"sparse_hes.hpp", C+"sparse_jacobian.hpp", C+"sparse_hessian.hpp", C+"subgraph_jac_rev.hpp", C+"subgraph_reverse.hpp", L+"color_general.hpp", L+"color_symmetric.hpp", "cppad_lib/cppad_colpack.cpp"],
  [("coloring and compressed recovery", L+"color_general.hpp"), ("symmetric coloring", L+"color_symmetric.hpp"), ("subgraph reverse", C+"subgraph_reverse.hpp")],
  ["sparse_jac_for", "sparse_jac_rev", "sparse_hes", "subgraph_jac_rev", "SparseJacobian*", "SparseHessian"])
p("C09", "Changing dynamic parameters is the same as re-recording with them",
  "For every recorded function and any sequence of dynamic parameter settings, values and derivatives of every order after a setting equal those of a fresh recording of the algorithm with those parameter values as constants, including parameters computed from other dynamic parameters by any operator. Setting new values never needs a new recording and leaves no trace of earlier settings.",
  ["programs", "inputs", "histories"], "all dependence of operations on dynamic parameters, all sequences of settings",
  "Tests check a few operators with one re-setting; each operator has a separate dynamic evaluation and recording-time folding rule.",
  [C+"new_dynamic.hpp", L+"sweep/dynamic.hpp", L+"record/dyn_recorder.hpp", L+"play/dyn_player.hpp", L+"op_code_dyn.hpp"],
  [("dynamic parameter sweep", L+"sweep/dynamic.hpp")], ["ADFun::new_dynamic", "ADFun::Forward", "ADFun::Reverse"])
p("C10", "Comparison changes are counted exactly",
  "For every recorded function and argument, the reported number of comparison changes is exactly the number of recorded comparisons whose result at that argument and those dynamic parameters differs from recording time, and the reported operator index is that of the requested change. After optimization that keeps comparisons, the count is still zero exactly when it was (identical comparisons may be counted once). When the count is zero the replay equals the algorithm, and recording again with the abort index stops at exactly that comparison.",
  ["programs", "inputs"], "all sequences of comparisons over all relational operators, operand kinds and outcomes, all arguments",
  "Tests use a handful of comparisons, mostly variable-variable, with one change.",
  [C+"compare.hpp", L+"record/comp_op.hpp", L+"var_op/compare_op.hpp", L+"sweep/forward_0.hpp", C+"forward/compare_change.xrst"],
  [("comparison recorded with its outcome normalised to a true relation", L+"record/comp_op.hpp"), ("counted during zero order sweep", L+"var_op/compare_op.hpp")],
  ["compare_change_count", "compare_change_number", "compare_change_op_index", "Independent(x, abort_op_index)"])
p("C11", "Exported graphs and JSON describe the same function",
  "For every function whose operations the graph format supports (and, for JSON, whose constants are finite), converting it to the AD graph or JSON and back (any number of times, before or after optimization) gives a function with the same values, derivatives, dynamic parameters, comparisons, printing and discrete and atomic calls. Building a function from a JSON or graph description, optionally turning constants or dynamic parameters into variables, computes what that description denotes.",
  ["programs", "inputs"], "all supported operation sequences, constants of any value, and conversion histories",
  "Tests convert about one function per operator; operand orders, constant precision, sharing and dynamic/variable re-mapping are not sampled.",
  [C+"graph/to_graph.hpp", C+"graph/from_graph.hpp", C+"graph/to_json.hpp", C+"graph/from_json.hpp", C+"graph/cpp_graph.hpp", "cppad_lib/json_parser.cpp", "cppad_lib/json_writer.cpp", "cppad_lib/json_lexer.cpp"],
  [("tape to graph", C+"graph/to_graph.hpp"), ("graph to tape", C+"graph/from_graph.hpp"), ("JSON text", "cppad_lib/json_writer.cpp")], ["ADFun::to_graph", "ADFun::from_graph", "ADFun::to_json", "ADFun::from_json"])
p("C12", "Malformed JSON is reported, never mis-executed",
  "For every text handed to the JSON reader that is not a valid AD graph description, the reader reports a known error through the error handler; it never reads or writes outside its data, never has undefined behaviour, never terminates without a report and never loops. A valid description is accepted regardless of white space.",
  ["inputs"], "all texts, in particular mutations (deletion, duplication, truncation, token and number changes) of valid descriptions",
  "Tests parse only well-formed graphs.",
  ["cppad_lib/json_lexer.cpp", "cppad_lib/json_parser.cpp", C+"graph/from_graph.hpp", C+"graph/cpp_graph.hpp"],
  [("lexer checks and report_error", "cppad_lib/json_lexer.cpp")], ["ADFun::from_json", "ErrorHandler"])
p("C13", "Generated C source computes the same function",
  "For every function whose operations the C source generator supports (print operations are not) and every argument and dynamic parameter value, compiling the generated source and calling it returns the same results (and comparison change count) as zero order forward mode of the function it was generated from.",
  ["programs", "inputs"], "all supported operation sequences, constants and arguments",
  "Tests generate source for a few functions; operand kinds, constants, index arithmetic and operator precedence in generated text are not sampled.",
  [C+"to_csrc.hpp", "cppad_lib/csrc_writer.cpp", "cppad_lib/code_gen_fun.cpp", U+"create_dll_lib.hpp", U+"link_dll_lib.hpp"],
  [("source text writer", "cppad_lib/csrc_writer.cpp")], ["ADFun::to_csrc", "create_dll_lib", "link_dll_lib"])
p("C14", "Atomic and checkpoint functions are transparent",
  "Replacing part of an algorithm by an atomic function (any of the atomic interfaces, with correct user callbacks) or by a checkpoint of that part changes no value, derivative of any order, sparsity superset, dynamic parameter behaviour or optimized result of the enclosing function. The callbacks receive arguments that satisfy the documented contract (types, orders, sizes, parameter values), and any number of such objects can be created, used and destroyed in any order.",
  ["programs", "inputs", "histories"], "all inner/outer functions, mixes of constant, dynamic and variable arguments, nesting, repeated calls, derivative orders and modes",
  "Each test has one atomic function in one calling pattern; mixes of argument kinds, unused results, repeated calls and high orders are not covered.",
  [C+"atomic/four/", C+"atomic/three/", C+"atomic/two/", C+"chkpoint_one/", C+"chkpoint_two/", L+"sweep/call_atomic.hpp", L+"var_op/atomic_op.hpp", L+"record/put_var_atomic.hpp", L+"record/put_dyn_atomic.hpp", L+"atomic_index.hpp"],
  [("atomic call protocol on the tape", L+"var_op/atomic_op.hpp"), ("callback dispatch", L+"sweep/call_atomic.hpp")], ["atomic_*::operator()", "chkpoint_*::operator()", "callback arguments"])
p("C15", "Nested AD levels and base2ad give the derivatives of derivatives",
  "Evaluating a function's values or derivatives of any order with AD<Base> coefficients (after base2ad, or by recording at several AD levels) while recording produces a function whose values and derivatives are the correct higher derivatives. Inner and outer recordings at different levels do not disturb one another.",
  ["programs", "inputs", "histories"], "all functions, two or more AD levels, all evaluation modes inside a recording",
  "A few fixed functions are tested with two levels.",
  [C+"base2ad.hpp", C+"ad.hpp", C+"tape_link.hpp", C+"value.hpp", C+"var2par.hpp"], [("base2ad conversion", C+"base2ad.hpp"), ("one tape per level and thread", C+"tape_link.hpp")], ["ADFun::base2ad", "AD<AD<Base>>"])
p("C16", "VecAD vectors behave like arrays whose indices may be computed",
  "For every interleaving of loads and stores on any number of VecAD vectors with constant, dynamic or variable indices and values, replay at any arguments (any in-range indices) loads the value most recently stored at that index, and derivatives of every order and mode flow to exactly the value loaded. This is preserved by optimization.",
  ["programs", "inputs", "histories"], "all load/store histories, index and value kinds, evaluation arguments",
  "Tests have short fixed load/store sequences; aliasing patterns between computed indices are unbounded.",
  [C+"vec_ad/vec_ad.hpp", L+"var_op/load_op.hpp", L+"var_op/store_op.hpp", L+"record/put_var_vecad.hpp"],
  [("load remembers which variable was loaded", L+"var_op/load_op.hpp")], ["VecAD::operator[]", "ADFun::Forward", "ADFun::Reverse"])
p("C17", "Only the selected branch of a conditional contributes",
  "A conditional expression returns, at any argument and parameter values, the branch its comparison selects (for all five relations, and for equality ties), and neither the value nor any derivative of the branch not selected influences the value or derivatives of the result, even if the unselected branch is infinite or nan. The same holds under optimization with conditional skip, and an absolute-zero multiply by zero yields zero value and no influence in all modes.",
  ["programs", "inputs"], "all conditional nests, relations, operand kinds, values including nan and infinity",
  "Tests cover single conditional expressions with finite branches plus a few nan cases.",
  [C+"cond_exp.hpp", L+"var_op/cexp_op.hpp", L+"record/cond_exp.hpp", C+"azmul.hpp", L+"var_op/zmul_op.hpp", L+"sweep/reverse.hpp", L+"var_op/cskip_op.hpp"],
  [("azmul based reverse accumulation", L+"var_op/cexp_op.hpp"), ("conditional skip", L+"var_op/cskip_op.hpp")], ["CondExpLt..CondExpEq", "azmul", "ADFun::Forward/Reverse"])
p("C18", "Function object results depend only on their inputs, not on history",
  "Whatever sequence of evaluations, sparsity calculations, capacity changes, optimizations, copies, assignments, moves, swaps and re-recordings an ADFun object has been through, its next evaluation gives the same result as a freshly constructed equivalent object given the same inputs. Copies and their originals are fully independent, and the size, order and property queries always describe the current content.",
  ["histories"], "all call histories over the public ADFun interface and several objects",
  "Tests use each object in one fixed order of calls.",
  [C+"ad_fun.hpp", C+"fun_construct.hpp", C+"dependent.hpp", C+"forward/forward.hpp", C+"capacity_order.hpp", C+"subgraph_reverse.hpp", L+"play/player.hpp"],
  [("copy/move/swap of all members", C+"fun_construct.hpp"), ("taylor/direction storage switching", C+"capacity_order.hpp")], ["public ADFun methods"],
  state=[("taylor storage", "orders, directions and capacity currently held", C+"ad_fun.hpp")])
p("C19", "Misuse and aborted recordings are reported and leave no trace",
  "Each documented misuse that debug builds check (wrong vector sizes, wrong orders, recording state errors, use of variables from another recording) is reported as a known error through the replaceable error handler, with correct use never reported. After an abort or an error that unwinds out of a recording, a following recording behaves as if nothing had happened, values from a finished or aborted recording act as constants, and error handlers nest and restore properly.",
  ["histories", "fault_sequences"], "all points at which a recording is aborted or an error raised, followed by any further use",
  "Tests do one abort at one place.",
  [C+"abort_recording.hpp", C+"tape_link.hpp", C+"independent/independent.hpp", C+"dependent.hpp", U+"error_handler.hpp", L+"ad_tape.hpp"],
  [("tape manager", C+"tape_link.hpp"), ("error handler stack", U+"error_handler.hpp")], ["AD<Base>::abort_recording", "ErrorHandler"])
p("C20", "Constants, dynamic parameters and variables are classified truthfully",
  "At every point of every recording the classification queries say variable only for values that may depend on the independent variables, dynamic only for those depending on dynamic parameters but on no variable, and constant otherwise (VecAD elements and results of the older atomic interfaces that involve dynamic parameters count as variables); a value classified constant never changes on replay and one classified dynamic changes only with the dynamic parameters. Results reported as parameters by the function object have identically zero derivatives, and outside or after the recording every value is a constant.",
  ["programs", "histories"], "all operators and operand kinds",
  "Tests check a few operators.",
  [C+"con_dyn_var.hpp", C+"fun_property.xrst", C+"ad_type.hpp", C+"dependent.hpp", C+"var2par.hpp", C+"identical.hpp", C+"equal_op_seq.hpp"],
  [("ad_type and tape id of every AD value", C+"ad.hpp")], ["Constant", "Dynamic", "Parameter", "Variable", "ADFun::Parameter", "IdenticalCon", "EqualOpSeq"])
p("C21", "The memory allocator never double-books and its accounts balance",
  "For every history of requests, returns, array creations and deletions, hold and free calls over any number of threads, blocks handed out are aligned, at least as large as requested, within the stated capacity and disjoint from all others in use, and array elements are constructed and destroyed exactly once. For each thread the reported in-use and available byte counts always equal the sums over the blocks actually in those states, memory returned by another thread when permitted is credited to its owner, and freeing everything is reported correctly.",
  ["histories", "schedules"], "all allocation histories and thread interleavings",
  "The example test makes a few allocations; sharing and capacity boundaries are unbounded.",
  [U+"thread_alloc.hpp", U+"memory_leak.hpp"], [("per thread, per capacity free lists", U+"thread_alloc.hpp")], ["thread_alloc::*"],
  state=[("per thread inuse/available counts", "bytes", U+"thread_alloc.hpp")])
p("C22", "Threads using the documented protocol never interfere",
  "With parallel setup done as documented, any number of threads simultaneously recording, optimizing, evaluating, differentiating, computing sparsity, calling atomic, checkpoint and discrete functions and allocating memory obtain exactly the results they would obtain running alone, with no data race. After returning to sequential mode all memory can be accounted for and freed.",
  ["schedules", "programs"], "all thread interleavings and per-thread workloads",
  "Tests run a few fixed workloads without a race detector.",
  [C+"tape_link.hpp", C+"parallel_ad.hpp", U+"thread_alloc.hpp", C+"atomic/", L+"atomic_index.hpp", C+"chkpoint_two/", C+"discrete/discrete.hpp", C+"independent/independent.hpp"],
  [("per thread tape table", C+"tape_link.hpp"), ("per thread allocator lists", U+"thread_alloc.hpp"), ("per thread atomic work space", C+"atomic/three/atomic.hpp")], ["AD recordings and ADFun calls in worker threads", "ThreadSanitizer reports"])
p("C23", "CppAD's vectors behave like standard vectors",
  "For every history of operations, CppAD's vector and bit-vector templates hold the same elements as a standard vector given the same operations (resize, push_back of elements and vectors, assignment, move, swap, clear, data access, iterators and algorithms over them), constructing and destroying each element exactly once. Capacity is never less than size, size changes within capacity keep memory and elements where documented, and out-of-range or size-mismatched use is reported in debug builds.",
  ["histories"], "all operation histories, element types with and without constructors, sizes across internal boundaries",
  "Tests do short fixed sequences; the bit vector has word-boundary cases.",
  [U+"vector.hpp", U+"vector_bool.hpp", L+"utility/cppad_vector_itr.hpp", L+"pod_vector.hpp"], [("capacity management", U+"vector.hpp"), ("bit packing", U+"vector_bool.hpp")], ["CppAD::vector", "CppAD::vectorBool"])
p("C24", "Sparsity containers behave as the mathematical objects they represent",
  "Sparse index patterns and sparse matrices hold exactly the entries put in them: orderings are correct permutations sorted as named, equality, assignment, swap, resizing and transposition keep the pairs, and values stay attached to their indices. The vector-of-sets representations used for sparsity agree with a plain set model for every history of add, post, assign, union, intersection, element test, count and iteration operations, including self-assignment and sharing.",
  ["histories", "inputs"], "all operation histories",
  "Tests check short fixed sequences.",
  [U+"sparse_rc.hpp", U+"sparse_rcv.hpp", L+"sparse/pack_setvec.hpp", L+"sparse/size_setvec.hpp", L+"sparse/svec_setvec.hpp", L+"sparse/list_setvec.hpp", L+"sparse/internal.hpp", U+"set_union.hpp", U+"index_sort.hpp"],
  [("bit packed sets", L+"sparse/pack_setvec.hpp"), ("reference counted shared lists", L+"sparse/size_setvec.hpp")], ["sparse_rc", "sparse_rcv", "local::sparse::*_setvec"])
p("C25", "Linear algebra utilities factor and solve correctly",
  "For every matrix, the LU routines produce permutations and factors whose product is the permuted matrix using maximal pivots, report singularity exactly when a zero pivot is unavoidable, and the solve and invert routines solve the original system with the correct log determinant and sign. This holds for real, complex and AD element types, where the derivatives of the solution are those of the exact solution.",
  ["inputs", "configurations"], "all matrices, sizes, right hand sides, element types",
  "Tests use one or two 3x3 matrices.",
  [U+"lu_factor.hpp", U+"lu_invert.hpp", U+"lu_solve.hpp", C+"lu_ratio.hpp"], [("maximum pivoting", U+"lu_factor.hpp")], ["LuFactor", "LuInvert", "LuSolve", "LuRatio"])
p("C26", "ODE, quadrature and polynomial utilities meet their stated order",
  "Each ODE step method integrates exactly (to rounding) the problems its documented order covers, for any number of steps and dimensions, and its error estimate is consistent with its embedded order; Gear's method likewise for polynomials; the error controllers return a solution whose reported error estimate satisfies the requested bounds or say otherwise. Romberg quadrature (single and multi-dimensional) is exact for the polynomials its order covers, and polynomial evaluation returns the exact derivative of any order.",
  ["inputs", "configurations"], "all polynomial problems, dimensions, step counts, orders, tolerances",
  "Tests run one fixed problem each.",
  [U+"runge_45.hpp", U+"rosen_34.hpp", U+"ode_err_control.hpp", U+"ode_gear.hpp", U+"ode_gear_control.hpp", U+"romberg_one.hpp", U+"romberg_mul.hpp", U+"poly.hpp"], [("method coefficients", U+"runge_45.hpp")], ["Runge45", "Rosen34", "OdeErrControl", "OdeGear", "OdeGearControl", "RombergOne", "RombergMul", "Poly"])
p("C27", "General numeric utilities match their definitions",
  "Index sorting returns a permutation that sorts, set union returns the sorted union, converting a number to a string and back is lossless, nan detection is true exactly for nan, approximate equality is symmetric and matches its formula including infinities and nan, integer powers match repeated multiplication, and numeric limits and the determinant-style helper functions match their definitions, for all inputs and all supported types including AD.",
  ["inputs"], "all inputs, element types",
  "Tests use a few values.",
  [U+"index_sort.hpp", U+"set_union.hpp", U+"to_string.hpp", U+"nan.hpp", U+"near_equal.hpp", U+"pow_int.hpp", C+"numeric_limits.hpp", C+"near_equal_ext.hpp", C+"integer.hpp", C+"sign.hpp", C+"ordered.hpp"],
  [("direct definitions", U+"near_equal.hpp")], ["index_sort", "set_union", "to_string", "isnan/hasnan", "NearEqual", "pow(x,int)", "Integer"])
p("C28", "The abs-normal representation reproduces the non-smooth function",
  "For every function built from smooth operations and absolute values, the abs-normal form evaluated at the absolute values of its own switching variables gives the original function's value, its switching part is strictly lower triangular in the absolute values, the number of extra arguments and results is the number of absolute-value operations, and the form itself contains no absolute value.",
  ["programs", "inputs"], "all functions with any arrangement of absolute values",
  "Tests use two or three small functions.",
  [C+"abs_normal_fun.hpp"], [("tape rewriting", C+"abs_normal_fun.hpp")], ["ADFun::abs_normal_fun"])
p("C29", "ipopt::solve hands the optimizer exact problem data",
  "For every nonlinear program and option setting, the objective, constraints, gradients, constraint Jacobian and Lagrangian Hessian supplied to the optimizer are those of the user's functions at the optimizer's point, so that any solution reported as successful satisfies the bounds, constraints and first order optimality conditions with the multipliers returned. Options are passed through and the returned solution fields correspond to the user's variable ordering.",
  ["inputs", "configurations"], "all problems in convex and mildly non-convex families, retape/sparse options",
  "Tests solve five fixed problems.",
  ["include/cppad/ipopt/solve.hpp", "include/cppad/ipopt/solve_callback.hpp", "include/cppad/ipopt/solve_result.hpp"], [("callback evaluation with sparse derivatives", "include/cppad/ipopt/solve_callback.hpp")], ["ipopt::solve", "solve_result"])
p("C30", "Valid use has no memory error, undefined behaviour or leak",
  "For every valid program using recording, evaluation at all orders and modes, optimization, sparsity, graph conversion, atomic, checkpoint and VecAD features, and in both debug and release builds, CppAD never accesses memory outside its allocations or after release, never uses uninitialised values to decide results, never has undefined integer, shift, alignment or bounds behaviour, and returns all memory it obtained once all objects are destroyed.",
  ["programs", "histories", "configurations"], "all valid programs and histories; assertion-enabled and NDEBUG builds",
  "The test suite runs without sanitizers and only with assertions on.",
  ["include/cppad/", "cppad_lib/"], [("pod_vector, pooled allocator, player/recorder storage", L+"pod_vector.hpp")], ["AddressSanitizer", "UndefinedBehaviorSanitizer", "MemorySanitizer/valgrind", "thread_alloc::inuse"])
p("C31", "Optimal-value derivative helpers match the composed function",
  "For every parametric minimisation problem solved exactly in its inner variables, BenderQuad returns the optimal value with exact first and second derivatives in the outer variables, and opt_val_hes returns the exact gradient and Hessian of the optimal value, including when the inner Hessian is singular being reported rather than returned.",
  ["inputs", "configurations"], "all problem sizes and quadratic/non-linear families with known solution",
  "One fixed problem each.",
  [C+"bender_quad.hpp", C+"opt_val_hes.hpp"], [("implicit differentiation", C+"opt_val_hes.hpp")], ["BenderQuad", "opt_val_hes"])
p("C32", "Printed and streamed values are exact and only printed when due",
  "During zero order forward evaluation a recorded print operation prints its before-text, value and after-text exactly when its position value is not greater than zero, in recording order, once per evaluation, with the values and dynamic parameters of that evaluation and to the stream given. Streaming an AD value in or out is the same as streaming its Base value, for constants, dynamic parameters and variables alike.",
  ["programs", "inputs"], "all print operations, operand kinds, argument values",
  "Tests print two or three fixed values.",
  [C+"print_for.hpp", L+"var_op/pri_op.hpp", C+"ad_io.hpp", L+"sweep/forward_0.hpp"], [("print operator", L+"var_op/pri_op.hpp")], ["PrintFor", "operator<<", "operator>>"])
p("C33", "Every supported base type gives the same calculus",
  "With float, complex or user-defined arithmetic base types, recording, values, forward and reverse derivatives of any order, and optimization satisfy the same laws as with double: they agree with exact differentiation performed in that base type's arithmetic.",
  ["programs", "inputs", "configurations"], "all operations the base type supports",
  "Tests use nearly always double.",
  [C+"base_complex.hpp", C+"base_float.hpp", C+"base_double.hpp", C+"zdouble.hpp", "include/cppad/base_require.hpp", C+"base_cond_exp.hpp", C+"base_std_math.hpp", C+"base_limits.hpp"], [("base type requirements", "include/cppad/base_require.hpp")], ["AD<float>", "AD<std::complex<double>>", "AD<user type>"])
out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, x["title"]
        f.write(json.dumps(x) + "\n")
print(len(P))
