# one entry per check; plan: variant -> (number of cases, number of shards)
CHECKS = {}
NA = {}
TECHNIQUE = 'runtime monitoring: the real library run on generated programs under ASan/UBSan and with assertions on and off, every result judged by an online differential oracle'
NOTE = ('Exploration: holds on every execution observed (counts in the evidence file); assumes the reference calculus in lib/ is right, '
        'which is independent of CppAD and carries its own error bounds. No claim for inputs that were not generated.')
def add(id, **kw): CHECKS[id] = kw
RANDOM = ('Cases 0.. are a systematic matrix (operator x overload form x constant/dynamic/variable operands), the rest are random programs '
          'with random points; a case is distinct when its program (operators, forms, operands, dependents) is. ')
add('C02', rule=RANDOM + 'Every Taylor coefficient of every order, in two different groupings, is compared with the reference calculus.',
    plan={'quick': {'san': (5000, 4), 'dbg': (30000, 4), 'rel': (60000, 4)}}, min={'compared': 500000, 'distinct': 20000, 'forward_multi': 10000, 'capacity_order': 5000})
add('C01', rule=RANDOM + 'Every AD value while recording and every replayed result is compared with the algorithm run without AD.',
    plan={'quick': {'san': (5000, 4), 'dbg': (40000, 4), 'rel': (60000, 4), 'a64': (10000, 2)}},
    vdef={'a64': {'base': 'rel', 'config': {'cppad_tape_addr_type': 'size_t', 'cppad_is_same_tape_addr_type_size_t': '1'}}},
    min={'compared': 500000, 'distinct': 30000, 'huge': 10, 'load': 5000, 'cmp': 5000})
add('C03', rule=RANDOM + 'Coefficients of 1..12 simultaneous directions are compared with the reference calculus of each direction alone.',
    plan={'quick': {'san': (4000, 4), 'dbg': (15000, 4), 'rel': (40000, 4)}}, min={'compared': 500000, 'distinct': 20000, 'forward_dir': 100000})
add('C04', rule=RANDOM + 'Every component of reverse mode of order 1..9 with both forms of the weights is compared with the partials of the reference calculus.',
    plan={'quick': {'san': (4000, 4), 'dbg': (15000, 4), 'rel': (40000, 4)}}, min={'compared': 500000, 'distinct': 20000, 'reverse': 100000})
add('C05', rule=RANDOM + 'Every driver result is compared entry by entry with first and second partials of the reference calculus.',
    plan={'quick': {'san': (3000, 4), 'dbg': (15000, 4), 'rel': (30000, 4)}}, min={'compared': 500000, 'distinct': 20000, 'ForTwo': 2000, 'RevTwo': 2000})
add('C06', rule=RANDOM + 'Each is optimized one to three times with random options; values, derivatives, printing and comparison counts are compared with the reference calculus and the original.',
    plan={'quick': {'san': (4000, 4), 'dbg': (15000, 4), 'rel': (30000, 4)}}, min={'compared': 500000, 'distinct': 20000, 'optimize': 20000, 'val_graph': 3000, 'huge': 5, 'printed': 1000})
add('C07', rule=RANDOM + 'Jacobian, Hessian and dependency patterns from every interface are checked to contain each entry whose derivative (or value change) is observed to be non-zero at some point.',
    plan={'quick': {'san': (3000, 4), 'dbg': (12000, 4), 'rel': (25000, 4)}}, min={'needed_entries': 500000, 'distinct': 20000, 'rev_hes_sparsity': 10000, 'old_hessian': 3000, 'wide': 100})
add('C08', rule=RANDOM + 'Histories of sparse Jacobian / Hessian / subgraph calls (new and old interfaces, random subsets, patterns, colorings, group sizes, reused work) are compared entry by entry with dense derivatives of the reference calculus.',
    plan={'quick': {'san': (2500, 4), 'dbg': (10000, 4), 'rel': (25000, 4), 'colpack': (6000, 2)}},
    vdef={'colpack': {'base': 'rel', 'config': {'cppad_has_colpack': '1'}, 'cflags': ['-DVF_COLPACK']}},
    lib=['cppad_lib/cppad_colpack.cpp'], ldflags=['-lColPack'], env={'OMP_NUM_THREADS': '1'},  # libColPack's own parallel coloring has a race
    min={'compared': 500000, 'distinct': 20000, 'sparse_hes': 5000, 'sparse_jac_for': 3000, 'subgraph_reverse': 3000, 'work_reused': 3000, 'colors_shared': 3000})

add('C09', rule=RANDOM + 'Each runs a sequence of dynamic parameter settings (including settings that are replaced before use, copies, moves and optimization); values and derivatives are compared with the reference calculus, with fresh recordings that have the parameters as constants, and bit by bit with earlier visits to the same setting.',
    plan={'quick': {'san': (3000, 4), 'dbg': (12000, 4), 'rel': (25000, 4)}}, min={'compared': 500000, 'distinct': 20000, 'new_dynamic': 80000, 'revisited': 20000, 'rerecorded': 10000, 'atom': 1000})
add('C10', rule=RANDOM + 'The algorithms branch on comparisons; the number of changes at each point is compared with the outcomes of the algorithm run without AD, and recording again with the abort index is observed to stop in exactly the requested comparison.',
    plan={'quick': {'san': (4000, 4), 'dbg': (20000, 4), 'rel': (40000, 4)}}, min={'forward': 200000, 'distinct': 20000, 'with_changes': 20000, 'abort_index': 3000, 'compared': 20000, 'multi_order': 10000})
add('C14', rule='Random outer programs calling 1..3 (possibly nested) sub-programs that are atomic functions or checkpoints of a random interface; the oracle is the reference calculus of the same program with the sub-programs written in place; every callback monitors the arguments it is given. A case is distinct when its program is.',
    plan={'quick': {'san': (4000, 4), 'dbg': (20000, 4), 'rel': (40000, 4)}}, min={'compared': 500000, 'distinct': 15000, 'contract_checks': 1000000, 'base2ad': 5000, 'nested': 2000, 'destroyed': 10000, 'chkpoint_dynamic': 2000, 'atomic_two_old': 2000})
add('C23', rule='Random histories of operations (including on the vector itself) over pools of 2..3 vectors of each kind and element type, compared after every operation with std::vector models; elements record their own life time. A case is distinct by kind of vector, operation and sizes.',
    plan={'quick': {'san': (15000, 4), 'dbg': (40000, 4), 'rel': (60000, 4)}}, min={'ops': 500000, 'distinct': 5000, 'misuse': 3000, 'elements_tracked': 100000, 'algorithms': 5000, 'vectorBool': 5000})
add('C24', cflags=['-isystem','/usr/include/eigen3'], rule='Random histories of operations (including on the object itself, with shared and unprocessed sets) over index patterns, sparse matrices and the three vector-of-set representations, compared after every operation with plain set models. A case is distinct by representation, operation, aliasing and set sizes.',
    plan={'quick': {'san': (15000, 4), 'dbg': (40000, 4), 'rel': (60000, 4)}}, min={'ops': 200000, 'set_ops': 500000, 'distinct': 20000, 'misuse': 2000, 'eigen': 500, 'equal': 1000, 'not_equal': 1000, 'conversions': 10000, 'duplicates': 100})

add('C17', rule='Programs whose conditional expressions (all relations, exact ties, variable and dynamic conditions, nested use, absolute-zero multiply by an indicator) protect operations that are infinite, nan or not differentiable where they are not selected, evaluated in random histories of points, orders, directions, modes and optimization; every value and derivative is compared with the reference calculus which follows the selected branch only. A case is distinct by its program.',
    plan={'quick': {'san': (5000, 4), 'dbg': (30000, 4), 'rel': (60000, 4)}}, min={'compared': 2000000, 'distinct': 10000, 'not_finite_branch': 50000, 'reverse': 50000, 'optimized': 10000, 'azmul': 500, 'nested': 500})
add('C21', rule='Random histories of get/return/create/delete/hold/free calls in alternating sequential phases (memory of any thread returned by thread 0) and parallel phases (2..4 real threads); every count is compared with a model after every call, every block is pattern filled and checked for overlap, elements record their life time. A case is distinct by its history of phases and resulting block counts.',
    plan={'quick': {'san': (5000, 4), 'dbg': (12000, 4), 'rel': (20000, 4), 'tsan': (1500, 2)}}, min={'ops': 1000000, 'distinct': 20000, 'parallel_phases': 20000, 'reused': 40000, 'returned_for_owner': 20000, 'arrays': 200000, 'free_all': 4000, 'misuse': 10000, 'foreign': 2000},
    config={'cppad_debug_and_release_01': '0'})

add('C25', rule='Random, badly scaled, tied, integer, exactly and nearly singular, permutation and ill conditioned matrices (n up to 14) of real and complex types, factored, inverted and solved; the factors, pivots, permutation sign, determinant and solution are compared with long double references; recorded solutions are replayed and differentiated to second order and in reverse. A case is distinct by type, sizes, kind and entries.',
    plan={'quick': {'san': (8000, 4), 'dbg': (30000, 4), 'rel': (40000, 4)}}, min={'matrices': 40000, 'regular': 20000, 'exact_singular': 3000, 'pivots': 80000, 'solutions': 50000, 'determinants': 20000, 'ad_values': 100000, 'ratio_above_one': 500, 'misuse': 2000, 'distinct': 20000})

add('C26', rule='Random nilpotent polynomial initial value problems whose exact solution has the order of the method (random steps, dimensions, vector types, nan faults), also recorded with AD and differentiated; error controllers driven by arbitrary methods and error estimates with every step traced and judged by a monitor; Gear steps compared with the interpolation polynomial that defines them; polynomials of matching degree for the quadratures. A case is distinct by problem, sizes and points.',
    plan={'quick': {'san': (10000, 4), 'dbg': (40000, 4), 'rel': (60000, 4)}}, min={'runge45': 10000, 'rosen34': 10000, 'ode_ad': 10000, 'error_seen': 3000, 'nan': 10000, 'accepted': 100000, 'rejected': 2000, 'nan_steps': 1000, 'nan_returned': 500, 'bound_checked': 5000, 'gear_exact': 5000, 'gear_accepted': 50000, 'gear_rejected': 1000, 'gear_full_order': 10000, 'romberg_exact': 3000, 'romberg_error_seen': 500, 'romberg_high_order': 5, 'romberg_mul_exact': 1000, 'poly': 3000, 'poly_high_order': 20, 'misuse': 500, 'distinct': 50000})

add('C27', rule='Random keys, sets, numbers of every fundamental type (extremes, neighbours of powers of ten, infinities, nan), tolerances, exponents including the extremes of int, matrices and sparsity patterns; AD arguments are parameters, dynamic parameters and variables of an open recording; each result is judged against the definition in higher precision. A case is distinct by its arguments.',
    plan={'quick': {'san': (60000, 4), 'dbg': (200000, 4), 'rel': (200000, 4)}}, min={'index_sort': 20000, 'set_union': 10000, 'to_string_int': 20000, 'to_string_float': 20000, 'to_string_ad': 5000, 'nan_true': 800, 'near_equal_true': 10000, 'near_equal_false': 10000, 'near_equal_special': 5000, 'near_equal_ad': 5000, 'pow': 10000, 'pow_extreme': 1000, 'pow_complex': 5000, 'pow_ad': 5000, 'limits': 10000, 'ordered': 10000, 'Integer': 10000, 'det': 10000, 'det_minor': 5000, 'det_33': 1000, 'ode_evaluate': 2000, 'sparse_hes_fun': 5000, 'uniform': 500, 'misuse': 500, 'distinct': 100000})
JSON = ['cppad_lib/json_parser.cpp', 'cppad_lib/json_lexer.cpp', 'cppad_lib/json_writer.cpp', 'cppad_lib/cpp_graph_op.cpp']
add('C11', lib=JSON, rule=RANDOM + 'Half are recorded and converted to graphs and JSON and back up to four times between optimizations; the other half are written down as graphs and JSON by the check itself. Each graph is evaluated by an independent evaluator and each function compared with the reference calculus.',
    plan={'quick': {'san': (4000, 4), 'dbg': (15000, 4), 'rel': (30000, 4)}}, min={'compared': 300000, 'distinct': 15000, 'graph_evaluated': 10000, 'json': 3000, 'own_text': 3000, 'described': 8000, 'remapped': 3000, 'sum_operator': 3000, 'printed': 2000, 'with_changes': 2000, 'destroyed_atom': 200, 'probes': 3})
add('C12', lib=JSON, rule='Valid descriptions of random programs and mutations of them (tokens and characters removed, inserted, duplicated, exchanged, replaced; numbers changed including values that overflow; truncation, splices, arbitrary text; every byte of one text) are read by CppAD and by an independent reader of the documented format which decides whether the text is valid and what it denotes. A case is distinct by its text.',
    plan={'quick': {'san': (1500, 4), 'dbg': (5000, 4), 'rel': (8000, 4)}}, min={'texts': 60000, 'distinct': 50000, 'invalid': 50000, 'valid': 8000, 'evaluated': 16000, 'reported': 50000, 'line_numbers': 50000, 'after_error': 15000, 'systematic_text': 500, 'why_node': 1500, 'why_op_code': 2000, 'why_n_arg': 1000, 'why_integer': 400, 'why_dependent': 200, 'sum_operator': 5000})
add('C13', lib=JSON + ['cppad_lib/csrc_writer.cpp', 'cppad_lib/link_dll_lib.cpp'], rule=RANDOM + 'Recorded programs, graphs described by hand, optimized functions, functions read from JSON and recorded Jacobians are written as C source, compiled in groups of eight and loaded; values at several points are compared with the reference calculus and comparison counts with Forward.',
    plan={'quick': {'san': (300, 4), 'dbg': (500, 4), 'rel': (600, 4)}}, min={'compared': 50000, 'distinct': 6000, 'evaluated': 20000, 'sources': 8000, 'type_float': 200, 'type_long_double': 200, 'jacobian': 150, 'with_changes': 400, 'atomic_functions': 100, 'atomic_error': 100, 'wrong_size': 6000, 'constants': 800, 'errors': 40, 'probes': 4})
add('C15', rule=RANDOM + 'Taylor coefficients, Jacobians, reverse mode results and Hessians are evaluated with AD coefficients (base2ad, two and three AD levels, with outer variables as inner constants or dynamic parameters) while recording; the recorded functions and their derivatives at several points are compared with the reference calculus.',
    plan={'quick': {'san': (8000, 4), 'dbg': (50000, 4), 'rel': (90000, 4)}}, min={'compared': 1500000, 'distinct': 80000, 'base2ad': 40000, 'nested': 30000, 'levels': 10000, 'hessian': 15000, 'reverse': 15000, 'taylor': 15000, 'jacobian': 15000, 'inner_dynamic': 8000, 'inner_outer_variable': 8000, 'disturbance': 80000, 'optimize': 40000, 'atomic_four': 3000})
add('C16', rule='Random programs over one to three VecAD vectors: loads, stores of every kind of right hand side, kept references and operations on references, with constant, dynamic, variable, loaded and computed indices; vectors are reused by a second recording. Values while recording, contents afterwards and replays at points with other indices (all orders, directions and reverse mode, optimized or not) are compared with plain arrays. A case is distinct by its program.',
    plan={'quick': {'san': (8000, 4), 'dbg': (40000, 4), 'rel': (80000, 4)}}, min={'compared': 12000000, 'distinct': 70000, 'load': 200000, 'store_ad': 150000, 'store_base': 40000, 'store_int': 48000, 'index_dynamic': 100000, 'index_variable': 100000, 'index_computed': 70000, 'keep': 55000, 'optimize': 40000, 'reused_vectors': 15000, 'misuse': 600, 'misuse_replay': 400, 'aborted': 4000, 'directions': 170000})

add('C22', rule='Two to six threads, each running tasks drawn from random programs (recording, replay, derivatives of all kinds, sparsity, optimization, nested levels, graphs, shared atomic functions and checkpoints, discrete functions, allocation) with injected delays; every number computed must be bit for bit that of the same task run alone, ThreadSanitizer watches for races, and the allocator accounts are compared after returning to sequential mode. Half of the cases run in parallel before anything ran alone, so that first calls happen in parallel. A case is distinct by the interleaving of steps that was observed.',
    plan={'quick': {'tsan': (4000, 12), 'tsandbg': (3000, 12), 'dbg': (6000, 4), 'rel': (9000, 4)}}, lib=JSON, min={'threads': 40000, 'tasks': 85000, 'switches': 300000, 'distinct': 30000, 'results': 2900000, 'parallel_first': 5000, 'alone_first': 5000, 'shared_atomics': 19000, 'chkpoint_one': 5500, 'chkpoint_two': 4500, 'used_after': 40000, 'teardown': 3000, 'accounts': 40000})
add('C18', rule='Random histories of two to four function objects (recording again, copies, moves, swaps, every evaluation and derivative call, capacity and dynamic parameter changes, optimization, stored sparsity patterns and subgraphs, queries); after every step the result is compared bit for bit with that of an object that was freshly made with the content the documentation says the object has. A case is distinct by its history.',
    plan={'quick': {'san': (1500, 4), 'dbg': (8000, 4), 'rel': (16000, 4)}}, min={'cases': 25500, 'compared': 900000, 'steps': 440000, 'driver': 75000, 'forward': 22000, 'forward_dir': 13000, 'forward_order': 18000, 'reverse': 9500, 'sparsity': 44000, 'stored_pattern': 10000, 'used_pattern': 500, 'record': 50000, 'move': 2000, 'move_constructor': 2000, 'swap': 2000, 'copy': 2000, 'capacity': 11000, 'new_dynamic': 7000, 'optimize': 11000, 'subgraph_reverse': 9500, 'queries': 30000, 'contract_checks': 1000000})
add('C32', rule='Random programs with print operations (all four operand kinds, repeated and long text, any format of the stream) evaluated at several points and dynamic parameter values with the given stream and with std::cout, also after optimization, in all orders and as AD functions; the text is compared with what the values of the operands (which are also dependent variables) require, and every other operation is watched for output. Streaming of AD values is compared with streaming of their base values. A case is distinct by its program or text.',
    plan={'quick': {'san': (4000, 4), 'dbg': (48000, 4), 'rel': (96000, 4)}}, min={'cases': 148000, 'base2ad': 15834, 'evaluations': 515334, 'many_orders': 166500, 'not_due': 273479, 'operands': 469263, 'printed': 452812, 'quiet': 1023113, 'streamed_in': 24175, 'streamed_out': 55439, 'two_arguments': 13026, 'val_graph': 3700, 'vecad_both': 13048, 'vecad_position': 13157, 'vecad_value': 25923})
add('C20', rule='Random programs recorded (several recordings one after another, some aborted, one or two levels) while every node is classified at every instruction: the class is compared with what the program structure allows, with the class reported before, and with the values of the node at other points; values of finished and aborted recordings are kept and classified during later ones; results reported as parameters by the function object are differentiated. A case is distinct by its program shape.',
    plan={'quick': {'san': (3000, 4), 'dbg': (30000, 4), 'rel': (60000, 4)}}, min={'cases': 93000, 'aborted': 17478, 'atomic_four': 5195, 'atomic_three': 5229, 'atomic_two': 5117, 'chkpoint_one': 5278, 'chkpoint_two': 5058, 'constants': 287020, 'dynamics': 775617, 'less_than_structural': 54963, 'level2': 29082, 'optimize': 39644, 'patterns': 123768, 'queries': 41755295, 'stale': 7565414, 'unchanged': 6426837, 'variables': 2303122, 'vecad': 1420241, 'zero_derivatives': 1796523})
add('C28', rule='Random programs rich in absolute values; the abs-normal form is compared with the recorded function at u = a(x), and, at these and other values of x and u (values, first and second order forward and reverse), with the program in which the absolute values are replaced by u; its switching part is checked to be strictly lower triangular by pattern and by perturbation. A case is distinct by its program shape.',
    plan={'quick': {'san': (1500, 4), 'dbg': (12000, 4), 'rel': (24000, 4)}}, min={'cases': 37500, 'abs_points': 50242, 'absolute_values': 12153, 'compared': 1647065, 'formed': 18588, 'triangular': 36037, 'used_objects': 4922})
add('C33', rule='Arithmetic modulo a prime (closed form power series, exact), identical results for a user type wrapping double, exact reference calculus for float, contour integrals for complex; user objects are checked for life time.',
    plan={'quick': {'dbg': (20000, 6), 'rel': (40000, 6), 'san': (1500, 8)}}, min={'cases': 61500, 'base2ad': 2503, 'compared': 1416369, 'complex_programs': 3843, 'directions': 13323, 'double_programs': 7687, 'exact_programs': 11049, 'float_programs': 3843, 'hessians': 13240, 'jacobians': 16605, 'user_objects': 41330946})
