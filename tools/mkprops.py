#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that statements are easy to review)."""
import json, os
P = []


def prop(id, title, statement, over, qtext, why, files, mech, observe=None, state=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if observe:
        a["observe_at"] = observe
    if state:
        a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why, "anchors": a})


HIST = "every sequence of operations, every operand (dimensions, coefficients, signs, strictness, infinities) and every internal representation reached on the way"

prop("C01", "Box results contain every concrete state and are best for linear operations",
     "Whatever sequence of operations produced an interval (box) abstract value, the result of the next operation contains every concrete point the operation can produce from the points of its arguments, for rational, double and MPFR bounds. With rational bounds and real dimensions, join, meet, meet with one linear constraint, assignment and substitution by a linear expression, forget and the dimension changes give the smallest such box.",
     ["histories", "inputs", "configurations"], HIST + "; rational, double and multi-precision floating-point variants",
     "No unit test of the box domain checks a result (the C++ wrapper test prints a handful of values); soundness is a statement over all points of all boxes and all constraint shapes.",
     ["box/box_meetjoin.c", "box/box_assign.c", "box/box_otherops.c", "box/box_resize.c", "box/box_constructor.c", "box/box_representation.c", "itv/itv_linexpr.c", "itv/itv_linearize.c"],
     [("interval propagation of linear constraints", "itv/itv_linearize.c boxize"), ("interval evaluation of linear expressions", "itv/itv_linexpr.c eval"), ("outward rounding of bounds", "num/bound_def.h")],
     ["ap_abstract0_to_lincons_array", "ap_abstract0_to_box"])
prop("C02", "Octagon results contain every concrete state and are as precise as claimed",
     "Whatever sequence of operations produced an octagon, the result of the next operation contains every concrete point the operation can produce from the points of its arguments, for rational and double bounds. With rational bounds and real dimensions, meet, join, forget, dimension changes, meets with octagonal constraints and assignments or substitutions of the form x:=c, x:=+-y+c give exactly the smallest octagon.",
     ["histories", "inputs", "configurations"], HIST + "; closed, non-closed and empty matrices, with and without algorithm options",
     "octtest samples random octagons and compares with polyhedra on a few thousand draws; the incremental closures, cache of the closed matrix and half-matrix indexing have many shape-dependent branches that need every combination of signs, positions and infinities.",
     ["octagons/oct_closure.c", "octagons/oct_transfer.c", "octagons/oct_nary.c", "octagons/oct_resize.c", "octagons/oct_hmat.c", "octagons/oct_representation.c"],
     [("strong closure, incremental closure", "octagons/oct_closure.c"), ("classification of linear expressions", "octagons/oct_internal.h uexpr"), ("cached closed matrix", "octagons/oct_internal.h oct_t.closed")],
     ["ap_abstract0_to_lincons_array", "ap_abstract0_to_box"],
     [("m / closed", "half-matrix as built, and its strong closure", "octagons/oct_internal.h")])
prop("C03", "Polyhedra (loose and strict) compute exactly the set the operation denotes",
     "For convex polyhedra over real dimensions, meet, join (convex hull), constraint meets, single and parallel linear assignment and substitution, forget/projection, added rays, topological closure and dimension changes give exactly the polyhedron the operation denotes, whatever the history and the lazily maintained representation (topologically closed hull in loose mode, with strict inequalities in strict mode). With integer dimensions the result still contains every integer point.",
     ["histories", "inputs", "configurations"], HIST + "; lazy and eager option settings, loose and strict managers, rational and 64-bit rational variants",
     "The test programs print results or sample random polyhedra; exactness depends on the interplay of lazily computed constraints, generators and saturation matrices along a history.",
     ["newpolka/pk_cherni.c", "newpolka/pk_meetjoin.c", "newpolka/pk_assign.c", "newpolka/pk_project.c", "newpolka/pk_expandfold.c", "newpolka/pk_resize.c", "newpolka/pk_constructor.c", "newpolka/pk_representation.c", "newpolka/pk_closure.c", "newpolka/pk_matrix.c", "newpolka/pk_vector.c"],
     [("double description with lazy conversion", "newpolka/pk_cherni.c"), ("epsilon dimension for strict inequalities", "newpolka/pk_cherni.c, pk_constructor.c"), ("integer normalisation", "newpolka/pk_vector.c")],
     ["ap_abstract0_to_lincons_array", "ap_abstract0_to_generator_array"],
     [("C, F, satC, satF, nbeq, nbline, status", "constraints, generators, saturation matrices and what is minimal or sorted", "newpolka/pk_internal.h pk_t")])
prop("C04", "Linear-equality values are the affine hull of the denoted set",
     "For the linear-equality domain, join, meet, meets with equalities, invertible and non-invertible linear assignment, forget and dimension changes give exactly the smallest affine subspace containing the points the operation denotes, and other operations give an affine subspace that contains them.",
     ["histories", "inputs"], HIST, "No test exercises this manager at all.",
     ["newpolka/pkeq.c", "newpolka/pk_matrix.c"], [("reduction to equalities after each operation", "newpolka/pkeq.c")],
     ["ap_abstract0_to_lincons_array"])
prop("C05", "PPL-backed polyhedra compute exactly the set the operation denotes",
     "For the PPL polyhedra managers (loose and strict), every operation on real dimensions with a linear argument gives exactly the polyhedron the operation denotes, and every other operation gives a polyhedron that contains all the concrete results; values translate faithfully between the two libraries in both directions.",
     ["histories", "inputs", "configurations"], HIST, "ap_ppl_test aborts before most of its sections on this tree, and samples random values in the sections it runs.",
     ["ppl/ppl_poly.cc", "ppl/ppl_user.cc"], [("translation of constraints, generators and expressions", "ppl/ppl_user.cc"), ("strict and loose modes", "ppl/ppl_poly.cc")],
     ["ap_abstract0_to_lincons_array", "ap_abstract0_to_generator_array"])
prop("C06", "Grids and the polyhedra-grid product keep every concrete state",
     "For the PPL grid manager, meets with linear equalities and congruences, join, linear assignment and substitution, forget and dimension changes give exactly the grid the operation denotes, and any other operation a grid containing it. For the product of polyhedra and grids, every operation contains all concrete results and is at least as precise as each component alone.",
     ["histories", "inputs"], HIST, "Only printed by the C++ wrapper test; congruences and moduli are never checked.",
     ["ppl/ppl_grid.cc", "ppl/ppl_user.cc", "products/ap_pkgrid.c", "apron/ap_reducedproduct.c"], [("congruence translation", "ppl/ppl_user.cc"), ("reduction between components", "products/ap_pkgrid.c")],
     ["ap_abstract0_to_lincons_array"])
prop("C07", "Zonotope (taylor1plus) results contain every concrete state",
     "Whatever sequence of operations produced a zonotope value, the box and the constraints extracted from the result of the next operation, its bounds and its emptiness test cover every concrete point the operation can produce from concrete points that history allows.",
     ["histories", "inputs", "configurations"], HIST, "No assertion-bearing test exists for this domain.",
     ["taylor1plus/t1p_assign.c", "taylor1plus/t1p_meetjoin.c", "taylor1plus/t1p_fun.c", "taylor1plus/t1p_internal.c", "taylor1plus/t1p_constructor.c", "taylor1plus/t1p_resize.c", "taylor1plus/t1p_otherops.c"],
     [("affine forms over shared noise symbols", "taylor1plus/t1p_internal.h"), ("constraints on noise symbols", "taylor1plus/t1p_meetjoin.c")], ["ap_abstract0_to_box", "ap_abstract0_bound_dimension"])
prop("C08", "Absolute-value octagon results contain every concrete state",
     "Whatever sequence of operations produced an absolute-value octagon, the result of the next operation contains every concrete point the operation can produce from the points of its arguments, for rational and double bounds.",
     ["histories", "inputs", "configurations"], HIST, "avotest samples random values against polyhedra, and the domain's piecewise constraints are only crossed by chance.",
     ["avoct/avo_closure.c", "avoct/avo_transfer.c", "avoct/avo_nary.c", "avoct/avo_resize.c", "avoct/avo_hmat.c", "avoct/avo_representation.c"],
     [("sign-aware closure", "avoct/avo_closure.c")], ["ap_abstract0_to_lincons_array", "ap_abstract0_to_box"])
prop("C09", "Floating-point polyhedra results contain every concrete state",
     "Whatever sequence of operations produced a floating-point polyhedron, the result of the next operation contains every concrete point the operation can produce from the points of its arguments despite rounding.",
     ["histories", "inputs"], HIST, "fpptest prints values and checks nothing.",
     ["fppol/fppol_domain.c", "fppol/fm.c", "fppol/rlp.c", "fppol/fpp_transfer.c", "fppol/fpp_nary.c", "fppol/fpp_weakjoin.c", "fppol/fpp_resize.c"],
     [("rigorous linear programming", "fppol/rlp.c"), ("sound Fourier-Motzkin elimination", "fppol/fm.c")], ["ap_abstract0_to_lincons_array", "ap_abstract0_to_box"])
prop("C10", "Exactness and optimality flags are never raised wrongly",
     "With rational bounds, after any operation, if the manager reports the result as exact then it denotes precisely the concrete result, and if it reports it as best then no strictly smaller value of the domain contains the concrete result; after a test (on a non-empty value for the unconstrained-dimension test) or a bound query, exact means that a negative answer, or the bound, is the true one.",
     ["histories", "inputs", "configurations"], HIST + ", for box, octagon, polyhedra, equality and PPL managers over real dimensions",
     "The flags are only printed or used to choose which comparison the random tests make.",
     ["apron/ap_manager.c", "apron/ap_manager.h", "box/box_meetjoin.c", "octagons/oct_transfer.c", "octagons/oct_predicate.c", "newpolka/pk_test.c", "newpolka/pk_meetjoin.c", "ppl/ppl_poly.cc"],
     [("flag_exact/flag_best", "apron/ap_manager.h ap_result_t")], ["ap_manager_get_flag_exact", "ap_manager_get_flag_best"])
prop("C11", "Tests and bound queries agree with the denoted set",
     "Emptiness, universality, inclusion, equality, constraint satisfaction, interval satisfaction and unconstrained-dimension tests answer true only when the statement is true of the set the value denotes, and bounds of dimensions, linear and tree expressions and the bounding box contain the true range. (The unconstrained-dimension test is meant for non-empty values.) On rational boxes, closed rational octagons and polyhedra over real dimensions the linear answers are exact.",
     ["histories", "inputs", "configurations"], HIST, "The answer depends on the value's lazily maintained representation and on the expression's shape; tests sample random pairs and mostly the positive direction.",
     ["box/box_representation.c", "box/box_otherops.c", "octagons/oct_predicate.c", "newpolka/pk_test.c", "newpolka/pk_extract.c", "avoct/avo_predicate.c", "ppl/ppl_poly.cc", "taylor1plus/t1p_representation.c", "fppol/fpp_predicate.c"],
     [("predicates per domain", "*/..._predicate.c, pk_test.c")], ["return values"])
prop("C12", "Widening is an upper bound, stabilises, and respects thresholds",
     "Widening of a value with a larger one contains both; every chain built by widening with successive larger values becomes stationary after boundedly many steps; widening with thresholds stays within every threshold constraint both arguments satisfy and also stabilises. Octagon narrowing stays between its two arguments.",
     ["histories", "inputs", "configurations"], "every start value, every growth sequence over the enumerated values, every threshold set, each domain that implements widening",
     "Termination and upper bound are statements over all chains; the tests check one widening of random pairs.",
     ["octagons/oct_nary.c", "newpolka/pk_widening.c", "box/box_otherops.c", "apron/ap_abstract0.c", "ppl/ppl_poly.cc", "avoct/avo_nary.c"],
     [("widening", "pk_widening.c, oct_nary.c, box_otherops.c"), ("threshold widening", "apron/ap_abstract0.c")], ["ap_abstract0_widening", "ap_abstract0_widening_threshold"])
prop("C13", "Results do not depend on call form, and arguments are never altered",
     "The functional form of an operation leaves every argument denoting the same set, and the destructive form computes the same set as the functional one, also when the two operands or the destination are the same value. Canonicalising, minimising, copying, printing or querying a value never changes the set it denotes nor the set denoted by the results of later operations on it; canonical equal values have equal hashes.",
     ["histories", "inputs", "configurations"], HIST + "; all domains", "Requires comparing whole histories that differ only in representation-changing or destructive steps; no test does.",
     ["apron/ap_abstract0.c", "newpolka/pk_representation.c", "octagons/oct_representation.c", "box/box_representation.c"],
     [("destructive flag", "all domain operations"), ("lazy canonicalisation on queried values", "oct_cache_closure, pk chernikova")], ["all level-0 functions"])
prop("C14", "Dimension changes denote exactly what their specification says",
     "In every domain, adding (unconstrained or projected to zero), removing, permuting, expanding and folding dimensions, and a combined addition-then-removal, produce the set the interface documentation defines, for every position, multiplicity and split between integer and real dimensions.",
     ["inputs", "histories", "configurations"], "every dimension-change vector over at most three or four dimensions with up to two insertions or removals, every permutation, every fold set, every reached value",
     "Index arithmetic errors show only for particular positions and mixes of integer and real dimensions.",
     ["box/box_resize.c", "octagons/oct_resize.c", "newpolka/pk_resize.c", "newpolka/pk_expandfold.c", "avoct/avo_resize.c", "taylor1plus/t1p_resize.c", "ppl/ppl_poly.cc", "ppl/ppl_grid.cc", "fppol/fpp_resize.c", "apron/ap_dimension.c", "apron/ap_abstract0.c"],
     [("dimension change vectors", "apron/ap_dimension.h")], ["ap_abstract0_to_lincons_array"])
prop("C15", "Tree expressions: evaluation and linearisation cover every rounded value",
     "For every tree expression (integer, real and IEEE types, every rounding direction, interval constants, division, modulo, power, square root, casts) and every environment of intervals, the interval evaluation and the linearised expression contain every value a concrete evaluation with that rounding can take at every point, for each numeric back end; meeting a box with tree constraints by linearisation keeps every point of the box that satisfies them. Modulo of integer type is meant for integer operands, and back ends of native integers or rationals for expressions of integer and real type whose values do not overflow.",
     ["inputs", "configurations"], "every expression up to the stated depth over the constant and operator alphabet, every type and rounding direction, every box over the bound alphabet, every concrete grid point",
     "test_texpr0 samples a few random expressions; rounding and corner values (zero, infinities, denormals) are discrete cases.",
     ["itv/itv_linearize.c", "itv/itv.c", "apron/ap_linearize.c", "apron/ap_linearize_aux.c", "apron/ap_generic.c", "apron/ap_texpr0.c"],
     [("interval linear form of tree expressions", "itv/itv_linearize.c"), ("float absolute/relative error", "itv/itv_linearize.c")], ["ap_eval_texpr0", "ap_intlinearize_texpr0"])
prop("C16", "Expression, constraint and generator objects behave as the vectors they denote",
     "Linear expressions (dense or sparse), linear constraints, generators and tree expressions keep their mathematical value through construction, coefficient access, copy, minimisation, dimension addition/permutation/removal, conversion and printing; comparison, equality and classification depend on that value only, hashes agree with equality, and the comparison is a total preorder on expressions with scalar coefficients (a partial one with intervals).",
     ["inputs", "histories"], "every expression over the coefficient alphabet with at most three dimensions, dense and sparse, every coefficient representation, every edit sequence up to the stated depth",
     "Only indirectly exercised by domain tests; sparse and dense code paths differ.",
     ["apron/ap_linexpr0.c", "apron/ap_lincons0.c", "apron/ap_generator0.c", "apron/ap_texpr0.c", "apron/ap_tcons0.c", "apron/ap_dimension.c"],
     [("sorted sparse arrays", "apron/ap_linexpr0.c")], ["ap_linexpr0_*", "ap_lincons0_*"])
prop("C17", "Scalars, intervals and coefficients are ordered, hashed and converted soundly",
     "Comparison of scalars and inclusion/equality of intervals and coefficients agree with the numbers they denote across double, rational and MPFR representations (including infinities), equal values have equal hashes, and conversions round in the requested direction so that the result bounds the source and is exact whenever the target can represent it.",
     ["inputs"], "every pair (triple for transitivity) over an alphabet of values and representations",
     "No test covers these; mixed-representation comparisons are case splits.",
     ["apron/ap_scalar.c", "apron/ap_interval.c", "apron/ap_coeff.c"], [("mixed representation comparison", "apron/ap_scalar.c")], ["ap_scalar_*", "ap_interval_*", "ap_coeff_*"])
prop("C18", "Numeric and interval arithmetic encloses the exact result for every number type",
     "For each numeric back end (machine, multi-precision and floating), bounds with infinities and intervals: every arithmetic operation returns an enclosure of the exact set of results, tight for exact number types, with consistent comparison, sign, conversion and serialisation. Operations of native integer and rational types are meant for results that do not overflow, except the power, which reports overflow as an infinite bound.",
     ["inputs", "configurations"], "every pair of bounds and of intervals over the value alphabet, for every operation and number type",
     "numtest/itvtest sample a few values; each operation is a case split over signs and infinities.",
     ["num/bound_def.h", "num/numflt_native.h", "num/numflt_mpfr.h", "num/numrat_mpq.h", "num/numrat_native.h", "num/numint_native.h", "num/numint_mpz.h", "itv/itv.c", "itv/itv.h"],
     [("outward rounding", "num/bound_def.h"), ("interval multiplication/division by sign cases", "itv/itv.c")], ["itv_*", "bound_*"])
prop("C19", "Environments are sorted sets of typed names with consistent dimension maps",
     "Creating, adding to, removing from, renaming, merging (least common environment) and comparing environments behaves as the set operations on typed variable names, dimension lookup inverts dimension-to-name lookup, the returned dimension changes and permutations map every variable to its own dimension, conflicts are refused, and reference counts keep shared environments alive exactly as long as used.",
     ["histories", "inputs"], "every pair (and small array) of environments over a four-name universe with every typing, every operation, every order of arguments",
     "Merging and the permutations depend on the interleaving of names and types; tests build two or three fixed environments.",
     ["apron/ap_environment.c", "apron/ap_var.c"], [("merge of sorted name arrays", "apron/ap_environment.c")], ["ap_environment_*"])
prop("C20", "Level-1 operations equal level-0 operations up to variable names",
     "Every operation on named values, expressions and constraints denotes the same set of valuations as its positional counterpart: expressions and constraints over smaller environments are embedded by name, change of environment, unification, renaming, folding and expansion act on the named variables only, and each result carries the right environment.",
     ["histories", "inputs"], "every environment pair over a small universe, every operation, on box, octagon and polyhedra values",
     "ctest and the C++ test run one fixed scenario.",
     ["apron/ap_abstract1.c", "apron/ap_linexpr1.c", "apron/ap_lincons1.c", "apron/ap_texpr1.c", "apron/ap_tcons1.c", "apron/ap_generator1.c", "apron/ap_expr1.h"],
     [("environment embedding before the level-0 call", "apron/ap_abstract1.c")], ["ap_abstract1_*"])
prop("C21", "Invalid calls are reported as exceptions and yield a safe result",
     "A call whose arguments violate the interface (dimension mismatch or out of range, ill-formed dimension change, values of different libraries, unbound or conflicting variables, empty arrays) reports an invalid-argument or incompatible exception in the manager and log, returns a sound default of the right dimension that is flagged neither exact nor best, leaves its arguments usable, and never crashes; valid calls report none.",
     ["inputs", "fault_sequences"], "every function times every single invalid argument over the enumerated ways of being invalid, on several managers",
     "Error paths are not exercised by any test.",
     ["apron/ap_abstract0.c", "apron/ap_abstract1.c", "apron/ap_manager.c"], [("argument checks", "apron/ap_abstract0.c"), ("exception raising and logging", "apron/ap_manager.c")], ["manager result exn", "exception log"])
prop("C22", "Serialised values read back as the same value",
     "For managers that implement serialisation, deserialising what was serialised consumes exactly the bytes written and gives a value denoting the same set with the same dimensions, on which later operations give the same results.",
     ["histories", "inputs"], HIST, "No test serialises anything.",
     ["octagons/oct_representation.c", "box/box_representation.c", "apron/ap_environment.c", "apron/ap_abstract0.c", "num/num_numflt.h", "num/bound_def.h", "itv/itv.c"],
     [("raw serialisation", "bound/itv serialize")], ["ap_abstract0_serialize_raw", "ap_abstract0_deserialize_raw"])
prop("C23", "No memory error and no leak in any operation sequence",
     "No sequence of interface calls with valid arguments reads or writes outside live objects or frees one twice, and releasing every object the caller owns releases all the memory the calls obtained.",
     ["histories", "inputs"], HIST + "; all domains", "The tests run without memory checking and never compare allocation balance.",
     ["apron/ap_abstract0.c", "newpolka/pk_matrix.c", "newpolka/pk_resize.c", "octagons/oct_hmat.c", "box/box_representation.c", "taylor1plus/t1p_internal.c"],
     [("manual memory management", "all C sources")], ["AddressSanitizer reports", "allocation balance"])
prop("C24", "The C++ wrapper computes what the C interface computes",
     "Every wrapped operation, constructor, conversion and comparison of the C++ interface gives the value the corresponding C call gives, with the operands in the right order and ownership respected.",
     ["inputs", "histories"], "every wrapped operation on every pair of a value set, box, octagon and polyhedra managers",
     "The C++ test prints values compared with an outdated expected file.",
     ["apronxx/apxx_abstract0_inline.hh", "apronxx/apxx_abstract1_inline.hh", "apronxx/apxx_linexpr0_inline.hh", "apronxx/apxx_environment_inline.hh", "apronxx/apxx_texpr0_inline.hh"],
     [("inline wrappers", "apronxx/*_inline.hh")], ["apron::abstract0"])
prop("C25", "The Java binding computes what the C interface computes",
     "Every native operation, constructor, conversion and comparison of the Java binding gives the value the corresponding C call gives, converts numbers, intervals, expressions and constraints faithfully in both directions, and reports C exceptions as Java exceptions.",
     ["inputs", "histories"], "every bound operation on every pair of a value set", "The Java test runs a fixed scenario.",
     ["japron/apron", "japron/gmp"], [("JNI conversions", "japron/apron/japron.c")], ["apron.Abstract0"])
prop("C26", "Finite disjunctions denote the union of their components",
     "For disjunctive values over a base domain, join denotes the union, meet and every transfer operation act on each component, tests and extracted bounds and boxes agree with the union, and conversion to and from a list of components loses nothing.",
     ["histories", "inputs"], HIST, "No test uses the disjunctive completion.",
     ["apron/ap_disjunction.c"], [("component-wise lifting", "apron/ap_disjunction.c")], ["ap_disjunction_*"])
prop("C27", "Work limits and lossy options only enlarge results",
     "With any algorithm option, coefficient-size limit or approximation request, a result still contains the exact result, an overflow or out-of-space event is reported as an exception, and the manager keeps working for later calls.",
     ["histories", "fault_sequences", "configurations"], "every option value, each limit small enough to trigger, at every operation of the enumerated histories",
     "No test sets limits.", ["newpolka/pk_approximate.c", "newpolka/pk_internal.c", "newpolka/pk_user.c", "octagons/oct_transfer.c", "apron/ap_manager.c"],
     [("max_coeff_size, approximate algorithms", "newpolka/pk_approximate.c")], ["ap_abstract0_approximate", "pk_set_max_coeff_size"])
prop("C28", "Conversions between values, constraints, generators and boxes lose nothing",
     "Rebuilding a value from the constraints, tree constraints or (for octagons) generators extracted from it gives an equal value; generators and constraints extracted from the same polyhedron describe the same set, with every vertex, ray and line satisfying every constraint and being needed.",
     ["histories", "inputs"], HIST, "Random tests compare through a second domain; duality of the two extracted systems is never checked.",
     ["newpolka/pk_extract.c", "octagons/oct_predicate.c", "octagons/oct_transfer.c", "box/box_otherops.c", "ppl/ppl_user.cc"],
     [("extraction", "pk_extract.c")], ["ap_abstract0_to_lincons_array", "ap_abstract0_to_generator_array", "ap_abstract0_of_lincons_array"])
prop("C29", "Managers are independent and restore nothing they should not",
     "Operations through one manager never change results, options, flags, exceptions or values belonging to another manager, in any interleaving of calls on two managers; copying and freeing managers in any order keeps every live value usable.",
     ["schedules", "histories"], "every interleaving of two call sequences over two managers of the same or different libraries, and thread interleavings at call granularity",
     "Tests use managers one at a time.", ["apron/ap_manager.c", "newpolka/pk_user.c", "octagons/oct_representation.c", "box/box_internal.c"],
     [("per-manager workspace", "pk_internal_t, oct_internal_t, box_internal_t")], ["ap_manager_*"])
prop("C30", "Policy iteration on boxes returns a post-fixpoint bounded by plain propagation",
     "Meeting a box with constraints through a policy manager gives a box that still contains every concrete solution, and improving or reading policies never changes the values they are applied to.",
     ["histories", "inputs"], HIST, "Never exercised by a test.",
     ["apron/ap_policy.c", "box/box_policy.c"], [("policy manager", "box/box_policy.c")], ["ap_policy_*"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'properties.jsonl')
with open(out, 'w') as f:
    for p in P:
        assert len(p['title']) <= 80, p['title']
        f.write(json.dumps(p) + '\n')
print(len(P))
