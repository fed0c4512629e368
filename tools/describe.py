#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the table below (run by hand after editing it)."""
import json
import os
import sys

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "gen"))
I = "cpp/include/gatl/ga/"
T = []


def P(pid, title, statement, over, qtext, why, files, mech, observe, technique, note):
    T.append(dict(pid=pid, title=title, statement=statement, over=over, qtext=qtext, why=why, files=files, mech=mech, observe=observe, technique=technique, note=note))


GEN = "every multivector kind (compile-time constants, compile-time fractions, runtime scaled blades, sums, full k-vectors and multivectors), every coefficient value"
TESTS = "The suite multiplies full multivectors of a few signatures with random coefficients; it never meets"
MODEL = "the generated programs and inputs of one run only; the model is a dense long double implementation of the textbook definitions over the Gram matrix of the basis"

P("P01", "Metric products agree with the algebra in every orthogonal vector space",
  "For any two multivectors of a vector space with an orthogonal metric of any signature, the geometric, left and right contraction, dot, Hestenes inner and scalar products return the multivector that the definitions of the algebra give. This holds whichever parts of the operands are known at compile time and however few or many components they have.",
  ["programs", "inputs"], "all operand types (" + GEN + "), all six products, euclidean, homogeneous, plane-based, Minkowski and arbitrary (p,q,r) metrics up to 9 dimensions",
  TESTS + " sparse operands, compile-time coefficients, mixed grades, degenerate signatures other than the shipped ones, or dimensions above 5; signs and metric factors depend on each pair of basis blades and the simplifications on each operand type.",
  [I + "core/%s.hpp" % n for n in ("orthogonal_metric_mapping", "geometric_product", "left_contraction", "right_contraction", "dot_product", "hestenes_inner_product", "scalar_product", "rules", "expression", "expression_simplification_product_components", "expression_simplification_product_values")],
  [("product of two basis blades with metric factor and reordering sign", I + "core/orthogonal_metric_mapping.hpp"), ("distribution and merging of components", I + "core/expression_simplification_product_components.hpp")],
  ["ga::gp, lcont, rcont, dot, hip, sp with an explicit metric"],
  "random generation of typed C++ programs, differential against a dense reference model", MODEL)

P("P02", "Metric products agree with the algebra in vector spaces with a general metric",
  "For any two multivectors of the conformal model, or of a vector space whose metric is any constant symmetric matrix, the same six products return the multivector that the definitions of the algebra give for that matrix.",
  ["programs", "inputs"], "all operand types, all six products, conformal models up to 3 base dimensions and random symmetric integer matrices up to 4 dimensions, also singular ones",
  "The suite checks conformal products of full multivectors only; products under non-diagonal metrics recurse over minors of the matrix, and no test uses any other matrix or a sparse operand.",
  [I + "core/general_metric_mapping.hpp", I + "core/metric_space.hpp", I + "core/rules.hpp", I + "model/general.hpp", I + "model/conformal.hpp"],
  [("product of basis blades under a general metric matrix", I + "core/general_metric_mapping.hpp")],
  ["ga::gp, lcont, rcont, dot, hip, sp with a conformal or general metric"],
  "random generation of typed C++ programs and metric matrices, differential against a dense reference model", MODEL)

P("P03", "Exterior and regressive products do not depend on the metric",
  "The exterior product and the regressive product of any two multivectors are those of the Grassmann algebra of the vector space, for every metric of the space, degenerate ones included.",
  ["programs", "inputs"], "all operand types, spaces with orthogonal and general metrics up to 9 dimensions",
  TESTS + " sparse or compile-time operands, spaces of 6 or more dimensions, or regressive products in degenerate and general metrics.",
  [I + "core/%s.hpp" % n for n in ("outer_product", "exterior_product_mapping", "regressive_product", "regressive_product_mapping", "mapping", "expression_simplification_product_components")],
  [("exterior product of basis blades", I + "core/exterior_product_mapping.hpp"), ("regressive product of basis blades", I + "core/regressive_product_mapping.hpp")],
  ["ga::op, ga::rp"],
  "random generation of typed C++ programs, differential against a dense reference model", MODEL)

P("P04", "Derived products, operators and model namespaces mean the same products",
  "The commutator, delta and inverse geometric products equal what their definitions in terms of the geometric product give, with native numbers and scalars on either side too. The operators and functions of a model's namespace, which take no metric argument, return the same as the functions that take the model's metric explicitly.",
  ["programs", "inputs"], "all operand types on both sides, every namespace of the euclidean, homogeneous, plane-based, Minkowski and conformal models",
  "The suite calls each overload at most once, with fixed operand types; a wrong overload, operand order or metric shows up only for particular operand kinds.",
  [I + "core/arithmetic_operators.hpp", I + "core/macro_for_algebra_overload.hpp", I + "extra/macro_for_algebra_overload.hpp", I + "extra/commutator_product.hpp", I + "extra/delta_product.hpp", I + "extra/inverse_geometric_product.hpp", I + "core/metric_space.hpp"],
  [("overloads bound to a metric space", I + "core/macro_for_algebra_overload.hpp"), ("delta product as the largest grade of the geometric product", I + "extra/delta_product.hpp")],
  ["operators * ^ | < > / and functions cp, dp, igp of a model namespace"],
  "random generation of typed C++ programs, differential against a dense reference model", MODEL)

P("P05", "Lazy evaluation gives the value of the same expression evaluated step by step",
  "Evaluating any expression of products, sums, involutions and constant factors through a lazy context gives the value that evaluating it operation by operation gives, and both equal the value defined by the algebra. This includes expressions that repeat their arguments, mix lazy arguments with ordinary ones, or simplify at compile time.",
  ["programs", "inputs"], "random expression trees of depth up to 4 over one to four operands of every static kind, in all metrics",
  "The suite compares a few fixed lazy expressions; the rewriting that happens at compile time depends on the whole expression type, of which there are unboundedly many.",
  [I + "core/lazy_context.hpp", I + "core/expression.hpp", I + "core/expression_simplification_addition_values.hpp", I + "core/expression_simplification_addition_components.hpp", I + "core/expression_simplification_product_values.hpp", I + "core/expression_simplification_product_components.hpp", I + "core/expression_simplification_power.hpp"],
  [("rewriting of sums and products of lazy values", I + "core/expression_simplification_product_values.hpp"), ("evaluation of tagged expressions", I + "core/lazy_context.hpp")],
  ["ga::make_lazy_context_tuple and eval, against direct evaluation"],
  "random generation of expression trees as C++ programs, differential (lazy, eager, model)", MODEL)

P("P06", "Addition, subtraction and negation are those of the vector space",
  "Sums and differences of any multivectors, in any order and grouping, have in every component the sum of the components of the terms, including terms that cancel, repeat, are zero, or are native numbers; equal components known at compile time combine exactly.",
  ["programs", "inputs"], "sequences of two to six terms of every static kind, with signs and constant factors",
  TESTS + " sums whose terms have partially overlapping components or compile-time coefficients, where components are merged, dropped and reordered by type.",
  [I + "core/arithmetic_operators.hpp", I + "core/expression_simplification_addition_components.hpp", I + "core/expression_simplification_addition_values.hpp"],
  [("ordered merge of component lists", I + "core/expression_simplification_addition_components.hpp")],
  ["operators + and - (unary and binary)"],
  "random generation of typed C++ programs, differential against a dense reference model", MODEL)

P("P07", "Basis blades chosen at run time behave as the same blades chosen at compile time",
  "Products, involutions, norms, inverses and grade selection of basis vectors and blades whose indices are only known at run time give the result of the same operation on the blades they hold.",
  ["programs", "inputs"], "runtime-indexed unit and scaled blades of any grade interval against each other and single-component operands, orthogonal metrics up to 8 dimensions, every choice of blades",
  "The suite does not exercise runtime indices beyond a few constructions; signs and metric factors are computed by bit arithmetic at run time for every pair of blades.",
  [I + "core/%s.hpp" % n for n in ("orthogonal_metric_mapping", "exterior_product_mapping", "regressive_product_mapping", "expression", "expression_graded_unary_minus")] + [I + "util/basis_vector.hpp", I + "util/basis_blade.hpp", I + "model/signed/metric_space.hpp"],
  [("runtime reordering sign and metric factor", I + "core/orthogonal_metric_mapping.hpp")],
  ["ga::e(index), dynamic blades, products and graded operations of them"],
  "random generation of typed C++ programs over runtime blade indices, differential against a dense reference model", MODEL)

P("P08", "Scalar functions compute the real functions they are named after",
  "Roots, powers, absolute value, exponential, logarithm, trigonometric and hyperbolic functions and quotients of scalar expressions return the real value of the function within rounding, for every argument in the function's real domain, lazily or not, and whatever simplification the library applies to their composition.",
  ["programs", "inputs"], "random compositions of the functions up to depth 4 over one to three runtime scalars, compile-time integers and fractions and native numbers, and every ordered pair of functions composed",
  "The suite has no test of functions of scalars; rewriting rules such as merging and distributing powers are right for some signs of the argument only.",
  [I + "core/expression.hpp", I + "core/expression_simplification_power.hpp", I + "core/expression_simplification_product_values.hpp", I + "core/expression_traits.hpp", I + "core/math.hpp", I + "core/arithmetic_operators.hpp"],
  [("rules on powers, roots and absolute values", I + "core/expression_simplification_power.hpp")],
  ["ga::sqrt, cbrt, pow, abs, exp, log, cos, sin, tan, cosh, sinh, tanh and / on scalar expressions"],
  "random generation of function compositions as C++ programs, differential against long double arithmetic with error bounds", "compositions whose rounding error bound is small; arguments at least 0.05 away from singularities")

P("P09", "Reversion, involution and conjugation have their defining signs",
  "Reversion, grade involution, Clifford conjugation and sign change multiply the part of each grade by the sign that defines them, compose accordingly, and are (anti)automorphisms of the geometric product in every metric.",
  ["programs", "inputs"], "all operand kinds, runtime blades too, up to 9 dimensions, eager and lazy",
  TESTS + " grades above 5, sparse operands or runtime blades, and checks no relation between an involution and a product.",
  [I + "core/reversion.hpp", I + "core/involution.hpp", I + "core/conjugation.hpp", I + "core/expression_graded_unary_minus.hpp", I + "core/arithmetic_operators.hpp"],
  [("grade-dependent signs", I + "core/expression_graded_unary_minus.hpp")],
  ["ga::reverse, involute, conjugate, operator ~ and unary operators"],
  "random generation of typed C++ programs, differential and metamorphic relations", MODEL)

P("P10", "Grade inspection and extraction honour the grades and the tolerance",
  "The grade, the largest grade, the part of a given grade and the part of largest grade of a multivector are determined by exactly the components whose magnitude exceeds the tolerance, with the documented distinction between mixed and undetermined grades.",
  ["programs", "inputs"], "all operand kinds with many zero and small coefficients, runtime and compile-time tolerances, compile-time and runtime grades, eager and lazy",
  "The suite does not test grade functions; their outcome depends on which coefficients are zero at run time, and on where the tolerance falls.",
  [I + "extra/grade.hpp", I + "extra/take_grade.hpp", I + "core/default_tolerance.hpp"],
  [("grade deduction over conditional expressions", I + "extra/grade.hpp"), ("conditional extraction", I + "extra/take_grade.hpp")],
  ["ga::grade, largest_grade, take_grade, take_largest_grade"],
  "random generation of typed C++ programs, differential against a dense reference model", MODEL)

P("P11", "Norms, inverses and the tests built on them agree with the metric",
  "The (squared) reverse norm, the inverse and the unit multiple of a multivector are those of the metric, an inverse times its versor is one, and the tests for zero, null and unit multivectors answer according to the tolerance.",
  ["programs", "inputs"], "all operand kinds, versors of up to three factors, all metrics up to 7 dimensions, runtime and default tolerances, native numbers",
  "The suite does not reach these functions for sparse operands, negative squared norms or null multivectors.",
  [I + "extra/reverse_norm.hpp", I + "extra/versor_inverse.hpp", I + "extra/unit.hpp", I + "extra/tests.hpp"],
  [("squared norm as a scalar product with the reverse", I + "extra/reverse_norm.hpp")],
  ["ga::rnorm_sqr, rnorm, inv, unit, is_zero, is_null, is_unit"],
  "random generation of typed C++ programs, differential and round-trip (inverse)", MODEL)

P("P12", "Duality follows its definition and undualisation reverses it",
  "The dual of a multivector is its left contraction onto the inverse of the pseudoscalar (or of the given blade), the undual is its left contraction onto the blade, and taking the undual of the dual with respect to the pseudoscalar returns the multivector.",
  ["programs", "inputs"], "all operand kinds, every model with a namespace and random metrics, default and given pseudoscalars, eager and lazy",
  "The suite does not test dualisation; the sign depends on grade, dimension and signature.",
  [I + "extra/dualization.hpp", I + "extra/macro_for_algebra_overload.hpp"],
  [("dual and undual through the left contraction", I + "extra/dualization.hpp")],
  ["ga::dual, ga::undual and the namespace overloads"],
  "random generation of typed C++ programs, differential and round-trip", MODEL)

P("P13", "Versors transform multivectors by sandwiching them with the right sign",
  "Applying an even versor, an odd versor or a rotor to a multivector gives the sandwich product that defines the transformation, whatever the norm of the versor, and rotors preserve scalar products.",
  ["programs", "inputs"], "versors of one to three vector factors (scaled, constant and runtime), operands of every kind, all metrics up to 5 dimensions",
  "The suite does not test versors; signs differ by the parity of the versor and the grade of the operand.",
  [I + "extra/apply_versor.hpp"],
  [("sandwich products", I + "extra/apply_versor.hpp")],
  ["ga::apply_even_versor, apply_odd_versor, apply_rotor"],
  "random generation of typed C++ programs, differential and metamorphic relations", MODEL)

P("P14", "The exponential of a blade is the sum of its power series",
  "For every even blade, the exponential is the sum of the exponential series, whatever the sign of the blade's square (circular, hyperbolic or null) and however small the blade, with the tolerance deciding only what counts as null.",
  ["programs", "inputs"], "blades of grades 0, 2 and 4 given as constants, runtime scaled blades, sums and wedge products, all metrics up to 6 dimensions, runtime tolerances, eager and lazy",
  "The suite has no exponential of a blade; which of the branches is taken depends on the metric and on runtime values.",
  [I + "extra/blade_exponential.hpp"],
  [("branch on the signed square of the blade", I + "extra/blade_exponential.hpp")],
  ["ga::exp with a metric, and the namespace overloads"],
  "random generation of typed C++ programs, differential against the exponential series", MODEL)

P("P15", "Meet, join and plunge of blades are the subspaces they are defined as",
  "For any two blades, the meet spans the intersection of their subspaces, the join spans their union, and each follows from the other through the operands with the defined scale and sign. The fast versions return the same subspaces with a unit join, and the plunge is the outer product of the duals of the operands in their join. This holds for disjoint, overlapping, nested, parallel, equal and zero operands.",
  ["programs", "inputs"], "pairs of blades of every pair of grades built from generated vectors that share any number of directions, in up to five dimensions, in exchanged order, with types that have room for other grades and every shipped model, general and fast versions, every way of giving the tolerance",
  "The suite does not test meet, join or plunge; the algorithms follow different paths for every relation between the subspaces, and intermediate projections may be numerically dependent.",
  [I + "extra/%s.hpp" % n for n in ("meet_and_join", "fast_meet_and_join", "plunge", "fast_plunge", "delta_product")],
  [("selection of independent factors by projection", I + "extra/meet_and_join.hpp"), ("largest grade of the delta product", I + "extra/delta_product.hpp")],
  ["ga::meet_and_join, fast_meet_and_join, fast_join, plunge, fast_plunge"],
  "random generation of typed C++ programs, differential against linear algebra on the generated factors", MODEL)

P("P16", "Projection and rejection split a multivector by a subspace",
  "In the Euclidean model, the projection of any multivector onto an invertible blade is the outermorphism of the orthogonal projection onto the blade's subspace, whatever the scale and sign of the blade, and the rejection is what the projection leaves out.",
  ["programs", "inputs"], "all operand kinds, blades of every grade that are wedges of generated vectors, up to five dimensions, eager and lazy",
  "The suite does not test projections; the scale and sign of the inverse of the blade depend on its grade and norm.",
  [I + "model/signed/euclidean/orthogonal_projection.hpp", I + "model/signed/euclidean/rejection.hpp"],
  [("projection through two left contractions", I + "model/signed/euclidean/orthogonal_projection.hpp")],
  ["ga::project, ga::reject and the namespace overloads"],
  "random generation of typed C++ programs, differential against orthogonalised factors", MODEL)

P("P17", "Flats of the homogeneous model report the geometry they were built from",
  "For a flat of any dimension given by a point, directions and a weight, the direction, moment, support vector and unit support point are the ones of that geometry, translating the flat moves its points by the vector, and ideal flats keep their direction.",
  ["programs", "inputs"], "flats of every dimension in spaces of dimension 1 to 4, general and ideal, weighted, stored sparsely, fully or with compile-time coordinates",
  "The suite does not use the homogeneous model beyond its products.",
  [I + "model/signed/homogeneous/%s.hpp" % n for n in ("flat_direction", "flat_moment", "flat_support_vector", "flat_unit_support_point", "translation", "point", "euclidean_vector")],
  [("contractions with the ideal reciprocal vector", I + "model/signed/homogeneous/flat_direction.hpp")],
  ["the homogeneous model's functions on flats, translate, point, euclidean_vector"],
  "random generation of typed C++ programs, differential against vector geometry", MODEL)

P("P18", "Conformal objects report the geometry they were built from",
  "For flats, rounds and tangents of the conformal models, given primal or dual by a centre, directions, squared size and weight, the direction, location and squared size returned are the ones of that geometry, and the inner product of two points gives their squared distance.",
  ["programs", "inputs"], "flats, rounds (real and imaginary) and tangents of every dimension in spaces of dimension 1 to 3, primal and dual, weighted, in both conformal bases, built from components or with the library's points",
  "The suite does not use these functions; signs depend on dimension, grade and duality.",
  [I + "model/conformal/%s.hpp" % n for n in ("flat_direction", "flat_location", "round_direction", "round_location", "round_size_sqr", "tangent_direction", "tangent_location", "point")] + [I + "model/signed/minkowski/%s.hpp" % n for n in ("flat_direction", "flat_location", "round_direction", "round_location", "round_size_sqr", "tangent_direction", "tangent_location", "point")],
  [("squared size from the grade involution", I + "model/conformal/round_size_sqr.hpp"), ("the same functions on orthogonal basis vectors", I + "model/signed/minkowski/round_size_sqr.hpp")],
  ["primal and dual flat, round and tangent direction, location and size_sqr"],
  "random generation of typed C++ programs, differential against vector geometry", MODEL)

P("P19", "Constructors and named constants build the multivectors they name",
  "Vectors, points, Euclidean vectors, basis vectors and blades, scalars, constants, pseudoscalars, full vectors, k-vectors and multivectors have exactly the components given by their arguments, whichever of these are run-time numbers, integers, iterators or compile-time constants; the named constants of every namespace are what their names say.",
  ["programs", "inputs"], "every constructor of every model and namespace with mixed kinds of coordinates (lvalues, temporaries, constants, scalars, iterators), basis vectors and pseudoscalars of up to 63 dimensions, all named constants",
  "The suite builds multivectors from arrays only; each mix of coordinate kinds is a different type.",
  [I + "util/%s.hpp" % n for n in ("vector", "basis_vector", "basis_blade", "multivector", "pseudoscalar")] + [I + "core/scalar.hpp", I + "core/constant.hpp", I + "model/conformal/point.hpp", I + "model/signed/minkowski/point.hpp", I + "model/signed/homogeneous/point.hpp"],
  [("assembly of components from mixed coordinates", I + "util/vector.hpp")],
  ["ga::vector, e, scalar, c, pseudoscalar, point, euclidean_vector, full_*_t and the constants of the namespaces"],
  "random generation of typed C++ programs, differential against a dense reference model", MODEL)

P("P20", "Copies and conversions between multivector types preserve the value",
  "Converting or copying a multivector to another type with room for its components gives the same value, with every component of the result that the input lacks set to zero; a checked copy fails exactly when a component without room exceeds the tolerance. Copies are independent of their source.",
  ["programs", "inputs"], "pairs of source and destination types (subsets, supersets, full k-vectors and multivectors, runtime blades, constants, different number types), prefilled destinations, tolerances",
  "The suite converts a few pairs of types; component lists are merged by type and by run-time bitset.",
  [I + "core/trivial_copy.hpp", I + "core/clifford_expression.hpp", I + "core/exceptions.hpp"],
  [("component by component copy between expression types", I + "core/trivial_copy.hpp")],
  ["ga::trivial_copy, checked_trivial_copy, converting constructors and assignments of clifford_expression"],
  "random generation of typed C++ programs, differential against a dense reference model, prefilled outputs", MODEL)

P("P21", "Text output and iteration show each component once and rightly",
  "Writing a multivector produces text that, read as an arithmetic expression over basis blades, is the multivector's value. Iterating over components or basis vectors visits each one once (basis vectors in ascending order), with its value and origin, stops when asked to, and lets the visitor's exceptions through.",
  ["programs", "inputs"], "all operand kinds, lazily built values, runtime blades up to the largest index, names of every namespace and custom names, negative and fractional coefficients, stops and exceptions at every position",
  "The suite has no test of output or iteration; the text depends on the type of every subexpression.",
  [I + "extra/write.hpp", I + "util/for_each_component.hpp", I + "util/for_each_basis_vector.hpp"],
  [("printing of values and basis blades", I + "extra/write.hpp"), ("visit of stored and constant components", I + "util/for_each_component.hpp")],
  ["ga::write, operator<<, ga::for_each_component, ga::for_each_basis_vector"],
  "random generation of typed C++ programs, round trip through an independent parser of the text, invariants over visits", MODEL)

P("P22", "No operation has undefined behaviour or touches memory it does not own",
  "Evaluating any combination of the library's operations on valid operands reads and writes only live objects and performs no undefined arithmetic, including lazy contexts, temporaries, iterators, copies and text output; no result depends on what its memory held before.",
  ["programs", "inputs"], "programs drawn from the generators of the other properties plus programs about lifetimes (results that outlive their operands, coordinates in memory of exactly their size, objects created in memory that held other values, containers) and about basis vectors up to the 63rd, with address and undefined behaviour sanitizers",
  "Undefined behaviour does not show in the value of a passing test; a dangling reference needs a temporary operand of the right type.",
  [I + "core/%s.hpp" % n for n in ("clifford_expression", "lazy_context", "expression", "scalar", "trivial_copy")] + [I + "util/vector.hpp", I + "extra/grade.hpp", I + "extra/write.hpp"],
  [("argument storage of lazy contexts", I + "core/lazy_context.hpp"), ("storage of expressions", I + "core/clifford_expression.hpp")],
  ["every public function, under sanitizers"],
  "random generation of typed C++ programs run under AddressSanitizer and UndefinedBehaviorSanitizer", "the generated programs and inputs of one run only; what the sanitizers of GCC 11 detect at -O1")

P("P23", "Results do not depend on number types and configuration beyond rounding",
  "With single, double and extended precision, integers, or mixed coefficient types, and with the documented configuration macros changed, the library compiles and gives the same results within the precision of the types; the configured default tolerances are the ones that apply.",
  ["programs", "inputs", "configurations"], "float, double, long double, int and mixed operands under the products, functions, norms and grade tests; default number types, maximum basis vector index and default tolerances set by macros",
  "The suite uses double only, and never sets a macro.",
  [I + "core.hpp", I + "core/default_tolerance.hpp", I + "core/type_traits_extension.hpp", I + "core/clifford_expression.hpp", I + "core/arithmetic_operators.hpp"],
  [("common coefficient types", I + "core/clifford_expression.hpp"), ("default tolerances", I + "core/default_tolerance.hpp")],
  ["every public function, with other number types and macros"],
  "random generation of typed C++ programs and configurations, differential against a dense reference model", MODEL)

P("P24", "What is known at compile time takes no storage in the results",
  "The result of an operation on multivectors whose basis blades are known at compile time has each basis blade at most once, only the blades that the operation can make nonzero, and stores only the coefficients that depend on stored ones. Expressions of constants, and lazy expressions of arguments, take no storage at all.",
  ["programs", "inputs"], "products, sums, sign changes and grade selections, eager and lazy, of operands of every kind in every space; compositions of constants",
  "The suite compares the sizes of eighteen expressions; the structure of a result depends on the type of every operand and on the metric.",
  [I + "core/%s.hpp" % n for n in ("expression_simplification_addition_components", "expression_simplification_product_components", "expression_simplification_addition_values", "expression_simplification_product_values", "clifford_expression", "lazy_context")] + [I + "util/for_each_component.hpp"],
  [("simplification of components", I + "core/expression_simplification_product_components.hpp"), ("storage of expressions", I + "core/clifford_expression.hpp")],
  ["for_each_component (entry sources) and sizeof of results"],
  "random generation of typed C++ programs, structural oracle from the reference model's product table", MODEL)

P("P25", "Constant expressions evaluate to the values they have at run time",
  "Products, sums, sign changes, copies, lazy evaluations, norms, inverses, duals, versors, exponentials, functions of scalars, meets and joins, and grade functions can be evaluated in constant expressions, and their results there are those of the algebra and those of evaluating the same operation at run time.",
  ["programs", "inputs"], "operations on operands of every kind, with run-time numbers that are literals of a constant expression, evaluated by the compiler on twelve sets of inputs per program",
  "The suite evaluates nothing in constant expressions; the compiler's evaluation also refuses undefined behaviour on the way.",
  [I + "core/%s.hpp" % n for n in ("constexpr", "clifford_expression", "lazy_context", "expression", "trivial_copy", "scalar")] + [I + "util/vector.hpp", I + "extra/grade.hpp"],
  [("constexpr evaluation of expressions", I + "core/lazy_context.hpp"), ("bit counting at compile time", I + "core/constexpr.hpp")],
  ["every constexpr function of the core and of extra"],
  "random generation of constant expressions evaluated by the compiler, differential against a dense reference model and against run-time evaluation", MODEL)

P("P26", "Every way of writing a call means the same call",
  "A product, duality, norm, grade, test, versor, exponential or subspace operation gives the value that its definition gives however the call is written: with native numbers in place of scalars, with the metric given, bound by a model's namespace or left out, and with the tolerance or pseudoscalar given in any documented form or left to its default.",
  ["programs", "inputs"], "every overload: function x kind of each argument (multivector, scalar, native number) x explicit metric, model namespace or none x tolerance absent, constant, number, scalar or single precision; operators with mixed arguments",
  "The suite calls a few of the several hundred overloads; a wrong default, argument order or forwarded metric in one of them shows in calls of that form only.",
  [I + "core/macro_for_algebra_overload.hpp", I + "extra/macro_for_algebra_overload.hpp", I + "core/arithmetic_operators.hpp", I + "extra/arithmetic_operators.hpp"] + [I + "extra/%s.hpp" % n for n in ("delta_product", "inverse_geometric_product", "commutator_product", "grade", "take_grade", "dualization", "reverse_norm", "unit", "tests", "apply_versor", "blade_exponential", "meet_and_join", "fast_meet_and_join", "plunge", "fast_plunge", "versor_inverse")],
  [("overloads for native numbers and default arguments", I + "extra/delta_product.hpp"), ("overloads bound to a metric space", I + "extra/macro_for_algebra_overload.hpp")],
  ["every overload of the public functions and operators"],
  "random generation of typed C++ programs stratified over the overloads, differential against a dense reference model", MODEL)

# --- more are appended below ---


def main():
    try:
        import props, props2, props4, props5, props6, props7
        try:
            import props4
        except ImportError:
            pass
        have = set(props.PROPS)
    except ImportError:
        have = set(t["pid"] for t in T)
    with open(os.path.join(V, "properties.jsonl"), "w") as f:
        for t in T:
            if t["pid"] not in have:
                continue
            assert len(t["title"]) <= 80, t["title"]
            f.write(json.dumps({
                "id": t["pid"], "title": t["title"], "statement": t["statement"],
                "quantifier": {"over": t["over"], "text": t["qtext"]}, "why_tests_cant": t["why"],
                "anchors": {"files": t["files"], "mechanism": [{"name": a, "where": b} for a, b in t["mech"]], "observe_at": t["observe"], "hook_needed": None},
            }) + "\n")
            for x in t["files"]:
                assert os.path.exists(os.path.join("/repo", x)), x
    m = {
        "version": 1,
        "setup_cmd": "python3 -c \"import sys; assert sys.version_info >= (3, 8)\" && /usr/bin/g++-11 --version >/dev/null",
        "checks": [{
            "property": t["pid"],
            "quick_cmd": "python3 gen/run.py %s quick" % t["pid"],
            "thorough_cmd": "python3 gen/run.py %s thorough" % t["pid"],
            "technique": t["technique"], "level": "exploration", "level_note": t["note"],
        } for t in T if t["pid"] in have],
        "not_applicable": [],
        "notes": "Every check generates C++ programs that use the public interface, compiles them against /repo/cpp/include, runs them on generated inputs and compares with a reference model; run.py --replay FILE reproduces a reported violation.",
    }
    with open(os.path.join(V, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1)
        f.write("\n")


main()
