#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the table below and harness/checks.json."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
R, C, M = 'viennamath/runtime/', 'viennamath/compiletime/', 'viennamath/manipulation/'
P = []
def p(id, title, statement, over, text, why, files, mech, **kw):
    P.append({'id': id, 'title': title, 'statement': statement, 'quantifier': {'over': over, 'text': text}, 'why_tests_cant': why,
              'anchors': dict({'files': files, 'mechanism': [{'name': a, 'where': b} for a, b in mech]}, **kw)})

p('C01', 'Run-time evaluation returns the value of the expression',
  'Evaluating a run-time expression at a point returns exactly the value the formula has at that point in real arithmetic, whichever point type (scalar, std::vector, user vector, viennamath vector) and whichever handle (wrapper, copy, bare node) is used.',
  ['inputs', 'programs'], 'every expression tree, every constant, every point',
  'Tests evaluate a handful of fixed formulas at one or two points; wrong operator, swapped operand or wrong index shows only for other trees and points.',
  [M + 'eval.hpp', R + 'expr.hpp', R + 'binary_expr.hpp', R + 'unary_expr.hpp', R + 'variable.hpp', R + 'constant.hpp', M + 'detail/binary_operations.hpp', M + 'detail/unary_operations.hpp'],
  [('virtual eval over vector and scalar', R + 'expression_interface.hpp'), ('op_binary / op_unary apply', M + 'detail')])
p('C02', 'Compile-time evaluation agrees with the formula',
  'Evaluating a compile-time expression at run-time or compile-time points gives the value of the formula.',
  ['inputs', 'programs'], 'every compile-time expression type, every point',
  'Each expression is a different type with different overloads chosen; tests instantiate a few.',
  [M + 'eval.hpp', C + 'ct_binary_expr.hpp', C + 'ct_constant.hpp', C + 'ct_variable.hpp', C + 'ct_vector.hpp', C + 'promote_traits.hpp'],
  [('compile-time eval overloads', M + 'eval.hpp'), ('operator() of compile-time expressions', C + 'ct_binary_expr.hpp')])
p('C03', 'Conversion from compile time to run time preserves the value',
  'Constructing a run-time expression, or assigning to one, from any compile-time expression yields an expression with the same value at every point.',
  ['inputs', 'programs'], 'every compile-time expression type, every point, conversion by construction and by assignment',
  'Conversions are separate overloads per operand kind; tests convert two or three formulas.',
  [R + 'expr.hpp', R + 'binary_expr.hpp', R + 'unary_expr.hpp', R + 'variable.hpp', R + 'constant.hpp'],
  [('converting constructors and assignments', R + 'expr.hpp'), ('operand conversion', R + 'binary_expr.hpp')])
p('C04', 'Arithmetic operators mean the same for every mix of operand kinds',
  'For any two operands among numbers, constants, variables, compile-time and run-time expressions, a+b, a-b, a*b and a/b have the value of that operation on the operand values, including where an overload condenses constants or cancels; building and dropping them leaks no memory.',
  ['inputs', 'programs'], 'every pair of operand kinds and values, every point, nested twice',
  'There are several hundred overload combinations with special folding rules; tests use a few.',
  [R + 'operations/rt_rt.hpp', R + 'operations/constant.hpp', R + 'operations/function_symbol.hpp', C + 'operations/ct_ct.hpp', C + 'operations/ct_expr.hpp', C + 'operations/ct_constant.hpp', C + 'operations/ct_variable.hpp', R + 'binary_operators.hpp', R + 'unary_operators.hpp'],
  [('operator overloads', R + 'operations'), ('constant condensing', C + 'operations/ct_expr.hpp')])
p('C05', 'Run-time simplification preserves the value',
  'Simplifying a run-time expression gives an expression with the same value wherever the original is defined, leaves its argument unchanged, and works alike for the copying and the in-place form.',
  ['inputs', 'programs'], 'every expression tree, every value of the constants, every point',
  'Rewrite rules fire on particular constants (0, 1, -1) in particular positions and interact; tests check a few strings.',
  [M + 'simplify.hpp', R + 'binary_expr.hpp', R + 'unary_expr.hpp', M + 'detail/binary_operations.hpp', M + 'detail/unary_operations.hpp'],
  [('simplify rules', M + 'detail/binary_operations.hpp'), ('iteration to a fixed point', M + 'simplify.hpp')])
p('C06', 'Run-time simplification ends with nothing trivial left',
  'Run-time simplification terminates for every expression; in the result no sum or difference has a zero operand, no product a zero or unit operand, no quotient a zero numerator or unit denominator, and no binary operation has two constant operands; simplifying again changes nothing.',
  ['inputs', 'programs'], 'every expression tree and every value of the constants',
  'Termination and completeness of rewriting depend on rule interaction and on constants the tests never use.',
  [M + 'simplify.hpp', R + 'binary_expr.hpp', R + 'unary_expr.hpp', M + 'detail/binary_operations.hpp'],
  [('can_simplify / simplify pair', R + 'binary_expr.hpp'), ('fixed-point loop', M + 'simplify.hpp')])
p('C07', 'Run-time differentiation is correct',
  'Differentiating a run-time expression with respect to a variable yields an expression whose value is the partial derivative wherever that derivative is defined, for run-time and compile-time variable arguments, and leaves the argument unchanged.',
  ['inputs', 'programs'], 'every expression tree of differentiable operations, every constant, every point, every variable',
  'The existing test compares a few strings; product, quotient and chain rule errors show only for particular nesting.',
  [M + 'diff.hpp', R + 'binary_expr.hpp', R + 'unary_expr.hpp', M + 'detail/binary_operations.hpp', M + 'detail/unary_operations.hpp', R + 'variable.hpp', R + 'constant.hpp'],
  [('diff rules per operation', M + 'detail'), ('diff entry points', M + 'diff.hpp')])
p('C08', 'Function symbols differentiate as symbols',
  'The derivative of an expression with respect to a function symbol is its partial derivative with that symbol treated as an independent value, and the derivative of a function symbol with respect to a variable is the partial-derivative term of exactly that symbol and variable.',
  ['inputs', 'programs'], 'every expression with function symbols, every symbol id and tag, every variable id',
  'No test differentiates by a function symbol; confusing ids or tags cannot show with one symbol.',
  [M + 'diff.hpp', R + 'function_symbol.hpp', R + 'variable.hpp', R + 'constant.hpp', C + 'unary_op_tags.hpp'],
  [('diff by function symbol', R + 'function_symbol.hpp')])
p('C09', 'Substitution of variables equals evaluation at substituted values',
  'Substituting expressions for variables gives an expression whose value is that of the original with those variables simultaneously replaced; variables not mentioned keep their value and the arguments are unchanged.',
  ['inputs', 'programs'], 'every expression tree, every set of replacements, every point',
  'Simultaneity and untouched variables only show when replacements mention the replaced variables, which tests do not do.',
  [M + 'substitute.hpp', R + 'expr.hpp', R + 'binary_expr.hpp', R + 'unary_expr.hpp', R + 'variable.hpp'],
  [('substitute virtuals', R + 'expression_interface.hpp'), ('free substitute', M + 'substitute.hpp')])
p('C10', 'Substitution of subexpressions replaces exactly the equal ones',
  'Substituting a general expression replaces every occurrence of a structurally equal subexpression and nothing else; if none occurs the value and structure do not change.',
  ['inputs', 'programs'], 'every expression tree, every pattern, every replacement',
  'Tests substitute single variables and one function symbol only.',
  [M + 'substitute.hpp', R + 'binary_expr.hpp', R + 'unary_expr.hpp', R + 'constant.hpp', R + 'function_symbol.hpp', R + 'vector_expr.hpp'],
  [('deep_equal match before descent', R + 'binary_expr.hpp')])
p('C11', 'Structural equality is exactly structural',
  'Deep comparison of two run-time expressions is true exactly if they are the same tree (same node kinds, operations, ids, tags and constants in the same order), never crashes, and shallow comparison is true exactly if the root nodes are of the same kind.',
  ['inputs', 'programs'], 'every pair of expression trees of every node kind',
  'Tests never compare unequal trees of nearly the same shape or of different kinds or lengths.',
  [R + 'binary_expr.hpp', R + 'unary_expr.hpp', R + 'constant.hpp', R + 'variable.hpp', R + 'function_symbol.hpp', R + 'vector_expr.hpp', R + 'expr.hpp', R + 'op_interface.hpp'],
  [('deep_equal / shallow_equal', R + 'expression_interface.hpp'), ('operation comparison', R + 'op_interface.hpp')])
p('C12', 'Expressions are values: copies are independent and nothing leaks',
  'Copying, assigning (also to itself or to a part of itself) and destroying expressions never causes invalid memory accesses or leaks, and no later operation on a copy changes the original; every library operation leaves its const arguments unchanged and releases what it allocated.',
  ['histories', 'programs', 'inputs'], 'every sequence of copy, assignment and library operations over every expression kind',
  'Ownership is by raw and auto_ptr; the tests run no memory checker and few histories.',
  [R + 'expr.hpp', R + 'binary_expr.hpp', R + 'unary_expr.hpp', R + 'vector_expr.hpp', R + 'interval.hpp', R + 'equation.hpp', M + 'simplify.hpp', M + 'substitute.hpp', M + 'diff.hpp'],
  [('clone-on-copy', R + 'expr.hpp')])
p('C13', 'Constant recognition and unwrapping are consistent',
  'An expression reported constant has the same value at every point, namely its unwrapped value; an expression built from numbers only unwraps to its value.',
  ['inputs', 'programs'], 'every expression tree, every constant, every point',
  'Only the public predicates on single nodes are ever exercised by tests.',
  [R + 'expr.hpp', R + 'binary_expr.hpp', R + 'unary_expr.hpp', R + 'constant.hpp', R + 'variable.hpp', R + 'vector_expr.hpp'],
  [('is_constant / unwrap', R + 'expression_interface.hpp')])
p('C14', 'Misuse is reported by the documented exceptions',
  'Evaluating with a point that lacks a coordinate the expression needs, evaluating or unwrapping function symbols, vectors and variables, and differentiating non-differentiable operations raise the corresponding exception of the library in every position of the tree, never undefined behaviour or a silent value, and what() names the problem.',
  ['inputs', 'programs', 'fault_sequences'], 'every expression tree with an offending node in any position, every point length',
  'No test provokes any of these errors.',
  ['viennamath/exception.hpp', R + 'variable.hpp', R + 'function_symbol.hpp', R + 'vector_expr.hpp', R + 'constant.hpp', R + 'op_interface.hpp', M + 'detail/unary_operations.hpp', C + 'ct_vector.hpp'],
  [('bounds check of coordinates', R + 'variable.hpp'), ('exception classes', 'viennamath/exception.hpp')])
p('C15', 'Compile-time expansion preserves the value and leaves no product of sums',
  'Expanding a compile-time expression gives an expression of equal value in which no factor of a product is a sum or difference.',
  ['programs', 'inputs'], 'every compile-time expression type, every point',
  'Each shape instantiates a different specialisation; tests expand a few.',
  [M + 'expand.hpp'], [('expand specialisations', M + 'expand.hpp')])
p('C16', 'Compile-time simplification preserves the value',
  'Simplifying a compile-time expression gives an expression of equal value at every point where the original is defined, with exact rational arithmetic on the constants, and is accepted for every expression that can be written.',
  ['programs', 'inputs'], 'every compile-time expression type, every point',
  'Hundreds of partial specialisations with overlapping patterns; tests instantiate a dozen.',
  [M + 'simplify.hpp'], [('simplify specialisations', M + 'simplify.hpp')])
p('C17', 'Compile-time differentiation is correct',
  'Differentiating a compile-time expression with respect to a variable gives an expression whose value is the partial derivative wherever it is defined.',
  ['programs', 'inputs'], 'every compile-time expression type, every variable, every point',
  'Tests differentiate a few polynomials.',
  [M + 'diff.hpp', M + 'simplify.hpp', M + 'expand.hpp'], [('diff specialisations', M + 'diff.hpp')])
p('C18', 'Compile-time substitution replaces exactly the given expression',
  'Substituting within a compile-time expression gives the value of the original with every occurrence replaced, leaving the rest alone.',
  ['programs', 'inputs'], 'every compile-time expression type, pattern and replacement, every point',
  'Tests substitute one variable in a few formulas.',
  [M + 'substitute.hpp'], [('compile-time substitute specialisations', M + 'substitute.hpp')])
p('C19', 'Compile-time coefficient and term dropping are consistent',
  'For polynomial compile-time expressions, the coefficient of a factor times the factor plus the terms not depending on it gives the original value when the factor occurs linearly, and dropping dependent terms equals setting that contribution to zero.',
  ['programs', 'inputs'], 'every compile-time expression type linear in the factor, every point',
  'Tests extract a handful of coefficients.',
  [M + 'coefficient.hpp', M + 'drop_dependent_terms.hpp'], [('coefficient specialisations', M + 'coefficient.hpp'), ('drop_dependent_terms', M + 'drop_dependent_terms.hpp')])
p('C20', 'Compile-time integration of polynomials is exact',
  'Integrating a polynomial compile-time expression over an interval with constant or variable bounds, also nested, gives the exact definite integral.',
  ['programs', 'inputs'], 'every polynomial compile-time expression, every interval of bounds, every point',
  'Tests integrate a few monomials over the unit interval.',
  [M + 'integrate.hpp', C + 'ct_interval.hpp', M + 'coefficient.hpp', M + 'expand.hpp'], [('integrate specialisations', M + 'integrate.hpp')])
p('C21', 'Numerical quadrature applies its rule to every integral',
  'Numerical quadrature of an integrand over an interval returns the value of the rule (the midpoint rule for one Gauss point), is exact for affine integrands for every interval, and applied to an expression of integrals replaces each by its value.',
  ['inputs', 'programs'], 'every integrand tree, every interval, every constant, sums and differences of integrals',
  'Tutorial code evaluates one integral; interval orientation and the dispatch on expressions are never tested.',
  [M + '../runtime/numerical_quadrature.hpp', R + 'integral.hpp', R + 'interval.hpp'], [('rt_numerical_quadrature', R + 'numerical_quadrature.hpp')])
p('C22', 'Integrals are encoded faithfully and symbolic domains resolve',
  'An integral expression keeps its integrand, interval and variable, and substituting a concrete interval and variable for a symbolic domain replaces every integral over that domain, and only that domain, by the corresponding concrete integral.',
  ['programs', 'inputs'], 'every expression with integrals over symbolic domains, every domain id',
  'No test substitutes a symbolic domain.',
  [R + 'integral.hpp', M + 'substitute.hpp', R + 'symbolic_interval.hpp', R + 'interval.hpp'], [('integral_substitution_functor', M + 'substitute.hpp')])
p('C23', 'Coordinate systems expand gradient and divergence correctly',
  'Applying Cartesian coordinates in one, two or three dimensions replaces every gradient and every divergence of the unknown function and of the test function by the vector respectively the sum of its partial derivatives, wherever they occur in an expression or equation, and changes nothing else.',
  ['programs', 'configurations'], 'every expression or equation with gradient and divergence terms, dimensions 1 to 3',
  'No test applies a coordinate system.',
  [M + 'apply_coordinate_system.hpp', C + 'unary_op_tags.hpp'], [('gradient_modifier / divergence_modifier', M + 'apply_coordinate_system.hpp')])
p('C24', 'LaTeX output denotes the same formula',
  'The LaTeX text produced for an expression, read with the usual precedence rules, denotes an expression with the same value, using customised names where the user set them.',
  ['inputs', 'programs'], 'every expression tree, every constant, every customisation of names',
  'The tutorial prints a few formulas whose text is not compared.',
  [M + 'latex.hpp'], [('rt_latex_translator', M + 'latex.hpp')])
p('C25', 'Printed text denotes the same formula',
  'The text an expression, equation, interval or vector prints as (as a bare node, through the wrapper, or at compile time) determines it: reading it back gives a structurally equal tree with the same operations, identifiers and, up to the printed digits, constants, so two different formulas never print alike.',
  ['inputs', 'programs'], 'every expression tree over every node kind',
  'diff tests compare printed text, but only that of expected results.',
  [R + 'binary_expr.hpp', R + 'unary_expr.hpp', R + 'constant.hpp', R + 'variable.hpp', R + 'function_symbol.hpp', R + 'vector_expr.hpp', R + 'expr.hpp'],
  [('deep_str', R + 'expression_interface.hpp')])
p('C26', 'Vector expressions are componentwise',
  'Sum, difference and scaling of vector expressions, their derivatives and substitutions act on each component, and the product of two vectors is their inner product.',
  ['inputs', 'programs'], 'every vector length, component trees, scalar and point',
  'The tutorial prints one example.',
  [R + 'vector_expr.hpp', M + 'detail/binary_operations.hpp', R + 'operations/rt_rt.hpp'], [('rt_vector_expr operators', R + 'vector_expr.hpp')])
p('C27', 'Equations and intervals keep their parts',
  'Equations and intervals built from any combination of operand kinds, copied or assigned, hold expressions with the values of the two parts given, in order.',
  ['inputs', 'programs'], 'every pair of operand kinds and values, every copy or assignment',
  'The equation test builds equations and prints them without comparing.',
  [R + 'equation.hpp', R + 'interval.hpp', C + 'ct_equation.hpp', C + 'ct_interval.hpp'], [('make_equation / make_interval overloads', R + 'equation.hpp')])
p('C28', 'Traversal visits every node once and rewriting rebuilds faithfully',
  'Traversing an expression calls the visitor exactly once for each node it is told to step into, and rewriting an expression applies the user function exactly to the nodes it claims and reproduces all others; a callback by node kind happens exactly for the nodes of that kind.',
  ['programs', 'inputs'], 'every expression tree, every choice of nodes to step into or rewrite',
  'One tutorial traverses one expression.',
  [R + 'functor_wrapper.hpp', R + 'expr.hpp', R + 'binary_expr.hpp', R + 'unary_expr.hpp', R + 'vector_expr.hpp'], [('recursive_traversal / recursive_manipulation', R + 'expression_interface.hpp')])

checks = json.load(open(V + '/harness/checks.json'))
NA = json.load(open(V + '/tools/not_applicable.json')) if os.path.exists(V + '/tools/not_applicable.json') else {}
with open(V + '/properties.jsonl', 'w') as f:
    for x in P: f.write(json.dumps(x) + '\n')
man = {'version': 1, 'setup_cmd': 'make -C /verif/engine', 'checks': [], 'not_applicable': [],
       'notes': 'All checks: check.py compiles the harness with clang against the headers in /repo to LLVM IR, executes the IR symbolically (engine/), Z3 decides path feasibility and assertions, counterexamples are replayed natively.'}
for x in P:
    i = x['id']
    if i in checks:
        c = checks[i]
        man['checks'].append({'property': i, 'quick_cmd': 'python3 /verif/check.py %s --tier quick' % i, 'thorough_cmd': 'python3 /verif/check.py %s --tier thorough' % i,
            'technique': 'symbolic execution of LLVM IR of the real headers, SMT (Z3) verdicts, native replay', 'level': c.get('level', 'other'),
            'level_note': 'Holds for all values within the stated bounds: ' + (c.get('bounds') or '; '.join(sorted({h.get('bounds', '') for h in c['harnesses']} - {''})) or 'see DESIGN.md') + '. Trusts: clang -O1 IR, the executor, Z3, exact-real model of double, elementary functions uninterpreted with axioms.'})
    else: man['not_applicable'].append({'property': i, 'reason': NA.get(i, 'not claimed yet: harness under construction')})
json.dump(man, open(V + '/MANIFEST.json', 'w'), indent=1)
print(len(man['checks']), 'checks', len(man['not_applicable']), 'not applicable')
