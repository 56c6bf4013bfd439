#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json (one source for both)."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
from checks import CHECKS
R = 'include/fastad_bits/reverse/'
C = R + 'core/'
def P(id, title, statement, over, text, why, files, mech, observe):
    return dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
                anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech], observe_at=observe, hook_needed=None))
OBS = ['return value of evaluate / autodiff', 'variable values and adjoints (get, get_adj) after evaluate, evaluate_adj, autodiff']
props = [
P('P01', 'Elementwise functions: exact value and derivative over the whole domain',
  'For unary minus, sin, cos, tan, asin, acos, atan, exp, log, sqrt, erf, sigmoid, sinh, cosh, tanh and pow<n> with any integer n, applied to a scalar, vector or matrix of any size, empty ones included, every element of the result is that function of the same element of the operand, to floating-point accuracy, for every argument in its domain. '
  'Differentiating adds to the adjoint of each operand element exactly its seed times the mathematical derivative of the function at that element, and touches no other element.',
  ['inputs', 'programs'], 'every finite argument in the domain of the function, every shape and size, every seed',
  'the tests try each function at one or two points per shape; a formula that is wrong in a sub-range (negative arguments, large magnitude, x=0, one exponent, tail elements of a vector) passes them',
  [C + 'unary.hpp', C + 'pow.hpp'], [('UnaryNode: functor fmap / bmap', C + 'unary.hpp'), ('PowNode: powers by repeated multiplication, derivative from cached powers', C + 'pow.hpp')], OBS),
P('P02', 'Arithmetic operators broadcast scalars and differentiate both operands',
  'For +, -, * and / between any two operands that are scalars, vectors or matrices of equal shape, or a scalar on either side of a vector or matrix, each operand being a variable, an expression or a constant, the result is the elementwise result with the scalar broadcast. '
  'Differentiating adds the exact partial derivatives times the seed to each operand, a broadcast scalar receiving the sum over all elements and an operand used on both sides receiving both contributions.',
  ['inputs', 'programs'], 'every pairing of operand shapes and kinds, every size, value and seed',
  'tests sample one pair of values per shape pairing, mostly with a unit seed; sign errors, swapped operands, missing seed factors or lost elements in one pairing or at zero/negative values survive',
  [C + 'binary.hpp'], [('BinaryNode: per-operation fmap, blmap, brmap and broadcasting of scalar operands', C + 'binary.hpp')], OBS),
P('P03', 'Comparisons are exact 0/1 without derivative; if_else follows its condition',
  'Each comparison (<, <=, >, >=, ==, !=) and logical (&&, ||, whose multi-element operands are boolean) expression evaluates elementwise to exactly 1 where the relation holds and 0 where it does not, ties included, and contributes nothing to any adjoint. '
  'if_else evaluates to the branch that its scalar condition selects at the time of each evaluation, and differentiating sends the whole seed to that branch, nothing to the other branch and nothing to the condition.',
  ['inputs', 'programs', 'histories'], 'every ordering of operand values including ties, every shape pairing, every sequence of conditions over re-evaluations, branches that are variables, constants or expressions',
  'tests use a few ordered pairs and evaluate each if_else once or twice; ties, negated order, re-evaluation after the condition flips, and stale branch choices are not settled',
  [C + 'binary.hpp', C + 'if_else.hpp'], [('comparison functors with zero derivative', C + 'binary.hpp'), ('IfElseNode: remembers which branch was evaluated', C + 'if_else.hpp')], OBS),
P('P04', 'Reverse mode computes the exact gradient of every composed expression',
  'For every expression composed of supported operations, of any nesting, operand shapes and sizes, and with any variable occurring any number of times, evaluating gives the value of the composed function. '
  'Differentiating with any seed then adds to the adjoint of every variable element exactly the derivative of the seed-weighted result with respect to that element.',
  ['programs', 'inputs'], 'all expression trees over the public operations, all inputs at which they are differentiable, all seeds',
  'tests hold a few dozen hand-written compositions; the property is about the cross product of operation kinds, shapes and positions in a tree, where one node may hand its child a seed of the wrong form, aliasing its own storage or overwriting what the parent still needs',
  [C + 'binary.hpp', C + 'unary.hpp', C + 'dot.hpp', C + 'sum.hpp', C + 'prod.hpp', C + 'eval.hpp', R + 'stat/normal.hpp'], [('feval / beval recursion of every node', 'include/fastad_bits/reverse'), ('evaluate, evaluate_adj, autodiff', C + 'eval.hpp')], OBS),
P('P05', 'Placeholders, glued sequences and for_each behave like a sequential program',
  'An expression that assigns sub-results to variables (w = e), glues expressions with the comma operator or for_each, and uses the assigned variables any number of times later, evaluates like the sequential program it spells: left to right, each variable holding the assigned value, the result being that of the last expression. '
  'Differentiating gives every input variable the same adjoint as the program with the assignments substituted away, and leaves in each assigned variable the total derivative of the result with respect to it.',
  ['programs', 'inputs'], 'all sequences of assignments and uses over scalars, vectors and matrices, any number of uses, any position (also as a sub-expression), all inputs and seeds',
  'tests contain a handful of straight-line programs; order of evaluation, zero or many uses of a placeholder, placeholders of placeholders and assignments of every kind of expression are not covered',
  [C + 'eq.hpp', C + 'glue.hpp', C + 'for_each.hpp'], [('EqNode: evaluates into the variable, back-propagates the variable adjoint', C + 'eq.hpp'), ('GlueNode / ForEachIterNode: forward in order, backward in reverse order', C + 'glue.hpp')], OBS),
P('P06', 'In-place updates differentiate correctly and restore the variable',
  'An expression x += e, x -= e, x *= e or x /= e updates x elementwise (e may be a scalar for a vector or matrix x) as seen by everything evaluated later, and yields the updated value; several updates of one variable compose in order. '
  'Differentiating gives the exact derivative with respect to the value that x had before evaluation and to everything in e, and leaves x holding the value it had before evaluation, so that evaluating again repeats the same result.',
  ['programs', 'inputs', 'histories'], 'all sequences of updates, assignments and uses; all shapes; all inputs for which the update can be undone; repeated evaluate + differentiate rounds',
  'tests check each operator once with one later use; chains of updates, updates whose right side is an expression, restoration after several updates and repetition are not settled',
  [C + 'eq.hpp', C + 'var_view.hpp'], [('OpEqNode: forward update, backward undo', C + 'eq.hpp')], OBS + ['value of the updated variable after evaluate and after evaluate_adj']),
P('P07', 'Sums, products, norms and iterated reductions over any number of elements',
  'sum, prod and norm of an expression, and sum and prod over a range of expressions, evaluate to the sum, product or squared (Frobenius) norm of all elements, respectively of all expressions in the range, for any number of elements. '
  'Differentiating gives each element its exact partial derivative times the seed, also when elements are zero, negative, repeated or expressions of one another.',
  ['inputs', 'programs'], 'all element counts, all element values including any number of zeros, elements being variables, expressions or constants',
  'tests use one vector per function; a product gradient that divides by elements, loses the zero case or the second zero, a reduction that drops the last element or a matrix column, and ranges of length one are not settled',
  [C + 'sum.hpp', C + 'prod.hpp', C + 'norm.hpp', C + 'for_each.hpp'], [('SumElemNode, SumIterNode', C + 'sum.hpp'), ('ProdElemNode, ProdIterNode: prefix/suffix products without division', C + 'prod.hpp'), ('NormNode', C + 'norm.hpp')], OBS),
P('P08', 'Matrix products, transposes and determinants are exact with exact gradients',
  'dot of a matrix with a vector or matrix of any conforming size is the matrix product, transpose is the transpose, det and log_det are the determinant and the log of its absolute value, under each decomposition policy for the non-empty matrices it applies to, as long as they are not singular to working precision. '
  'Differentiating adds to each operand its exact gradient times the seed, for non-square, 1 x n, n x 1, negative-determinant, permuted and non-symmetric matrices alike.',
  ['inputs', 'programs'], 'all conforming sizes, all matrices for which the operation is defined, every operand being a variable, constant or expression, all seeds',
  'tests use one or two matrices per operation; transposed indices, a wrong sign for odd permutations or negative determinants, and rectangular sizes can all be wrong and still agree on them',
  [C + 'dot.hpp', C + 'transpose.hpp', C + 'det.hpp', C + 'log_det.hpp'], [('DotNode', C + 'dot.hpp'), ('TransposeNode', C + 'transpose.hpp'), ('DetNode and policies', C + 'det.hpp'), ('LogDetNode and policies', C + 'log_det.hpp')], OBS),
P('P09', 'Adjusted log-densities have the value, gradient and support of the distribution',
  'normal, cauchy, uniform, bernoulli and wishart adjusted log-densities equal the sum over the (one or more) elements of the log-density with constants omitted that depend on no parameter, for every documented combination of scalar, vector and matrix operands, variables or constants, and their gradients with respect to every operand are the exact ones. '
  'For parameters or data outside the support the value is minus infinity, and no adjoint is changed where that is not differentiable; the decision follows the values at the time of evaluation.',
  ['inputs', 'programs', 'histories'], 'all operand shape and kind combinations, all data and parameters inside, on and outside the support, re-evaluation after they change',
  'tests check a few combinations at one interior point and few invalid ones; per-element parameters, boundary values, seeds other than one and parameters that become valid or invalid between evaluations are not settled',
  [R + 'stat/normal.hpp', R + 'stat/cauchy.hpp', R + 'stat/uniform.hpp', R + 'stat/bernoulli.hpp', R + 'stat/wishart.hpp'], [('NormalAdjLogPDFNode specialisations', R + 'stat/normal.hpp'), ('CauchyAdjLogPDFNode', R + 'stat/cauchy.hpp'), ('UniformAdjLogPDFNode', R + 'stat/uniform.hpp'), ('BernoulliAdjLogPDFNode', R + 'stat/bernoulli.hpp'), ('WishartAdjLogPDFNode', R + 'stat/wishart.hpp')], OBS),
P('P10', 'An expression uses exactly the working memory it asked for, wherever it is',
  'For every expression, binding it to working memory consumes exactly the number of value and adjoint elements it reports to need, and evaluating and differentiating it read and write nothing outside that memory and its variables. '
  'The result does not depend on what the memory contained before, and the same expression can be bound to other memory at any time, also between evaluations, with the same results.',
  ['programs', 'configurations', 'histories'], 'all expression trees; all initial contents of the memory; all re-binding histories',
  'tests bind an expression once to a zero-filled buffer sized by itself; an overlap between two sub-expressions, an off-by-one at the end, a missed re-bind or a read of uninitialised memory often leaves the tested values right',
  [C + 'expr_base.hpp', C + 'bind.hpp', C + 'binary.hpp', C + 'prod.hpp', 'include/fastad_bits/util/size_pack.hpp'], [('bind_cache, bind_cache_size, single_bind_cache_size of every node', 'include/fastad_bits/reverse'), ('ExprBind', C + 'bind.hpp')], ['bind_cache_size, bind_cache return value', 'guard words around the working memory', 'results of evaluate / evaluate_adj bit for bit']),
P('P11', 'Re-evaluation depends only on current inputs, never on history',
  'After any history of setting variable values, evaluating and differentiating, evaluating an expression gives the same result as a freshly built expression at the current values. '
  'Differentiating after resetting the adjoints (of placeholders too) likewise gives the same adjoints as a fresh expression, and differentiating without resetting accumulates.',
  ['histories', 'programs', 'inputs'], 'all sequences of set-value, reset-adjoint, evaluate, differentiate and change-of-seed operations up to a length, for every expression kind',
  'tests evaluate most expressions once; state left over from an earlier evaluation (a cached branch, validity flag, sum, decomposition, partial product, inverse or constant operand) only shows when values change between evaluations in a particular way',
  [C + 'if_else.hpp', C + 'prod.hpp', C + 'det.hpp', C + 'eq.hpp', R + 'stat/uniform.hpp', R + 'stat/normal.hpp', R + 'stat/wishart.hpp'], [('state kept in nodes between forward and backward pass', 'include/fastad_bits/reverse')], OBS),
P('P12', 'Variables have value semantics; views alias exactly the elements they name',
  'A variable owns its value and adjoint: copying or assigning variables copies both and leaves the source, and later changes of either, independent, while expressions built on a variable keep following the storage of that variable for as long as it exists. '
  'A view, an element or a head/tail range of a vector shares exactly the named elements with its variable, for reading, writing, use in expressions and differentiation, and re-binding a view moves it to the new storage.',
  ['histories', 'programs'], 'all sequences of construct, copy, move, assign, write, reset, view, element and range operations over several variables of every shape, up to a length',
  'tests touch a constructor or two; aliasing after copy, move and assignment, container reallocation and overlapping views depends on the operation sequence',
  [C + 'var.hpp', C + 'var_view.hpp', C + 'value_adj_view.hpp', C + 'value_view.hpp'], [('Var copy / move / assign rebinding to own storage', C + 'var.hpp'), ('VarView element, head and tail views', C + 'var_view.hpp')], ['get, get_adj, data of variables and views', 'values and adjoints of expressions built on them']),
P('P13', 'Constants fold to the same values, owned ones keep data, views follow the source',
  'Replacing any variable of an expression by a constant of the same value (a literal, an owned scalar, vector or matrix, or a view of user memory) leaves the value and the adjoints of the other variables unchanged, and an expression of constants only has the value of the function it spells. '
  'An owned constant keeps its data whatever happens to the object it was made from; a constant view shows the current contents of the memory it views and is never written to (an expression of constants only, and the parts of a density that depend on constants only, are computed once, when the expression is built).',
  ['programs', 'inputs', 'histories'], 'every operation with constants in every operand position and of every ownership; all-constant expressions; later changes of or to the source object',
  'tests pair constants with a few operations; each node has special paths for constant operands (folding at construction, skipped back-propagation, pre-computed values) that are exercised once or not at all',
  [C + 'constant.hpp', 'include/fastad_bits/util/type_traits.hpp', C + 'binary.hpp', C + 'unary.hpp'], [('Constant, ConstantView', C + 'constant.hpp'), ('constant folding in operator and function overloads', 'include/fastad_bits/reverse/core')], OBS),
P('P14', 'Evaluating and differentiating have no side effects beyond adding adjoints',
  'Evaluating an expression changes neither adjoints nor the value of any variable that it does not assign or update, and differentiating changes no such value either. '
  'Differentiating adds to the existing adjoints, exactly the contribution it would add to zero adjoints and nothing to the adjoint of any variable or element the result does not depend on; the contribution is linear in the seed.',
  ['programs', 'inputs', 'configurations'], 'all expression trees; all initial adjoints; all seeds including zero, negative and scaled ones',
  'tests start from zero adjoints and mostly seed with one, and look only at the variables of interest; an assignment instead of an accumulation, a write to a leaf value or an adjoint of an unrelated variable is invisible there',
  [C + 'var_view.hpp', C + 'binary.hpp', C + 'eval.hpp'], [('VarView::beval accumulates', C + 'var_view.hpp'), ('evaluate_adj passes the seed', C + 'eval.hpp')], OBS),
P('P15', 'Bound expressions own their working memory through copy, assignment and moves',
  'A bound expression can be copied, assigned, returned, stored in containers that relocate it and destroyed in any order, and every surviving one evaluates and differentiates on its own working memory to the result of its expression over the current variables. '
  'No operation on one bound expression changes the outcome of evaluating or differentiating another, and none reads or writes memory that has been released.',
  ['histories'], 'all sequences of construct, copy, assign, move, relocate, destroy, evaluate and differentiate over several bound expressions, up to a length',
  'tests bind an expression and use it in place; sharing of working memory between copies or a pointer into a destroyed or moved-from buffer gives right values until a particular order of operations',
  [C + 'bind.hpp', C + 'eval.hpp'], [('ExprBind copy and assignment rebind to own caches', C + 'bind.hpp')], OBS + ['AddressSanitizer']),
P('P16', 'Forward mode propagates exact values and directional derivatives',
  'For every program over forward-mode variables built from the supported functions and operators (also updates with +=, repeated use, and mixing with plain numbers), the value is that of the function and the adjoint is the derivative in the direction given by the adjoints of the inputs. '
  'Copies are independent, and setting or reading value and adjoint affects only the variable it is called on.',
  ['programs', 'inputs'], 'all programs up to a size over the forward operations, all inputs in the domain, all directions',
  'tests check each function at one point with one direction; a derivative that ignores the incoming direction, the second operand, or aliasing in x += x passes',
  ['include/fastad_bits/forward/core/forward.hpp', 'include/fastad_bits/forward/core/dualnum.hpp'], [('FORWARD_UNARY_FUNC / FORWARD_BINARY_FUNC', 'include/fastad_bits/forward/core/forward.hpp')], ['get_value, get_adjoint']),
P('P17', 'Independent expressions do not interfere, in any interleaving or on any threads',
  'Two expressions that share no variable that either writes (inputs may be shared read-only while evaluating) give the same values and adjoints, however the steps of their evaluation and differentiation interleave, on one thread or on several. '
  'Nothing an evaluation leaves behind outside the expression, its bound memory and its variables can reach another one.',
  ['schedules', 'programs'], 'all interleavings of the forward and backward steps of two expressions at the granularity of sub-expression visits on one thread and of memory accesses on two threads, over all operation kinds',
  'tests are single-threaded and evaluate one expression at a time; hidden shared state (a static scratch buffer, a memo) is only visible when a second evaluation runs in between',
  [C + 'expr_base.hpp', C + 'prod.hpp', C + 'det.hpp', R + 'stat/normal.hpp'], [('absence of static and global mutable state in nodes', 'include/fastad_bits/reverse')], OBS),
P('P18', 'One pass visits each sub-expression once: cost is linear in expression size',
  'Evaluating an expression evaluates every sub-expression in it exactly once (of an if_else, only the selected branch and the condition), and differentiating back-propagates through every sub-expression at most once. '
  'Differentiating never evaluates a sub-expression again.',
  ['programs', 'inputs'], 'all expression trees, sizes and seeds; every operation kind in every position, with user-defined sub-expressions as observers',
  'tests look at results, never at how often a sub-expression runs; a node that evaluates a child twice is exponentially slow in depth, repeats in-place updates and is invisible at depth one',
  [C + 'binary.hpp', C + 'prod.hpp', C + 'if_else.hpp', R + 'stat/normal.hpp'], [('each feval calls each operand feval once; each beval calls each operand beval once', 'include/fastad_bits/reverse')], ['feval and beval calls received by a user-defined expression node placed at every position']),
]
NA = {}
def main():
    with open(V + '/properties.jsonl', 'w') as f:
        for p in props: f.write(json.dumps(p) + '\n')
    checks, na = [], []
    for p in props:
        i = p['id']
        if i in CHECKS:
            c = CHECKS[i]
            checks.append(dict(property=i, quick_cmd=f'python3 check.py {i} quick', thorough_cmd=f'python3 check.py {i} thorough', evidence_file=f'evidence/{i}.json',
                               technique=c['technique'], level='model_checking', level_note=c['note']))
        else: na.append(dict(property=i, reason=NA.get(i, 'check under construction')))
    m = dict(version=1, setup_cmd='python3 tools/setup.py', checks=checks, not_applicable=na,
             notes='No hooks in /repo: the checks compile /repo/include as it is. Known findings and repairs: known_findings.txt, DESIGN.md.')
    json.dump(m, open(V + '/MANIFEST.json', 'w'), indent=1)
main()
