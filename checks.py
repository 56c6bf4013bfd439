"""What each property check builds and runs (see DESIGN.md)."""
NUM = 'floating point: values and adjoints are compared with a long double reference within a running error bound (about 1e-10 relative); inputs where a branch is decided by a rounded comparison are left out'
DOM = 'inputs outside the mathematical domain of a function, singular matrices and overflowing intermediates are left out (not specified)'
CHECKS = {
 'P01': dict(technique='exhaustive enumeration of all binary16 and bfloat16 inputs on the real nodes against long double references',
   note='finite input formats enumerated completely; every function, shape, many sizes and alignments; pow exponents -6..10 and 17',
   bins={'p01': dict(main=[('p01', f'-DPART={i}') for i in range(8)], dyn=False), 's01': dict(main=[('sreg', '-DEMPTY=3')], dyn=False, static=['unary'], nfiles=4)}, min_states=10000000,
   bounds=dict(quick='15 functions x {double, float} and 18 powers x all 127k binary16/bfloat16 numbers x {scalar, vector, matrix}, leaf and expression operands, plus every binade of double and the 64-ulp neighbourhoods of the special points; lengths 1..33 and matrices up to 7x7 at 4 alignments, 3 seeds',
               thorough='as quick'), state_means='one function at one input element with one seed', assumptions=['relative tolerance 2e-12 (float: 4e-5), absolute 4e-16 only for derivatives computed as 1-f*f; overflowing results are left out', DOM]),
 'P02': dict(technique='exhaustive enumeration of value pairs, operand shapes and kinds on the real nodes against a tape model',
   note='all pairs from a 24-value alphabet, all operand shape/kind pairings; scalar operands of every pair of {float, double, long double} x {bool, short, int, unsigned, float, double, long double} in every role; plus 1120 statically typed programs over 4 sizes x 5 inputs x 3 seeds',
   bins={'p02': dict(main=[('p02', f'-DPART={i}') for i in range(5)], dyn=False), 'p02m': dict(main=[('p02m', f'-DPART={i}') for i in range(4)], dyn=False, fast=True), 's02': dict(main=[('sreg', '-DEMPTY=3')], dyn=False, static=['arith'])}, min_states=50000,
   bounds=dict(quick='all pairs of a 24-value alphabet in every operand pairing (variable, expression, literal, int literal, owned and viewed constant, same variable twice), vectors 1..19 and 552, matrices up to 5x5 and 24x23, 3 seeds; 1120 typed programs',
               thorough='as quick with vectors 1..40, matrices up to 9x9'), assumptions=[NUM, DOM]),
 'P03': dict(technique='exhaustive enumeration of value pairs and of evaluation histories on the real nodes against a tape model',
   note='all pairs of a 24-value alphabet with ties and adjacent numbers; all histories of length 4 for 30k if_else programs; 1829 typed programs',
   bins={'p03': dict(main=['p03']), 's03': dict(main=[('sreg', '-DEMPTY=3')], dyn=False, static=['cmp']), 'h03': dict(main=['shist'], dyn=False, static=['cmp'])}, min_states=1000000,
   bounds=dict(quick='8 relations x 576 ordered pairs (signed zeros, ties, neighbours) in scalar, vector, matrix and broadcast form, and x 1296 pairs of extreme numbers (infinite, subnormal, huge) in double and float; if_else: 11 conditions x 8 branches squared x 14 contexts x 4 shapes, every sequence of 4 operations over 4 inputs; typed programs over 4 sizes x 5 inputs, and every sequence of 4 operations',
               thorough='sequences of 5 operations, more sizes'), assumptions=[NUM, DOM]),
 'P04': dict(technique='exhaustive enumeration of expression trees, each executed on the real nodes and compared with an explicit tape model',
   note='all trees to depth 2 over 11 variable shapes (quick), reduced depth 3 (thorough); two inputs per program, every adjoint compared',
   bins={'p04': dict(main=['p04']), 's04': dict(main=[('sreg', '-DEMPTY=1')], dyn=False, static=['comp']), 'e04': dict(main=['sentry'], dyn=False, static=['entry'], static_flags=['-DENTRY']), 'f04': dict(main=['sentry'], dyn=False, static=['entry'], static_flags=['-DENTRY', '-DREALMODE', '-DREAL=float'])}, min_states=1000000,
   bounds=dict(quick='every program of up to 2 operations over 7 variables (scalar, vec 2, mat 2x2, mat 3x2) and 6 variables (vec 1/5, mat 1x1/3x3/2x3), 2 input assignments, seeds from 2^-300 to 2^90; every node with a sub-result assigned in its left and used in its right operand; 3578 statically typed programs x 4 sizes x 5 inputs x 3 seeds and at two larger sizes (to 40x33); 521 of them through every public entry point (raw, bound, temporary; default, number and 7 kinds of Eigen seeds)',
               thorough='as quick, plus every program of 3 operations over the reduced alphabet'), assumptions=[NUM, DOM]),
 'P05': dict(technique='exhaustive enumeration of statement sequences (assignments, glue, for_each) executed on the real nodes and compared with a sequential tape model',
   note='every sequence of up to 3 assignments to 5 targets, strung together 4 ways, used inside larger expressions; all short operation histories; three input sets each',
   bins={'p05': dict(main=['p05']), 's05': dict(main=[('sreg', '-DCATS=7', '-DEMPTY=1')], dyn=False, static=['seq'])}, min_states=1000000,
   bounds=dict(quick='every sequence of up to 3 assignments (dimension 2; 2 in dimensions 1 and 3) from a menu of 10-30 right-hand sides, left- and right-nested glue and for_each, assignments used as operands, also of expressions that are not used or have no derivative, 4 contexts; element and range assignments and recurrences up to 13 elements; all sequences of 4 operations on the short ones; typed programs',
               thorough='sequences of 4 assignments, histories of 5 operations'), state_means='one program at one input, or one operation history', assumptions=[NUM, DOM, 'a placeholder is assigned once and not read before']),
 'P06': dict(technique='exhaustive enumeration of chains of in-place updates executed on the real nodes and compared with a sequential tape model',
   note='every chain of up to 3 updates x 4 operators x menu of right-hand sides on scalar, vector, matrix, element and range targets, each evaluated and differentiated twice; inputs include zeros and magnitudes where an inverse operation would lose the value',
   bins={'p06': dict(main=['p06']), 's06': dict(main=[('sreg', '-DCATS=39', '-DEMPTY=1')], dyn=False, static=['seq'])}, min_states=1000000,
   bounds=dict(quick='every chain of up to 3 updates of one variable, 2 over several (also inside expressions that are not used or have no derivative), from menus of 6-12 right-hand sides, 4 ways of nesting, in 20 contexts, 5 input sets, two rounds; all pairs of element/range updates; chains up to 12; all operation sequences of length 4-5 on single updates; updates seeded with one infinite element; typed programs',
               thorough='chains of 4 updates and up to 24, histories of 5-6 operations'), state_means='one program at one input, or one operation history', assumptions=[NUM, DOM, 'a variable updated in place is not read by a sibling operand in the same node (its value at that moment is the reader\'s)']),
 'P07': dict(technique='exhaustive enumeration of value vectors, lengths and operand kinds on the real nodes against a tape model',
   note='all vectors over small alphabets with zeros, ties and signs; all lengths; typed programs and operation histories on them',
   bins={'p07': dict(main=['p07']), 's07': dict(main=[('sreg', '-DEMPTY=3')], dyn=False, static=['reduce'])}, min_states=500000,
   bounds=dict(quick='all value vectors over alphabets with zeros up to 6 elements in every reduction, nesting and operand kind; lengths to hundreds; ranges of expressions; typed programs over 4 sizes x 5 inputs x 3 seeds',
               thorough='longer vectors and larger alphabets, 7 sizes'), assumptions=[NUM, DOM]),
 'P08': dict(technique='exhaustive enumeration of small matrices and shapes on the real nodes against a cofactor/tape model',
   note='every 2x2 matrix over 7 values, 3x3 over 3-5, all symmetric 2x2..4x4 over alphabets, all signed permutations to 5x5, all shape triples',
   bins={'p08': dict(main=['p08']), 's08': dict(main=['sreg'], dyn=False, static=['linalg'])}, min_states=500000,
   bounds=dict(quick='det/log_det under LU, LDLT, LLT on every 1x1..3x3 matrix over value alphabets (singular ones left out), all symmetric up to 4x4, signed permutations up to 5x5, n up to 8; log_det and det of 6 well-conditioned samples up to 32x32 at 80 scales 2^-1000..2^1000 (det where representable), double and float, variables, views, products and folded constants; dot for all shapes up to 5x5x5 with every operand kind; transposes up to 8x8; typed programs over 4 sizes x 5 inputs x 3 seeds',
               thorough='larger alphabets, dot to 7x7x7, transposes to 12x12, permutations to 6x6, 7 sizes'), assumptions=[NUM, DOM]),
 'P09': dict(technique='exhaustive enumeration of operand kinds, shapes, boundary values and operation histories on the real nodes against a tape model of the densities',
   note='every combination of operand shapes and kinds (variable, owned/viewed constant, expression), grids with support boundaries at every position, every sequence of 4 operations over 3 points on the same object',
   bins={'p09': dict(main=['p09'] + [('p09', f'-DPART={i}') for i in range(14)], dyn=False, opt='-O1'), 's09': dict(main=['sreg'], dyn=False, static=['pdf'])}, min_states=1000000,
   bounds=dict(quick='595 typed combinations for normal/cauchy/uniform, 132 for multivariate normal, 41 bernoulli, 16 wishart; vectors of 1,2,3,5 (bernoulli to 8) with every operand set to every boundary value at every position, alone and in pairs; matrices up to 3x3 (48 2x2 ones incl. indefinite); every density on variables at 21-25 scales of its operands, lengths to 200 (bernoulli 2000), matrices to 32x32, double and float; all sequences of 4 operations (evaluate at 3 points, 2 seeds, reset) for a third of the points; typed programs',
               thorough='vectors up to 9 (bernoulli 13), matrices up to 4x4'), state_means='one density at one point with one seed, or one operation history', assumptions=[NUM, DOM, 'bernoulli adjoints for data other than 0 and 1 or p outside [0,1] are unspecified; wishart degrees of freedom are a constant']),
 'P10': dict(technique='exhaustive enumeration of expression trees and of bind/evaluate/differentiate histories over guarded memory, executed on the real nodes and compared with a tape model',
   note='every tree to depth 2 bound to redzoned regions filled with 5 kinds of garbage (NaN, inf, huge); histories in which re-binding to other memory is an operation',
   bins={'p10': dict(main=['p10']), 'h10': dict(main=[('shist', '-DNREG=2')], dyn=False, static=['seq', 'pdf', 'reduce'])}, min_states=1000000,
   bounds=dict(quick='every program of up to 2 operations over 4 variables, 1 operation over larger shapes, assignments and updates in 12 contexts; 5 fillings; every sequence of 4-5 operations {bind to A, bind to B, evaluate at 2 inputs, differentiate, reset} on a fifth of them and on all typed sequence/density/reduction programs; exact consumption, redzones, old regions and variables compared',
               thorough='2 operations over all shapes, sequences of 5-6'), state_means='one program at one input and one filling, or one operation history', assumptions=[NUM, DOM, 'element accesses outside the redzones (8 doubles on each side) are seen only when they change a result']),
 'P12': dict(technique='exhaustive enumeration of operation sequences on real variables, views, containers and expressions against an aliasing model, also under AddressSanitizer',
   note='every sequence of 56 operations (writes, copies, moves, swaps, destruction, views of views, rebinding, vector<Var>, expressions built on any of them) from 4 initial worlds; all observable state compared after every operation',
   bins={'p12': dict(main=[('p12', f'-DPART={i}', '-DDEPTHCUT=0') for i in (1, 2, 3)], dyn=False, opt='-O1'), 'p12a': dict(main=[('p12', f'-DPART={i}', '-DDEPTHCUT=1') for i in (1, 2, 3)], dyn=False, opt='-O1', san=['-fsanitize=address,undefined', '-fno-sanitize-recover=all'])}, min_states=1000000,
   bounds=dict(quick='all sequences of 4 operations (3 under ASan/UBSan, 3 for float) for scalar, vector and matrix variables from 4 initial worlds; all sequences of 5 bindings of a view to 6 storages, with and without adjoints', thorough='5 (4 under ASan)'),
   state_means='one complete operation sequence', transition_means='one operation on the real objects and the model, followed by a full comparison', assumptions=['nothing is assumed about the value of a moved-from variable, nor about views of a variable that was move-constructed from or relocated by a container']),
 'P13': dict(technique='exhaustive enumeration of typed programs with constants in every position, of histories of the viewed memory and of lifetime operation sequences on real constants, compared with a tape model',
   note='every typed program over folded and mixed constants; those with views x every history of memory changes, evaluations and differentiations; those with owned constants re-run after their sources are destroyed, under ASan; every sequence of 30 operations on sources, constants, copies, containers and expressions; the same with constants taken from 24 kinds of Eigen object (blocks, strided and row-major maps, lazy expressions), by constant() and as bare operands',
   bins={'s13': dict(main=[('sreg', '-DCATS=15', '-DEMPTY=1')], dyn=False, static=['const']), 'v13': dict(main=['sview'], dyn=False, static=['view']), 'o13': dict(main=[('sview', '-DOWNED')], dyn=False, static=['const'], san=['-fsanitize=address,undefined', '-fno-sanitize=pointer-overflow', '-fno-sanitize-recover=all']), 'p13': dict(main=[('p13', '-DDEPTHCUT=0')], dyn=False, opt='-O1'), 'p13s': dict(main=[('p13s', '-DDEPTHCUT=0')], dyn=False, opt='-O1'), 'p13sa': dict(main=[('p13s', '-DDEPTHCUT=1')], dyn=False, opt='-O1', san=['-fsanitize=address,undefined', '-fno-sanitize-recover=all']), 'p13a': dict(main=[('p13', '-DDEPTHCUT=1')], dyn=False, opt='-O1', san=['-fsanitize=address,undefined', '-fno-sanitize-recover=all'])}, min_states=1000000,
   bounds=dict(quick='typed programs over 4 sizes x 5 inputs x 3 seeds; histories of length 5 over 3 memory contents and 2 inputs at 3 sizes; operation sequences of length 4 (3 under ASan) from 3 worlds, vector and matrix', thorough='histories of 6 at 6 sizes, operation sequences of 5 (4)'),
   state_means='one program at one input, or one complete history', transition_means='one evaluation, differentiation or lifetime operation on the real objects', assumptions=[NUM, DOM, 'expressions of constants only, and the parts of a density that depend on constants only, are computed when the expression is built: later changes of viewed memory are not expected to reach them']),
 'P14': dict(technique='exhaustive enumeration of expression trees x inputs x existing adjoints x seeds, executed on the real nodes and compared with a tape model',
   note='every tree to depth 2; every variable, read or not, compared bit for bit before and after; adjoints start from non-zero values; seeds incl. zero, unit and a linear combination',
   bins={'p14': dict(main=['p14']), 's14': dict(main=[('sreg', '-DCATS=55', '-DEMPTY=1')], dyn=False, static=['seq', 'const'])}, min_states=1000000,
   bounds=dict(quick='every program of up to 2 operations (a third of the plain ones at depth 2) over 6 variables and over 5 of other shapes, assignments and updates in 7 contexts; 3+ inputs incl. zeros; 3-4 seeds; two sets of existing adjoints; seeds from 2^-300 to 2^90; repeated differentiation',
               thorough='all programs of 2 operations over all shapes'), assumptions=[NUM, DOM]),
 'P15': dict(technique='exhaustive enumeration of object-lifetime operation sequences on real ExprBind objects against an ownership model, also under AddressSanitizer',
   note='11 expression types x 3 initial worlds x every sequence of 31 operations (bind, copy, move, assign, swap, return, vector<ExprBind> growth/insert/erase/copy, destroy, evaluate, differentiate, change inputs); every survivor evaluated and differentiated at the end',
   bins={'p15': dict(main=[('p15', f'-DPART={i}', '-DDEPTHCUT=0') for i in (1, 2, 3, 4)], dyn=False, opt='-O1'), 'p15a': dict(main=[('p15', f'-DPART={i}', '-DDEPTHCUT=1') for i in (1, 2, 3, 4)], dyn=False, opt='-O1', san=['-fsanitize=address,undefined', '-fno-sanitize-recover=all'])}, min_states=1000000,
   bounds=dict(quick='all sequences of 4 operations (3 under ASan/UBSan), two expressions of different size per type', thorough='5 (4 under ASan)'),
   state_means='one complete operation sequence including the final evaluation of every survivor', transition_means='one operation on the real objects and the model', assumptions=[NUM, 'nothing is assumed about a moved-from bound expression except that it can be destroyed and assigned']),
 'P16': dict(technique='exhaustive enumeration of straight-line programs and of all half-precision inputs on real forward variables against long double dual numbers',
   note='every program of 3 instructions (186 of them: functions, operators, +=, copies, swaps, setters, plain numbers, aliased operands) over 3 variables from 4 starting points; every function at every binary16/bfloat16 input; all value/direction quadruples of a 14-number alphabet for each operator',
   bins={'p16': dict(main=['p16'], dyn=False)}, min_states=1000000,
   bounds=dict(quick='programs of up to 3 instructions (float: 2), every variable compared after every instruction; 11 functions x 127k inputs x 4 directions; 4 operators x 14^4 operands', thorough='programs of 4 instructions'),
   state_means='one program prefix (all variables compared) or one function at one input', transition_means='one instruction on the real variables and the model', assumptions=['relative tolerance about 1e-15 times the condition of the program (float: 1e-6); overflowing results are left out', DOM]),
 'P17': dict(technique='exhaustive enumeration of interleavings of two evaluations of the real code: all orders of sub-expression visits on one thread, and on two threads all orders of conflicting memory accesses under a controlled scheduler (partial-order reduction)',
   note='every one-operation program and every statement form with itself and pairwise, two-operation programs with themselves; every typed program, and Var / bound / forward programs, on two threads with every load and store recorded: without a conflicting pair all interleavings are equivalent, otherwise up to two preemptions at every conflicting access',
   bins={'p17': dict(main=['p17']), 's17': dict(main=['sinter'], dyn=False, raw=['tsanrt'], runtime='own', san=['-fsanitize=thread'], static=['pdf', 'cmp', 'const', 'reduce', 'linalg'], static_flags=['-DPROBE'], opt='-O1', ldflags=['-ldl']), 'q17': dict(main=[('sinter', '-DNOEXTRA')], dyn=False, raw=['tsanrt'], runtime='own', san=['-fsanitize=thread'], static=['seq'], opt='-O1', ldflags=['-ldl'])}, min_states=1000000,
   bounds=dict(quick='all interleavings up to 4000 per pair (else all with as many switches as fit, at least 2) for one-operation programs and statements, 200 for two-operation programs and cross pairs; two threads: all typed programs, disjoint and shared inputs',
               thorough='200000 and 2000 per pair, all two-operation programs'),
   state_means='one complete interleaving of two evaluations and differentiations (on two threads: one class of equivalent interleavings)', transition_means='one uninterrupted step (two threads: one recorded memory access)',
   assumptions=['results are compared bit for bit with the same two programs run alone', 'memory accesses inside libc and libstdc++.so are not scheduling points; the model of memory is sequentially consistent', DOM]),
 'P18': dict(technique='exhaustive enumeration of expression trees on the real nodes with visit-counting operands, compared with the visit trace of a tape model',
   note='every tree to depth 2/3 plus all typed programs: forward visits = occurrences, backward visits <= occurrences, none forward while differentiating',
   bins={'p18': dict(main=['p18']), 's18': dict(main=['sprobe'], dyn=False, static=['pdf', 'cmp', 'const', 'reduce', 'linalg', 'arith', 'unary'], nfiles=4)}, min_states=100000, static_flags=['-DPROBE'],
   bounds=dict(quick='every program of up to 2 operations, chains and nestings of every operation up to depth 40; typed programs (constants, folded operands) over 3 sizes x 5 inputs', thorough='as quick with more shapes'),
   state_means='one evaluation plus differentiation of one program', transition_means='one visit of a sub-expression', assumptions=['visits are counted at the operands of each node']),
 'P11': dict(technique='exhaustive enumeration of operation histories on the real objects against a history-free model',
   note='all sequences of evaluate (3 inputs), differentiate (2 seeds), reset, autodiff up to length 6 (depth-1 programs) and 4 (deeper and typed programs); every pair of look-alike inputs (one element moved by 1e-7, 1e-4 or 0.5, two exchanged, same sum, signs flipped, doubled), so that a result kept from an earlier input shows',
   bins={'p11': dict(main=['p11']), 's11': dict(main=[('shist', '-DNEIGHBOURS')], dyn=False, static=['pdf', 'seq', 'cmp', 'linalg', 'reduce'])}, min_states=1000000,
   bounds=dict(quick='sequences of length 6/5 for 1-operation programs, 4 for 2-operation programs; length 4 for 5388 typed programs x 2 sizes x 2 sets of constants',
               thorough='lengths 7/6, 5 and 5; 4 sizes'), state_means='one complete operation sequence on one expression object', transition_means='one operation (set inputs + evaluate, differentiate, reset, autodiff) applied to the real expression and the model', assumptions=[NUM, DOM]),
}
