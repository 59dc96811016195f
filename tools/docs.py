"""Writes properties.jsonl and MANIFEST.json (run by hand after editing)."""
import json
import pathlib

ROOT = pathlib.Path(__file__).resolve().parent.parent

def prop(id, title, statement, over, text, why, files, mech):
    return dict(
        id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text),
        why_tests_cant=why,
        anchors=dict(files=files, mechanism=[dict(name=a, where=b) for a, b in mech]),
    )


P = []


def add(*a):
    P.append(prop(*a))


add('C01', 'Smooth elementwise functions propagate derivatives exactly',
    'For every elementwise mathematical function the library knows (arithmetic with one or two arguments, powers, '
    'exponentials, logarithms, trigonometric and hyperbolic functions, absolute value and sign-like functions, real or '
    'with constants), whatever value, Jacobian and Laplacian its arguments carry and however those are stored, the result '
    'carries the value f(x), the Jacobian f\'(x)J and the Laplacian f\'(x)L + tr(J^T f\'\'(x) J).',
    ['inputs', 'configurations'],
    'all argument values in the domain, all incoming Jacobians and Laplacians, dense and sparse storage patterns, thresholds',
    'The tests draw one random point per function in a fixed layout; a wrong term that vanishes for identity Jacobians or '
    'zero Laplacians, repeated or missing sparse slots and mixed storage of two arguments are never sampled.',
    ['folx/wrapped_functions.py', 'folx/wrapper.py', 'folx/hessian.py', 'folx/jvp.py'],
    [('table of rules per primitive', 'folx/wrapped_functions.py'), ('elementwise J^T H J', 'folx/hessian.py'),
     ('sparse J times J', 'folx/jvp.py')])
add('C02', 'Functions declared elementwise follow the chain rule',
    'A function declared to act element by element (with any number of arguments and results, and any further declared '
    'structure that is true of it) gives results whose Jacobian and Laplacian are those of the second-order chain rule, '
    'for every smooth function and every incoming state. Declaring more structure (linear, multiplicative, diagonal) '
    'never changes the answer of a function which has it.',
    ['inputs', 'programs', 'configurations'],
    'every twice differentiable elementwise function (as an uninterpreted function with uninterpreted derivatives), all states',
    'A test needs one concrete function; it cannot quantify over functions and does not visit several results or arguments '
    'of mixed storage.',
    ['folx/wrapper.py', 'folx/hessian.py', 'folx/jvp.py', 'folx/api.py'],
    [('elementwise wrapper', 'folx/wrapper.py'), ('flag driven Hessian shortcuts', 'folx/hessian.py')])
add('C03', 'General functions and reductions follow the chain rule',
    'A function without any declaration, or declared to act along some axes only, gives results whose Jacobian and '
    'Laplacian are those of the second-order chain rule applied to the incoming ones, for every smooth function and every '
    'incoming state, sparse or dense.',
    ['inputs', 'programs', 'configurations'],
    'every twice differentiable function of a given arity and axis structure, all states, dense and sparse storage',
    'Tests fix the function, the point and usually the axes; the chunked and merged evaluation of Hessian products is only '
    'exercised in the arrangement those produce.',
    ['folx/hessian.py', 'folx/jvp.py', 'folx/wrapper.py', 'folx/utils.py'],
    [('general Hessian products', 'folx/hessian.py'), ('general Jacobian products', 'folx/jvp.py'),
     ('matching of sparse index masks', 'folx/utils.py')])
add('C04', 'Linear maps and rearrangements carry derivatives unchanged',
    'Operations that only move, copy, select, pad, join or linearly combine elements (reshape, transpose, broadcast, slice, '
    'gather, concatenate, sums, cumulative sums and the like) apply the same map to value, Jacobian and Laplacian, and a sparse '
    'Jacobian afterwards still names, for each element, the inputs it depends on.',
    ['inputs', 'configurations'],
    'all states and storage patterns for every layout of small operands in the list',
    'The index masks are transformed by separate code; a wrong mask shows only for particular patterns of dependence which '
    'random dense comparisons at one layout do not produce.',
    ['folx/wrapped_functions.py', 'folx/jvp.py', 'folx/wrapper.py', 'folx/utils.py'],
    [('rules flagged as linear or indexing', 'folx/wrapped_functions.py'), ('mask propagation', 'folx/jvp.py')])
add('C05', 'Products of arrays are differentiated exactly in every layout',
    'For every way of contracting, batching and laying out the axes of two arrays in a product, with either or both '
    'arguments depending on the input in any sparse or dense way, the result carries the exact Jacobian and Laplacian, '
    'including the cross term of the two arguments.',
    ['inputs', 'configurations'],
    'all dimension numbers of operands of rank at most three with axes of size 1 to 3, all states and storage patterns',
    'The tests use a few dimension numbers; the number of layouts times storage patterns is in the hundreds and the cross '
    'term has its own code path for each.',
    ['folx/wrapped_functions.py', 'folx/hessian.py', 'folx/custom_hessian.py', 'folx/jvp.py'],
    [('dot_general rule', 'folx/wrapped_functions.py'), ('dot product cross term', 'folx/hessian.py')])
add('C06', 'The sparsity threshold never changes the answer',
    'For a program and an input, the values, gradients and Laplacians returned are the same for every sparsity threshold, and are '
    'those of the function.',
    ['inputs', 'programs', 'configurations'],
    'programs built from the supported operations (a fixed list and random compositions), all inputs, all thresholds up to the input size',
    'Tests compare a few programs at thresholds of zero and one value; which paths are sparse depends on the threshold and the '
    'program together.',
    ['folx/interpreter.py', 'folx/api.py', 'folx/wrapper.py', 'folx/jvp.py', 'folx/utils.py'],
    [('interpreter of the traced program', 'folx/interpreter.py'), ('decision to stay sparse', 'folx/wrapper.py')])
add('C07', 'A sparse Jacobian always stands for one dense Jacobian',
    'Every operation on the stored Jacobian (densifying, adding, scaling, joining, reading its shape and parts, '
    'passing it through transformations) acts on the dense matrix it stands for, whatever index pattern is used, including repeated '
    'and unused entries.',
    ['inputs', 'configurations'],
    'all stored numbers and many index patterns (usual ones and random ones with repeats and unused slots) of small shapes',
    'Tests build Jacobians only by running functions, which yields few index patterns.',
    ['folx/api.py', 'folx/utils.py', 'folx/jvp.py'],
    [('sparse Jacobian container', 'folx/api.py'), ('adding and merging sparse Jacobians', 'folx/utils.py')])
add('C08', 'Determinants and their logarithms are differentiated exactly',
    'The sign and logarithm of determinants (and determinants and sums of determinants made from them), inverses of matrices and '
    'solutions of linear equations, batched (along any axis) or not, carry exact gradients and Laplacians for every invertible matrix and every incoming state.',
    ['inputs', 'configurations'],
    'all invertible matrices up to 3x3, batched, real and complex, with every incoming dense and row- or elementwise sparse state',
    'The custom rule uses solves and traces arranged for the storage pattern; a random well-conditioned matrix in one pattern '
    'cannot settle all patterns.',
    ['folx/custom_hessian.py', 'folx/wrapped_functions.py'],
    [('determinant rule', 'folx/custom_hessian.py'), ('registration', 'folx/wrapped_functions.py')])
add('C09', 'Weights scale the directions of the Laplacian',
    'When weights are given, the Jacobian is that with respect to inputs scaled by the weights and the Laplacian is the sum of '
    'squared weight times second derivative; weights of one change nothing. Weights given as a number, an array or a tree matching '
    'the beginning of the structure of the arguments mean the same as the fully written out ones.',
    ['inputs', 'configurations'],
    'all weights and inputs, all accepted structures of weights, thresholds',
    'Tests check a single scalar or array weight at one point.',
    ['folx/interpreter.py', 'folx/api.py'],
    [('initial Jacobian', 'folx/interpreter.py')])
add('C10', 'Arguments and results of any structure; composition',
    'Functions of several arguments, nested containers and keyword arguments, returning any structure, are handled as the same '
    'function of one flat input. Feeding the results of one forward Laplacian into another gives the forward Laplacian of the composition.',
    ['inputs', 'programs', 'configurations'],
    'all inputs; argument and result structures of the list; pairs of stages and thresholds',
    'Tests use one or two positional arrays and hardly ever chain two transformations.',
    ['folx/interpreter.py', 'folx/api.py', 'folx/tree_utils.py'],
    [('flattening of arguments', 'folx/interpreter.py')])
add('C11', 'Values, shapes, types and structure are those of the function',
    'The values returned equal those of the function itself, for any function accepted, and every result has the structure, shape and '
    'number type of the function\'s own result, with a Laplacian and Jacobian of matching shape.',
    ['inputs', 'programs', 'configurations'],
    'all inputs to the functions of the list (also non-smooth, integer and mixed precision ones) and random compositions, thresholds, jit on and off',
    'The tests check values for smooth functions at a point and never number types.',
    ['folx/interpreter.py', 'folx/wrapper.py', 'folx/wrapped_functions.py', 'folx/api.py'],
    [('interpreter of the traced program', 'folx/interpreter.py')])
add('C12', 'Derivatives stop where they must and only there',
    'Results of stop_gradient, comparisons, rounding, integer casts and other operations without derivative contribute none, while '
    'every other path through the same values still does, and selection by conditions takes the derivative of the chosen branch.',
    ['inputs', 'programs', 'configurations'],
    'all inputs away from switching points, all sides of every condition, thresholds',
    'Each side of a condition is a separate region of inputs; a test visits one.',
    ['folx/interpreter.py', 'folx/wrapped_functions.py', 'folx/wrapper.py'],
    [('rules without derivative', 'folx/wrapped_functions.py'), ('integer results', 'folx/interpreter.py')])
add('C13', 'Control flow and nested transformations are transparent',
    'Loops, scans, branches, nested compiled functions, functions with their own differentiation rules and transformed (vectorised, '
    'differentiated, linearised) functions give the same results as their unrolled meaning, whatever the names of the functions are, and forms that are not supported are refused with an error instead of a wrong answer.',
    ['inputs', 'programs', 'configurations'],
    'all inputs; loops of 0 to 4 steps, carried and stacked values, branches by data and by constants, thresholds',
    'The tests contain single instances of a scan and a nested jit.',
    ['folx/interpreter.py', 'folx/wrapped_functions.py'],
    [('scan, while and nested programs', 'folx/interpreter.py')])
add('C14', 'Complex intermediate values are differentiated exactly',
    'Functions of real inputs that pass through complex numbers, holomorphic or not (conjugates, real and imaginary parts, absolute values), '
    'give the exact complex value, Jacobian and Laplacian, for every storage of Jacobians.',
    ['inputs', 'programs', 'configurations'],
    'all real inputs and complex states, dense and sparse storage, thresholds',
    'The tests cover few complex functions at one point; real and imaginary parts interact through separate code for each rule.',
    ['folx/ad.py', 'folx/hessian.py', 'folx/wrapped_functions.py', 'folx/jvp.py', 'folx/wrapper.py'],
    [('derivatives for mixed real and complex', 'folx/ad.py'), ('complex rules', 'folx/wrapped_functions.py')])
add('C19', 'Writing into arrays carries derivatives of what was written',
    'After setting, adding to, taking the maximum with or otherwise updating elements of an array (also with repeated, dropped or '
    'clamped positions, and segment reductions) each element carries the derivatives of what it then holds, whatever storage the array '
    'and the update use.',
    ['inputs', 'configurations'],
    'all states of both operands, storage patterns of each, the update forms of the list',
    'Tests update at one position with one storage of Jacobians.',
    ['folx/wrapped_functions.py', 'folx/jvp.py', 'folx/wrapper.py'],
    [('scatter and update rules', 'folx/wrapped_functions.py')])
add('C20', 'Maxima, products and composite reductions are differentiated exactly',
    'Maxima, minima, products, sorts, cumulative reductions, norms, variances and normalising reductions carry exact Jacobians and '
    'Laplacians away from ties, on every ordering of the elements and for every storage of the incoming state.',
    ['inputs', 'configurations'],
    'all orderings of the elements (each a symbolic region), all states and storage patterns',
    'Every ordering of elements is a different branch; random points visit few.',
    ['folx/custom_hessian.py', 'folx/wrapped_functions.py', 'folx/hessian.py'],
    [('rules of reductions', 'folx/wrapped_functions.py')])
add('C15', 'Laplacian operators return the Laplacian and gradient of a function',
    'The operator made from a scalar function (forward, in its sparse form, and the loop based ones) returns the sum of second '
    'derivatives and the gradient of that function, flattened, for every input and every shape of the argument. All operators agree.',
    ['inputs', 'programs', 'configurations'],
    'all inputs; every operator, threshold, loop setting and argument shape of the list; functions that use all, part or none of the input',
    'The tests compare operators with each other at single points of one network; they never see functions which ignore inputs.',
    ['folx/operators.py', 'folx/interpreter.py', 'folx/ad.py'],
    [('Laplacian operators', 'folx/operators.py')])
add('C16', 'Batched evaluation returns what vectorised evaluation returns',
    'Evaluating a vectorised function in batches of limited size gives the results of evaluating it at once: each result in its place, '
    'for every batch size (also ones that do not divide the number of elements), selection of mapped axes and arguments.',
    ['inputs', 'programs', 'configurations'],
    'every function of the elements (uninterpreted), all inputs, batch sizes from 1 to beyond the length, axis selections',
    'A wrong position or remainder shows for particular lengths, batch sizes and axes which single runs do not combine.',
    ['folx/vmap.py'],
    [('batched vectorisation', 'folx/vmap.py')])
add('C17', 'User supplied rules are used and combined correctly',
    'Rules and wrapped functions registered by the user are what is applied wherever that operation occurs, also inside nested '
    'programs, with the arguments and settings as documented. Custom second derivative rules enter the chain rule as stated.',
    ['inputs', 'programs', 'configurations'],
    'all smooth functions behind a rule, all states and storages, nesting forms of the list, thresholds',
    'The tests register one function; the rule\'s effect depends on arguments, storage, nesting and declared structure at once.',
    ['folx/wrapper.py', 'folx/wrapped_functions.py', 'folx/interpreter.py', 'folx/api.py', 'folx/hessian.py'],
    [('registry', 'folx/wrapped_functions.py'), ('wrapping with structure flags', 'folx/wrapper.py')])
add('C18', 'The differentiation helpers return true Jacobians and Hessians',
    'The package\'s own forward and reverse Jacobians, Hessians and vector-Jacobian products return the derivatives of the function '
    'with the structure and order of axes of its arguments and results, for real and complex results.',
    ['inputs', 'programs', 'configurations'],
    'every smooth function (uninterpreted) of several arguments, all inputs and directions, argument selections of the list',
    'They are exercised only indirectly and with real scalars in the tests.',
    ['folx/ad.py'],
    [('derivative helpers', 'folx/ad.py')])
add('C21', 'Results survive compilation, vectorisation and differentiation',
    'A transformed function may be compiled, vectorised over a batch, differentiated and used repeatedly with different inputs, shapes '
    'and thresholds: the numbers are those of the function each time and do not depend on earlier uses.',
    ['inputs', 'programs', 'histories', 'configurations'],
    'all inputs; sequences of two to three uses, nesting of transformations, thresholds',
    'Tests call a transformation once per process and shape; caches and global settings matter only in a sequence.',
    ['folx/interpreter.py', 'folx/api.py', 'folx/wrapper.py', 'folx/utils.py'],
    [('interpreter of the traced program', 'folx/interpreter.py'), ('containers as tree nodes', 'folx/api.py')])
add('C22', 'Automatic batching keeps results and fits the memory limit',
    'Automatic batching returns what vectorised evaluation returns for every memory limit, and the batch chosen is the largest one whose '
    'estimated need fits, never below one and never beyond the number of elements. The need of a program is the largest number of bytes of '
    'arrays alive at once while it runs operation by operation (inputs, constants and results stay, others live until they are last read).',
    ['inputs', 'programs', 'configurations'],
    'every memory limit (a symbolic number), all inputs, functions and lengths of the list',
    'Tests pass one limit; the boundary values where the batch size changes are the interesting ones.',
    ['folx/experimental/memory.py', 'folx/experimental/vmap.py', 'folx/vmap.py'],
    [('memory estimate', 'folx/experimental/memory.py'), ('batch size', 'folx/experimental/vmap.py')])
add('C23', 'Tree arithmetic acts leaf by leaf',
    'The helpers which add, subtract, scale, multiply, stack, take and otherwise combine nested containers of arrays return the '
    'same structure with the operation applied to each pair of leaves.',
    ['inputs', 'configurations'],
    'all leaf values, structures of the list, integer and array arguments',
    'They have no tests of their own.',
    ['folx/tree_utils.py'],
    [('tree helpers', 'folx/tree_utils.py')])
add('N01', 'Rounding errors stay of the order of the function\'s own',
    'In floating point, values, gradients and Laplacians differ from the exact ones by no more than a small multiple of the unit '
    'roundoff times the conditioning of the function.',
    ['inputs', 'programs'], 'all inputs, programs and precisions',
    'Error bounds over all inputs cannot be sampled.',
    ['folx/interpreter.py', 'folx/hessian.py'], [('summations of the Laplacian', 'folx/hessian.py')])
add('N02', 'Sparse and batched evaluation saves time and memory',
    'Exploiting sparsity reduces the work and memory per Laplacian and batched evaluation stays within the memory of the device.',
    ['programs', 'configurations'], 'programs, sizes and devices',
    'Timing and memory tests are unreliable and depend on the device.',
    ['folx/jvp.py', 'folx/vmap.py'], [('sparse evaluation', 'folx/jvp.py'), ('batched evaluation', 'folx/vmap.py')])
NA = dict(
    N01='Floating point semantics of whole compiled programs (exp, log, fused sums in XLA) cannot be bit-blasted within reach, and XLA '
        'may reassociate; the checks decide the identities over the reals instead.',
    N02='Run time and device memory are properties of the compiled binary and the device, not of values a solver can reason about; '
        'only the arithmetic of the batch choice is decided (C22).')
P.sort(key=lambda p: p['id'])

NA = globals().get('NA', {})
TECH = ('symbolic execution of the traced real code (jaxpr) over symbolic inputs; equality with the specification decided by '
        'z3/cvc5 (unsat = holds for all values), counterexamples replayed on the real code')
NOTE = ('For every case run (a program, a storage pattern and a threshold within the stated small shapes): equality with the textbook '
        'rule for all real values of all inputs. Trusts JAX tracing, the symbolic semantics of JAX primitives (validated numerically '
        'against JAX on every run), real instead of floating point arithmetic and the solvers. Non-smooth ties and larger shapes are outside the bounds.')
NOTES = globals().get('NOTES', {})

with open(ROOT / 'properties.jsonl', 'w') as f:
    for p in P:
        assert len(p['title']) <= 80, p['title']
        f.write(json.dumps(p) + '\n')
man = dict(
    version=1,
    setup_cmd='./setup.sh',
    checks=[dict(property=p['id'], quick_cmd=f'./check.sh {p["id"]} --tier quick',
                 thorough_cmd=f'./check.sh {p["id"]} --tier thorough',
                 technique=TECH, level='translation_validation', level_note=NOTES.get(p['id'], NOTE))
            for p in P if p['id'] not in NA],
    not_applicable=[dict(property=k, reason=v) for k, v in NA.items()],
)
(ROOT / 'MANIFEST.json').write_text(json.dumps(man, indent=1) + '\n')

# ------------------------------------------------------------------ DESIGN.md
RULE = 'the chain rule on second-order jets of the plain program'
METHODS = {
    'C01': ('every registered elementwise primitive (one and two arguments) on arbitrary incoming states', RULE,
            'shapes (), (2,), broadcasts; masks dense/own/two/dup/part/rev/shared; domain regions of log, asin, pow, ...'),
    'C02': ('`wrap_forward_laplacian(g, in_axes=(), flags)` for uninterpreted g of 1 to 3 arguments and 2 results', RULE,
            'all pairs of 7 masks; scalars, columns, constants'),
    'C03': ('unannotated and partly annotated functions (uninterpreted, in_axes of one or two trailing or leading axes, arguments of different ranks, bilinear, custom_jvp)', RULE,
            'arrays up to 2x2x2, inputs 1 to 4 (both orders of contraction)'),
    'C04': ('all linear and indexing primitives on arbitrary states', RULE, 'about 60 layouts x masks'),
    'C05': ('`dot_general` for systematically enumerated dimension numbers, einsum, matmul, complex, preferred types', RULE,
            'rank <= 3, axes 1 to 3'),
    'C06': ('whole programs with the **threshold itself symbolic** (any real in [0, n+2]; every path of the comparisons made by folx\'s Python on it is explored)',
            RULE, 'listed and random programs of 3 to 5 operations, 2 to 4 inputs'),
    'C07': ('methods of `FwdJacobian` on symbolic numbers and concrete masks', 'the dense matrix written out by the harness', 'masks with repeats and unused slots, shapes up to 2x2, random masks'),
    'C08': ('`slogdet`, `det`, `inv`, `solve` programs, batched, real and complex', 'Leibniz formula on jets; residual corrections of A x = b on jets', 'matrices up to 3x3 (thorough) with symbolic entries, determinant != 0'),
    'C09': ('weights as number, array, tree prefix; symbolic weights', 'jets seeded with the weights', 'up to 4 inputs'),
    'C10': ('pytrees of arguments and results, keyword arguments, two-stage compositions incl. mixed plain arguments', RULE, 'stages x thresholds'),
    'C11': ('values, shapes, number types, structure of listed and random functions, jit on/off', 'the plain function executed on symbols; `jax.eval_shape`', '-'),
    'C12': ('stop_gradient, comparisons, rounding, casts, argmax, conditions', RULE + ' (zero where JAX has no derivative), per branch', 'all branches'),
    'C13': ('scan, fori, while, cond, switch, pjit, custom_jvp, remat, vmap/jvp/grad/linearize of functions with name-registered rules, equally named functions, refused forms', 'unrolled program on jets', '0 to 4 steps'),
    'C14': ('complex programs, complex states, uninterpreted non-holomorphic functions', RULE + ' on real and imaginary parts', 'two complex elements, up to 5 inputs'),
    'C15': ('all operators of `folx.operators`', 'sum of second derivatives on jets', 'arguments of rank 0 to 2, up to 6 elements'),
    'C16': ('`batched_vmap` on uninterpreted functions', 'element by element application', 'lengths 1 to 5, batch sizes 1 to length+1, axes, trees, out_axes'),
    'C17': ('register/deregister/is_registered/get_laplacian, rules for primitives and jitted names, custom_jac_hessian_jac, nesting, histories of registrations', RULE, '-'),
    'C18': ('`folx.ad.*` on uninterpreted functions, several arguments, real and complex', 'derivatives of the uninterpreted functions by symbol', 'up to 3 arguments'),
    'C19': ('scatter, scatter-add/min/max/mul, `.at[]`, dynamic_update_slice, segment reductions on arbitrary states', RULE, 'repeated, dropped, clamped positions'),
    'C20': ('max/min/prod/sort/cum*/norm/var/softmax/logsumexp on arbitrary states', RULE + ', per ordering', 'up to 3 elements (orderings are paths)'),
    'C21': ('jit/vmap/scan/grad/jvp around forward_laplacian; histories of 2 to 3 uses with different inputs, shapes, types and dependence patterns', RULE + '; JAX\'s nested derivatives executed symbolically', '-'),
    'C22': ('`auto_batched_vmap` with a **symbolic memory limit**; `compute_memory`', 'element by element application; largest k with need(k) <= limit as solver obligation; need = peak of an independent liveness analysis of the traced program', 'lengths up to 4'),
    'C23': ('every function of `folx.tree_utils`', 'leaf by leaf numpy on symbols', 'listed structures'),
}
tmpl = (ROOT / 'tools/DESIGN.tmpl.md').read_text()
cost = json.loads((ROOT / 'tools/cost.json').read_text()) if (ROOT / 'tools/cost.json').exists() else {}
table = '\n'.join(f'| {k} | {a}; bounds: {c} | {b} | {cost.get(k, "")} |' for k, (a, b, c) in METHODS.items())
na = '\n'.join(f'* {p["id"]} {p["title"]}: {NA[p["id"]]}' for p in P if p['id'] in NA)
kf = (ROOT / 'known_findings.txt').read_text().splitlines()
defects = '\n'.join(f'{i}. {l[7:]}' for i, l in enumerate([l for l in kf if l.startswith('fixed:')], 1))
det = json.loads((ROOT / 'tools/detection.json').read_text())
seeds = '| change | property | what it breaks | needs | caught by |\n|---|---|---|---|---|\n'
for d in sorted([*(ROOT / 'seeded').iterdir(), *(ROOT / 'planted').iterdir()], key=lambda d: d.name):
    m = json.loads((d / 'meta.json').read_text())
    seeds += f'| {d.name} | {m["property"]} | {m["what_it_breaks"]} | {m["needs"]} | {det.get(d.name, "?")} |\n'
for k, v in (('@@TABLE@@', table), ('@@NA@@', na), ('@@DEFECTS@@', defects), ('@@SEEDS@@', seeds)):
    tmpl = tmpl.replace(k, v)
(ROOT / 'DESIGN.md').write_text(tmpl)
