"""Writes properties.jsonl and MANIFEST.json from the one table below."""
import json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []


def p(id, title, statement, over, qtext, why, files, mech, observe, tech, note):
    P.append(dict(id=id, title=title, statement=statement, over=over.split(), qtext=qtext, why=why, files=files,
                  mech=mech, observe=observe, tech=tech, note=note))


p('C01', 'Geometric product is the Clifford product of the metric',
  'For every algebra built from a symmetric metric (numeric or symbolic, orthogonal or not, degenerate or not), the geometric product of any two multivectors equals their product in the Clifford algebra of that metric. It is bilinear and associative with unit 1, and e_i e_j + e_j e_i = 2 g_ij; plain numbers and sympy scalars on either side act as scalar multiples, and integer powers agree with repeated products.',
  'inputs configurations programs', 'all metrics, all operand pairs, all product words',
  'The tests multiply a few hand-picked blades in a handful of metrics (mostly Euclidean or one symbolic 3-d metric); the product table is computed lazily by bit tricks (orthogonal) or by recursive reduction (general), so an error for one blade pair, grade, dimension or metric entry is invisible to them.',
  ['galgebra/ga.py', 'galgebra/mv.py'],
  [('Ga.geometric_product_basis_blades / non_orthogonal_bases_products / reduce_basis / base<->blade expansion', 'galgebra/ga.py'), ('Mv.__mul__, __rmul__, __pow__', 'galgebra/mv.py')],
  ['Mv.__mul__', 'Mv.__pow__', 'Ga.mul'],
  'bounded-exhaustive explicit-state enumeration of metrics x blade pairs x operand shapes and BFS over product words, each step replayed on the real code and compared with a reference Clifford model',
  'Exhaustive within the stated metric library/dimension bounds; bilinearity is checked with fully generic symbolic coefficients, so blade-pair coverage extends to all coefficients. Trusts sympy polynomial arithmetic and the 60-line reference model.')
p('C02', 'Derived products are the grade selections of the geometric product',
  'In every algebra the outer product, the inner product, the left and right contractions and the scalar product of two multivectors are the bilinear grade selections of the geometric product (grade r+s; |r-s| with scalars giving zero; s-r; r-s; 0), and the commutator and anticommutator products are half the difference and half the sum of the two geometric products. This holds for every grade combination, whichever side a plain scalar stands on, and whichever inner product is selected for the generic dot operation.',
  'inputs configurations programs', 'all metrics, operand grades, operators, and either side scalars',
  'Tests evaluate each operator on a few operands; the grade selection is per blade pair and has separate orthogonal and non-orthogonal code paths and tables per operator.',
  ['galgebra/ga.py', 'galgebra/mv.py'],
  [('Ga.wedge/hestenes_dot/left_contract/right_contract/scalar_product tables', 'galgebra/ga.py'), ('Mv.__xor__/__or__/__lt__/__gt__/__lshift__/__rshift__/sp and reflected forms', 'galgebra/mv.py')],
  ['Mv operators ^ | < > << >>', 'Mv.sp', 'Ga.dot', 'Ga.Mul'],
  'bounded-exhaustive enumeration of metrics x blade pairs x operators and BFS over operator words against a reference Clifford model',
  'As C01. Reference products are computed from the reference geometric product by grade selection only.')
p('C03', 'Values do not depend on the blade or base representation',
  'Whether a multivector is held as a sum of blades or as a sum of geometric products of basis vectors is unobservable: conversions in either direction preserve the value and invert each other, and every operation and query (products, sums, grade extraction, coefficients, involutions, inverses, equality, hash) gives the same answer whichever representations its operands are in. A conversion leaves no element of the other representation behind.',
  'inputs configurations histories', 'all multivectors in non-orthogonal algebras and all sequences of conversions and operations',
  'Tests compare a few products in both forms; the representation flag travels through every operation, and mixed operands occur only after particular histories.',
  ['galgebra/ga.py', 'galgebra/mv.py'],
  [('Ga.blade_to_base_rep/base_to_blade_rep and expansion dictionaries', 'galgebra/ga.py'), ('Mv.blade_rep/base_rep/is_blade_rep and per-operation conversion', 'galgebra/mv.py')],
  ['Mv.blade_rep', 'Mv.base_rep', 'every Mv operation'],
  'explicit-state BFS over conversion/operation words plus exhaustive operand x representation x operation enumeration, against a reference model',
  'All unary operations and all binary operators over every combination of representations of every operand shape, in all small non-orthogonal metrics listed.')
p('C04', 'Grade structure, extraction and involutions are exact',
  'For every multivector, however its expression is written (unexpanded, nested, zero terms, any support), grade projection, even/odd parts, grade decomposition, pure-grade and grade-list queries, coefficient and component access and the scalar/vector/base/zero predicates report exactly its true graded content, and the parts sum back to it. Reverse, grade involution and Clifford conjugate multiply the grade-r part by (-1)^(r(r-1)/2), (-1)^r and (-1)^(r(r+1)/2). Asking for a coefficient list of a wrong grade is an error, never a wrong list.',
  'inputs configurations', 'all supports of multivectors and all ways of writing them',
  'Tests query a few multivectors; the answers depend on which blades are present, on cancellation, on the order of terms and on cached characterisations.',
  ['galgebra/mv.py', 'galgebra/ga.py', 'galgebra/metric.py'],
  [('Mv.characterise_Mv/get_grade/components/blade_coefs/get_coefs/proj/even/odd/pure_grade/rev/g_invol/ccon', 'galgebra/mv.py'), ('Ga.grades/grade_decomposition/split_multivector/scalar_part', 'galgebra/ga.py')],
  ['Mv methods and the module-level functions of the same name'],
  'exhaustive enumeration of all blade supports (2^(2^n), n<=3) x expression forms x queries, against a reference model',
  'All 2^8 supports in three dimensions and every listed way of writing the expression; n=4,5 with grade-pattern supports.')
p('C05', 'Duality follows the selected convention and undual inverts it',
  'In every algebra with invertible pseudoscalar and for each of the eight dual conventions, the dual of every multivector is the product with plus or minus the pseudoscalar or its inverse on the side the convention names, and undual is its exact inverse in both orders. The pseudoscalar is the outer product of the basis vectors (divided by the root of the absolute value of its square when the algebra normalises it), its square and inverse reported by the algebra are true, and an unknown convention name is refused and leaves the setting unchanged.',
  'inputs configurations histories', 'all multivectors, metrics, conventions and sequences of convention changes',
  'Tests use the default convention in one or two algebras; the eight conventions are global state and signs depend on dimension and signature.',
  ['galgebra/ga.py', 'galgebra/mv.py', 'galgebra/interop/kingdon.py'],
  [('Ga.dual_mode and its selector, Ga.I/i/i_sq/i_inv', 'galgebra/ga.py'), ('Mv.dual/undual', 'galgebra/mv.py')],
  ['Mv.dual', 'Mv.undual', 'Ga.I', 'Ga.i', 'Ga.i_inv', 'Ga.dual_mode'],
  'explicit-state exploration of the convention state machine x all blades x metrics, against the reference model',
  'All blades, all eight conventions, all transitions between them, over the metric library.')
p('C06', 'Inverses and quotients are two-sided inverses, or an error',
  'Whenever an inverse of a multivector is returned with finite value, by any of the inverse methods the package offers, multiplying it by the multivector on either side gives exactly 1; an invertible multivector is never refused by the methods meant for all multivectors in the dimensions they cover. Division on either side is multiplication by the inverse, and negative powers are powers of the inverse.',
  'inputs configurations', 'all multivectors and metrics',
  'Tests invert a handful of vectors and versors; which shortcut applies depends on the grade, versor-ness, and dimension.',
  ['galgebra/mv.py'],
  [('Mv.inv/shirokov_inverse/hitzer_inverse/__truediv__/__rtruediv__/__pow__', 'galgebra/mv.py')],
  ['Mv.inv', 'Mv.shirokov_inverse', 'Mv.hitzer_inverse', 'A/B'],
  'exhaustive enumeration of small-coefficient multivectors x metrics x inverse methods with product-is-one oracle in the reference model',
  'All multivectors with coefficients in {-1,0,1} for n<=2 and all listed shapes for n<=5, invertibility decided by the reference regular representation.')
p('C07', 'Norms, exponentials, rotations and projections obey their defining equations',
  'The quadratic form, squared norm, norm and magnitude of a multivector agree with the scalar part of the product with its reverse; the exponential of a blade whose square is a number is cos+sin, cosh+sinh or 1+B according to the sign of the square, with the value of the power series. Blade and versor tests answer truly; reflection in, and projection on, a blade and rotation by a bivector are the linear maps those names denote (projection plus rejection is the identity, reflections square to the identity, a rotation multiplies by exponentials of half the bivector on both sides).',
  'inputs configurations', 'all multivectors, blades and metrics of every signature',
  'Tests exercise a few Euclidean cases; sign of the square, degenerate or symbolic squares, mode and hint arguments select different code.',
  ['galgebra/mv.py', 'galgebra/metric.py', 'galgebra/utils.py'],
  [('Mv.qform/norm2/norm/mag2/mag/exp/rotate_multivector/reflect_in_blade/project_in_blade/is_blade/is_versor', 'galgebra/mv.py'), ('square_root_of_expr', 'galgebra/metric.py')],
  ['Mv.norm', 'Mv.exp', 'rot', 'refl', 'proj'],
  'exhaustive enumeration of integer blades/multivectors x metrics of every signature x options, against the reference model (matrix kernel rank for blades, power series for exp)',
  'All integer bivectors/vectors in a small box; the exponential is compared with the summed power series of the regular representation to 1e-15.')
p('C08', 'Reciprocal frames and the gradient are dual to the basis',
  'For every nondegenerate metric the reciprocal basis vectors satisfy e^i . e_j = delta_ij (up to the pseudoscalar-square factor the API documents when normalisation is not requested), the inverse metric is the inverse, the blade reciprocals pair to 1 with their own blade and 0 with all others under the scalar product, and the reciprocal frame of any independent frame of vectors is dual to it. The gradient built from a frame is the sum of reciprocal vectors times partial derivatives.',
  'inputs configurations histories', 'all metrics, frames and orders of first access to the lazily built tables',
  'Tests check one or two frames; values are lazily cached with different normalisations for orthogonal and general metrics.',
  ['galgebra/ga.py'],
  [('Ga.build_reciprocal_basis/mvr/r_basis_mv/ReciprocalFrame/g_inv/make_grad', 'galgebra/ga.py')],
  ['Ga.mvr', 'Ga.r_basis_mv', 'Ga.ReciprocalFrame', 'Ga.g_inv', 'Ga.grads'],
  'exhaustive enumeration of metrics x frames x access orders with duality oracle in the reference model',
  'All nondegenerate {-1,0,1,2} metrics n<=2, {-1,0,1} subsets n=3, library n<=4, all frames from a small integer box.')
p('C09', 'Equality, hashing and mixing rules of multivectors are coherent',
  'Multivectors compare equal exactly when their difference is zero as an algebra element (modulo simplification of coefficients), equality is an equivalence compatible with scalars, and equal multivectors that are not scalars hash equal when their coefficients are polynomials, whatever sequence of operations produced them (a scalar hashes as its expression). Combining multivectors of different algebras by any operator is refused with an error, and results of operators on multivectors are multivectors of the same algebra.',
  'inputs histories configurations', 'all pairs of multivectors, in every representation and history, and all pairs of algebras',
  'Tests compare some pairs; equality of differently built values and mixing of look-alike algebras need the cross product.',
  ['galgebra/mv.py', 'galgebra/ga.py', 'galgebra/dop.py'],
  [('Mv.__eq__/__hash__/Mv.Mul type checks', 'galgebra/mv.py'), ('Ga identity', 'galgebra/ga.py')],
  ['==', 'hash', 'operators across algebras'],
  'exhaustive enumeration of all pairs from a population of differently-built equal/unequal values, and of all operators across algebra pairs',
  'Population closed under representation changes and operation orders; equality decided by the reference.')
p('C10', 'Geometric derivative agrees with tensor calculus',
  'In flat and curvilinear coordinates, with normalised basis or not, the gradient applied to any multivector field from the left or the right (geometric, outer, inner and contraction forms) equals the sum over coordinates of reciprocal basis vector times the covariant derivative of the field, including the derivatives of the basis vectors. In particular divergence, curl and the Laplacian of a scalar field agree with the classical formulas, and the result does not depend on which operation or access was made first.',
  'inputs configurations', 'all fields and coordinate systems',
  'Tests print a few spherical-coordinate results; signs and connection terms per blade and coordinate system are not otherwise checked.',
  ['galgebra/ga.py', 'galgebra/mv.py', 'galgebra/dop.py'],
  [('Ga.pDiff/connection tables/grads', 'galgebra/ga.py'), ('Dop.Mul', 'galgebra/mv.py')],
  ['Ga.grad', 'Ga.rgrad', 'Ga.pDiff', 'Mv.diff'],
  'exhaustive enumeration of coordinate systems x field blades x operator forms against an independent tensor-calculus reference (and against Cartesian embedding)',
  'Fields with undefined functions per blade, so agreement extends to all smooth fields on the enumerated blades.')
p('C11', 'Differential operators form the algebra their action defines',
  'A scalar, partial or multivector differential operator acts as the sum of its coefficients times its partial derivatives, right-acting operators on what stands to their right and left-acting ones on what stands to their left. Products of operators act as their composition, product rule included; for multivector operators the geometric, outer, inner and contraction products with operators, multivectors or scalars combine the coefficients by that product, and sums, differences, negation and scalar quotients act term by term. Operators with equal coefficients for every derivative compare equal however they were built, duplicates are consolidated, and combining multivector operators of opposite directions or anything of different algebras is refused.',
  'inputs programs histories', 'all operator expressions up to a size and all operands',
  'Tests apply a few operators; the operator algebra is closed under nesting, and product rule terms appear only in compositions.',
  ['galgebra/dop.py', 'galgebra/mv.py'],
  [('Pdop/Sdop', 'galgebra/dop.py'), ('Dop', 'galgebra/mv.py')],
  ['Pdop', 'Sdop', 'Dop', 'Ga.pdop', 'Ga.sdop', 'Ga.dop'],
  'exhaustive enumeration of operator expressions to a bounded depth applied to generic functions, compared with direct differentiation in the reference model',
  'Operators to depth 3 on generic (undefined-function) fields.')
p('C12', 'Metric, connection and submanifold structure are those of the geometry',
  'The metric of an algebra built from coordinates or from an embedding map is the induced metric, its Christoffel symbols and the derivatives of its basis vectors are those of the Levi-Civita connection (with the normalisation correction when the basis is normalised), and a normalised orthogonal basis has unit squares. The symbols reported are those of the coordinate metric before normalisation; a submanifold algebra has the induced metric of its map into the parent, for coordinate maps, nested maps, and vector-valued maps over a constant basis.',
  'configurations inputs', 'all metrics depending on coordinates, embeddings and submanifold maps',
  'Tests check one or two coordinate systems.',
  ['galgebra/metric.py', 'galgebra/ga.py'],
  [('Metric.__init__/init_connect_flg/Christoffel_symbols/derivatives_of_basis/normalize_metric', 'galgebra/metric.py'), ('Sm', 'galgebra/ga.py')],
  ['Metric.g', 'Christoffel_symbols', 'de', 'Sm'],
  'exhaustive enumeration of a library of coordinate metrics, embeddings and submanifold maps, each compared entry by entry with an independent Levi-Civita reference',
  'All index triples, all metrics of the library; generic metrics with undefined functions make the Christoffel identity cover every metric of that dimension.')
p('C13', 'Linear transformations are the outermorphisms of their matrix',
  'A linear transformation built in any supported way (matrix, dictionary, list, function, symbol name, versor) maps each basis vector as specified and acts on every multivector as the unique outermorphism. Sum, difference, scalar multiple, composition, determinant, trace, adjoint, inverse and matrix form agree with those of its matrix in every metric: the determinant is the factor on the pseudoscalar, the adjoint satisfies <L(a) b> = <a adj(L)(b)>, and composition applies the right operand first; a singular transformation has no inverse, and a non-linear function or a multivector that is no versor is refused.',
  'inputs configurations programs', 'all transformations, metrics, and expressions of transformations',
  'Tests use a few 2-d and 3-d maps in Euclidean bases; adjoint and determinant depend on the metric.',
  ['galgebra/lt.py'],
  [('Lt.__init__/__call__/adj/det/tr/matrix/__mul__/inv', 'galgebra/lt.py')],
  ['Ga.lt', 'Lt'],
  'exhaustive enumeration of small integer matrices x constructors x metrics x expressions against a matrix reference model',
  'All 2x2 matrices over {-1,0,1,2}, selected 3x3, generic symbolic matrices, all constructor forms.')
p('C14', 'Multilinear functions evaluate, add, multiply and contract as tensors',
  'A tensor built from any supported description evaluates on vectors as the multilinear function described, in every slot and every (oblique, degenerate, normalised) basis; sums, tensor products (geometric, outer, inner), the slot gradient, contraction of two slots of a scalar-valued tensor, and the tensor and covariant derivatives evaluate as those of its component array with the metric and connection of the algebra. The results do not depend on which other tensors were created before, operations leave the algebra as it was, and tensors of different algebras or (for sums) ranks are refused.',
  'inputs configurations histories', 'all tensors to rank 3, metrics and creation histories',
  'The tests evaluate a few tensors once in one order; slots are shared per algebra, so results can depend on what else was created, and contraction and derivatives are not tested at all.',
  ['galgebra/lt.py'],
  [('Mlt', 'galgebra/lt.py')],
  ['Mlt'],
  'exhaustive enumeration of tensor expressions and creation histories against a component-array reference model',
  'Rank <= 3, n <= 3, generic components.')
p('C15', 'Results do not depend on what was computed before',
  'Every operation is a function of its operands: no computation, query, printing or lazily built table changes the value of an existing multivector, operator or algebra, or the result of any later operation, whichever order operations are performed in and however many algebras, copies and submanifolds exist in the process. Operands are never modified by an operation unless it is documented as in-place.',
  'histories programs configurations', 'all sequences of operations on shared objects',
  'Tests run short fixed sequences; stale caches or aliased tables need a particular order of first accesses.',
  ['galgebra/ga.py', 'galgebra/mv.py', 'galgebra/metric.py', 'galgebra/lt.py', 'galgebra/_utils/__init__.py'],
  [('lazy product tables and cached properties', 'galgebra/ga.py'), ('cached characterisation flags', 'galgebra/mv.py')],
  ['all public operations'],
  'stateless exploration: every ordered sequence of operations up to a depth on shared live objects, each observation compared with that of a fresh process state',
  'All ordered pairs (and triples thorough) of the operation menu, per algebra kind.')
p('C16', 'The expression evaluator parenthesises as the declared precedence says',
  'For every operator precedence declaration and every expression string over multivector names, the evaluator returns the value of the expression fully parenthesised according to that declaration, left-associative within a level, with explicit parentheses, unary minus, function calls and names respected. Malformed expressions or declarations are refused with an error rather than silently given another value.',
  'inputs configurations histories', 'all expressions up to a length and all precedence declarations',
  'Tests evaluate three strings.',
  ['galgebra/printer.py', 'galgebra/mv.py', 'galgebra/gprinter.py'],
  [('def_prec/GAeval/parse_line/sub_paren/add_paren', 'galgebra/printer.py')],
  ['GAeval', 'def_prec'],
  'exhaustive enumeration of token strings up to a length x precedence declarations against a reference precedence parser',
  'All operator sequences up to length 4 (5 thorough), with all parenthesisations up to depth 2.')
p('C17', 'Printed forms denote the value printed',
  'The string and LaTeX forms of every multivector, differential operator and linear transformation, in every print mode and line format, denote exactly the value printed: every nonzero term appears once with its coefficient, sign and basis element, and different values have different text. Line formats only change the layout.',
  'inputs configurations', 'all multivectors, all coefficients kinds, all formats',
  'Tests compare fixed golden strings for a few values.',
  ['galgebra/printer.py', 'galgebra/mv.py', 'galgebra/dop.py', 'galgebra/lt.py'],
  [('Mv._sympystr/_latex/Fmt, GaPrinter, GaLatexPrinter', 'galgebra/printer.py')],
  ['str', 'latex', 'Mv.Fmt'],
  'exhaustive enumeration of supports x coefficient kinds x formats; printed text is parsed back by an independent reader and compared with the value',
  'All supports n<=3 and all coefficient kinds listed; every format.')
p('C18', 'Print modes are a clean state machine',
  'Entering and leaving the output modes (plain, enhanced, LaTeX and its notebook and new-printer variants) in any order leaves standard output, the display hook, the default printer settings and the text of later prints as the last requested mode defines: restoring always restores plain printing, options given for one use do not leak into later ones, and format settings of one object never change how another prints.',
  'histories configurations', 'all sequences of mode changes and prints',
  'Tests enter each mode once.',
  ['galgebra/printer.py', 'galgebra/gprinter.py', 'galgebra/mv.py', 'galgebra/metric.py'],
  [('Format/xpdf/tex/restore, GaLatexPrinter.redirect/restore, enhance_print, Fmt', 'galgebra/printer.py')],
  ['Format', 'gFormat', 'enhance_print', 'Fmt', 'print'],
  'explicit-state exploration of every sequence of mode-changing calls to a bounded depth in forked processes, each state probed by printing and compared with the mode model',
  'Sequences to depth 3 (4 thorough); external pdflatex calls are stubbed.')
p('C19', 'Construction from every input form builds the algebra and multivector named',
  'Every supported way of giving a basis, metric, coordinates, signature or multivector (strings, lists, matrices, functions, letter-mode shorthands, helper constructors) yields the same object as its explicit equivalent: the named metric entries, basis names and blades in order, and coefficient symbols or functions per grade with the documented naming. Descriptions with wrong dimensions or counts, unknown kinds, keywords or hints, missing coordinates, repeated names or an asymmetric metric are refused with an error.',
  'inputs configurations', 'all construction forms and dimensions',
  'Tests build a few algebras.',
  ['galgebra/ga.py', 'galgebra/mv.py', 'galgebra/metric.py', 'galgebra/interop/kingdon.py', 'galgebra/utils.py'],
  [('Ga.__init__/com_grade/build..., Metric.dict_to_matrix/rep_list/symbols_list', 'galgebra/metric.py'), ('Mv._make_*', 'galgebra/mv.py')],
  ['Ga(...)', 'Ga.mv(...)', 'Ga.build', 'Cl'],
  'exhaustive enumeration of construction forms x dimensions x arguments compared with the explicit reference construction',
  'All basis forms for n<=4; all symmetric token matrices over {0,1,-1/2,#} for n<=2 and patterns for n=3 in every form of the metric; every kind of multivector with every length of coefficients; a table of malformed descriptions and all their neighbours.')
p('C20', 'Coefficient transformations preserve the value they claim to',
  'Simplify, trigsimp, expand, collect, factor-style and user-supplied coefficient functions, substitution and scalar differentiation act on every coefficient of every blade and on nothing else: value-preserving ones leave an equal multivector, substitution is made in all coefficients as sympy makes it, differentiation differentiates each coefficient, and user-supplied functions are applied to each coefficient exactly once.',
  'inputs configurations histories', 'all multivectors and coefficient expressions',
  'Tests simplify a few expressions.',
  ['galgebra/mv.py', 'galgebra/metric.py', 'galgebra/dop.py', 'galgebra/ga.py'],
  [('Mv.simplify/trigsimp/expand/collect/subs/func/diff, Simp', 'galgebra/mv.py')],
  ['Mv.simplify', 'Mv.subs', 'Mv.func', 'Simp'],
  'exhaustive enumeration of supports x coefficient kinds x transformations with coefficientwise oracle',
  'All supports n<=3, all ordered pairs of 19 coefficient kinds on all pairs of elements n=2 in blade and base form, 26 transformations, compositions of 10 value-preserving steps to depth 3.')

p('C21', 'All spellings of an operation agree',
  'Every spelling the package offers for one operation - operator, multivector method, module function, method or product table of the algebra, a generic function with a mode, the old galgebra.deprecated interface - gives the same value on every operand and refuses the same operands. A deprecated spelling gives what the spelling its warning recommends gives and announces itself to its caller with a DeprecationWarning; the recommended spellings announce nothing.',
  'inputs configurations histories', 'all operands, algebras and spellings',
  'Tests call one spelling of each operation on one or two operands; most wrappers, tables and aliases are never compared with each other.',
  ['galgebra/mv.py', 'galgebra/ga.py', 'galgebra/lt.py', 'galgebra/dop.py', 'galgebra/deprecated.py', 'galgebra/primer.py'],
  [('module functions of mv and lt, Mv.Mul, Ga.Mul, Ga.dot', 'galgebra/mv.py'), ('product functions, tables and deprecated attributes', 'galgebra/ga.py'), ('MV, ReciprocalFrame', 'galgebra/deprecated.py')],
  ['mv.<function>', 'Mv.<method>', 'Ga.<method>', 'Ga.<table>', 'deprecated.MV'],
  'exhaustive enumeration of spellings x operands x representations x algebras, outcomes compared pairwise; product tables also against the reference algebra',
  'All coefficient vectors {0,1,-2}^4 n=2, all supports n=3 (half of them in the quick tier), blade and base form; all pairs of operand shapes in 6 algebras; all blade pairs of 5 product tables in 8 algebras; 34 aliases in 16 algebras.')

DONE = [x for x in open(os.path.join(HERE, 'tools', 'claimed.txt')).read().split()]
NA = {}

with open(os.path.join(HERE, 'properties.jsonl'), 'w') as f:
    for q in P:
        assert len(q['title']) <= 80, q['title']
        assert q['statement'].count('. ') <= 2, (q['id'], q['statement'].count('. '))
        f.write(json.dumps(dict(
            id=q['id'], title=q['title'], statement=q['statement'], quantifier=dict(over=q['over'], text=q['qtext']),
            why_tests_cant=q['why'], anchors=dict(files=q['files'], mechanism=[dict(name=a, where=b) for a, b in q['mech']],
                                                  observe_at=q['observe'], hook_needed=None))) + '\n')
man = dict(version=1, setup_cmd='bash setup.sh', checks=[
    dict(property=q['id'], quick_cmd='bash check.sh %s --tier quick' % q['id'], thorough_cmd='bash check.sh %s --tier thorough' % q['id'],
         evidence_file='evidence/%s.json' % q['id'], technique=q['tech'], level='model_checking', level_note=q['note'])
    for q in P if q['id'] in DONE],
    not_applicable=[dict(property=q['id'], reason=NA.get(q['id'], 'check under construction, not claimed yet')) for q in P if q['id'] not in DONE],
    notes='No hooks are needed: the checks import /repo directly and drive its public API.')
json.dump(man, open(os.path.join(HERE, 'MANIFEST.json'), 'w'), indent=1)
print(len(P), 'properties,', len(DONE), 'claimed')
