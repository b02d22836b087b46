"""Per property: level, deciding technique, what is proved, what is assumed, what is bounded only.
lib/mkdocs.py turns this into MANIFEST.json and the per-property part of DESIGN.md; the evidence files quote it."""
FA = 'contracts on the Fortran kernels; VCs generated from igalib.f90, discharged by z3/cvc5/polynomial identity'
PB = 'contracts on the Python functions; VCs by symbolic execution of the current source, discharged by z3/cvc5'
RAC = 'executable contracts checked at run time on generated inputs (bounded)'
FB = FA + '; ' + PB
ALLCLOSE = 'np.allclose/np.isclose modelled as exact equality'
SHAPES = ('the rank of arrays and the number of parametric directions are enumerated (1 to 3), sizes, degrees, knots and coordinates are symbolic; '
          'numbers of knots and degrees are unbounded')
KERN = 'from Python, the kernels are the contracts in proof/kern.py'
P = {}


def plan(pid, level, tech, proved, assume=(), bounded=(), theorems=()):
    P[pid] = dict(level=level, technique=tech, proved=proved, assume=list(assume), bounded=list(bounded))


plan('C01', 'proof', FA,
     'FindSpan returns the unique k with U(k) <= u < U(k+1) (last nonempty span at the right end), FindMult returns the number of equal knots, '
     'FindSpanMult both, SpanIndex the increasing list of the nonempty spans, with termination of the bisection and the scans; lemmas tie a run of equal knots to a count over '
     'the whole vector and the number of spans to the spans listed (span_count)',
     ['in FindSpanMult the comparison with eps separates knots from non-knots (ghost premise sep: the value is a knot or at least eps away from all)'],
     ['the Python lists of spans and breakpoints (NURBS.spans, NURBS.breaks)'])
plan('C02', 'proof', FA,
     'BasisFuns returns B(j,p,u) for the p+1 functions of the span, B defined by the Cox-de Boor recursion; lemmas: the others vanish (basis_window), '
     'the values are non-negative (basis_positive) and sum to one (basis_unity)')
plan('C03', 'proof', FA,
     'DersBasisFuns returns the coefficient form D(j,p,k,u) of the k-th derivative for every order up to the degree, zero above; lemmas: one differentiation of a '
     'B-spline (basis_derivative: difference of degree p-1 functions satisfies the differentiated recursion) and the closed form over the orders (derivative_closed)')
plan('C04', 'proof', FB,
     'CurvePoint, SurfacePoint and Evaluate for 0 to 3 directions return the tensor-product sums over the contract of BasisFuns; NURBS.__call__ and evaluate return the quotient '
     'of homogeneous sum and weight at each tensor-product entry, with the stated shape, for scalars, arrays and field selections',
     [KERN, SHAPES], ['point evaluators through corner cutting, end interpolation at clamped ends'])
plan('C05', 'proof', FB,
     'TensorProd1..3 and Rationalize give products of basis derivatives and the quotient rule up to order four as polynomial identities; the Gradient, Hessian, ThirdDer and FourthDer kernels '
     'for 1 to 3 directions and the Interpolate kernels deliver exactly these per point; gradient, hessian and derivative return '
     'them with one trailing axis per differentiation. The obligation for the fourth derivative of one-parameter objects stays open: known finding F1, whose recorded deviation is proved in its place',
     ['in Python, ' + KERN, SHAPES])
plan('C06', 'proof', FB,
     'Determinant and Inverse for orders 1 to 3 (lemma inverse: A times the computed inverse is the identity), GeometryMap and the mapped Gradient kernels: derivative of the field '
     'times the inverse of the derivative of the map, as polynomial identities; the Python layer passes geometry and field to the kernel and shapes the result; orders above one are rejected',
     ['in Python, ' + KERN, SHAPES])
plan('C07', 'proof', FB,
     'InsertKnot (and its caller over the trailing axes) applies Boehm\'s rule r times and the knots become the old ones with r copies of the value; lemmas boehm_basis, boehm_curve, boehm_stable, '
     'boehm_repeat: that rule leaves the curve of every coordinate unchanged; NURBS.insert clips or rejects, calls it with the right axis and arguments and stores exactly its results',
     [KERN, SHAPES, ALLCLOSE, 'ghost premise sep as in C01'])
plan('C08', 'proof', PB,
     'NURBS.refine: collects, sorts and checks the values, calls the refinement kernel in the right axis and stores its results; the new knots are the sorted union with multiplicity',
     [KERN + ' (RefineKnotVector: assumed here, bounded)', SHAPES, ALLCLOSE], ['RefineKnotVector itself'])
plan('C09', 'proof', PB,
     'NURBS.remove: tolerance scaling by weights, clipping, axis handling, knots reduced by exactly the number removed, object unchanged if none',
     [KERN + ' (RemoveKnot: assumed here, bounded)', SHAPES, ALLCLOSE], ['RemoveKnot itself: that the deviation stays within the tolerance'])
plan('C10', 'proof', PB,
     'NURBS.elevate: argument checks, clamping of unclamped axes and its undoing, degree raised by exactly t, results stored for the right axis',
     [KERN + ' (DegreeElevate: assumed here, bounded)', SHAPES, ALLCLOSE], ['DegreeElevate itself'])
plan('C11', 'proof', FB,
     'ClampKnot (through its inner insertion loop) and UnclampKnot: the clamped object is the old one after Boehm insertions at the two ends, which the lemmas of C07 show to leave the curve '
     'unchanged; unclamping solves the same recurrences in reverse (lemma unclamp_inverse: insertion undoes each step), the new end knots repeat the knot differences as stated; '
     'sides enumerated, degree, sizes and continuity symbolic. NURBS.clamp and unclamp: side and continuity checks, kernels applied in the right axis to control points and fields alike',
     ['in Python, ' + KERN, SHAPES, ALLCLOSE])
plan('C12', 'proof', FB,
     'NURBS.slice: bounds, insertion to full multiplicity at both ends through the contract of insertion (kernel proved under C07), cut of knots and control grid at the right indices; '
     'lemma basis_local: the rows cut out determine the spline on the interval, since the basis functions there depend on the local knots only',
     ['in Python, ' + KERN, SHAPES, ALLCLOSE])
plan('C13', 'proof', FB,
     'the Extract kernel and the corner cutting below it return the point of the curve at the parameter for every row (Boehm insertion to full multiplicity; lemmas boehm_curve, basis_at_knot); '
     'NURBS.extract and boundary: the slice taken is the one with the given parameter fixed; remaining knots and axes unchanged; ends of the domain for boundary',
     ['in Python, ' + KERN, SHAPES, ALLCLOSE])
plan('C14', 'proof', PB,
     'transpose, swap, reverse, remap: knots, control points and fields of the result as functions of those of the object; twice is the identity',
     [SHAPES])
plan('C15', 'proof', PB,
     'constructor (all forms of weights and fields), accessors, copy, clone, rebuild from the reported parts, default (Greville) control points; no sharing of buffers by copies; lemma linear_precision: Greville points give the identity map',
     [SHAPES, ALLCLOSE])
plan('C16', 'proof', PB,
     'frame and representation-invariant obligations of every modifying operation: only the object is written, results are fresh buffers, the invariant (sorted knots, degree at least one, matching grid) holds after',
     [KERN, SHAPES, 'single operations from an arbitrary valid object, so every sequence by induction'],
     ['finiteness of floating-point values; constructions of cad.py; long operation sequences'])
plan('C17', 'proof', PB,
     'for each modifying operation: inadmissible arguments reach a raise, no write to the object precedes it, and every kernel call satisfies the f2py checks and the kernel precondition',
     [KERN, SHAPES, ALLCLOSE], ['process termination under the sanitizer build'])
plan('C18', 'proof', PB,
     'transform: constructor, call, copy, inverse, composition, translate, scale, rotate (Rodrigues; sin, cos uninterpreted with sin^2+cos^2=1); NURBS.transform and move map each homogeneous point, leaving weights, fields and knots',
     [SHAPES, 'np.linalg.inv returns the inverse'])
plan('C19', 'proof', PB,
     'line, linear, bilinear, trilinear: knots 0,0,1,1 per direction and exactly the given corners, so (lemma bezier_piece) the multilinear interpolant; circle, for all radii, centres, '
     'start and end angles up to a full turn: 1 to 4 equal spans of at most a quadrant, every span the rational quadratic arc of half angle sweep/(2 spans) turned to its place; '
     'lemma arc: its points are at the radius, its weight is positive, its polar angle runs monotonically over the arc',
     ['sines and cosines uninterpreted with sin^2+cos^2=1, cos > 0 within (-pi/2, pi/2) and the addition theorems; numpy.pi is pi'])
plan('C20', 'proof', PB,
     'extrude (1 and 2 directions, every form of displacement), sweep and ruled: knots and homogeneous control points of the result as functions of those of the inputs, arguments unchanged, wrong '
     'dimensions rejected; with lemma bezier_piece the blend direction is linear',
     [SHAPES, 'ruled: compat satisfies its contract (equal degrees, knots and shapes; C21)'], ['revolve and coons; compat'])
plan('C21', 'exploration', RAC, 'nothing yet')
plan('C22', 'proof', FB,
     'the KnotVector kernel for any degree, number of elements, continuity and all end types: interior knots on the stated equally spaced breaks with multiplicity p-C, end knots clamped, '
     'or continued periodically (lemma blocks); cad.grid: exactly the admissible arguments are accepted, the knots are those of the kernel for the arguments of each direction, the control points '
     'the Greville points with weight one; lemma linear_precision: that spline is the identity',
     ['in Python, ' + KERN, SHAPES])
plan('C23', 'exploration', RAC, 'nothing yet')
plan('C24', 'exploration', RAC, 'nothing yet')
plan('C25', 'exploration', RAC, 'nothing yet')
plan('C26', 'proof', FA,
     'Gauss rules of every tabulated size: positive weights, symmetric points, exact on polynomials of the full degree (evaluated from the literals in the source, to 1e-15); BasisData and BasisDataCol: '
     'one entry per nonempty span, points and Jacobian of the affine map of the rule, derivative tables equal to DersBasisFuns at those points',
     ['exactness of the quadrature literals is to 1e-15, not exact'], ['the f2py wrappers around the tables'])
plan('C27', 'proof', FA, 'Greville abscissae are the means of p consecutive knots; the Gauss-Lobatto rules of every tabulated size: symmetric points with both ends, '
     'positive weights, exact on polynomials to degree 2q-3 (to 1e-15)', [],
     ['breaks, Lagrange and Lobatto abscissae of an object (Python)'])
plan('C28', 'proof', FA, 'index bounds, initialisation of every value read and every output element, no division by zero, termination of loops, for the kernels under contract',
     [], ['kernels not under contract: run under bounds-checking and sanitizer builds'])
plan('C29', 'exploration', RAC, 'nothing yet')
