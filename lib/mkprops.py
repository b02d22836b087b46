"""Writes /verif/properties.jsonl (kept as a script so that the wording is edited in one place)."""
import json, os
N, C, T, I, P = ('igakit/nurbs.py', 'igakit/cad.py', 'igakit/transform.py', 'igakit/io.py', 'igakit/plot.py')
F, Y = 'igakit/igalib.f90', 'igakit/igalib.pyf'
rows = []


def p(id, title, statement, qtext, why, files, mech, over=('inputs',)):
    rows.append({'id': id, 'title': title, 'statement': statement,
                 'quantifier': {'over': list(over), 'text': qtext},
                 'why_tests_cant': why, 'anchors': {'files': files, 'mechanism': [{'name': m, 'where': ', '.join(files)} for m in mech]}})


p('C01', 'Knot span and multiplicity lookup',
  'For every valid knot vector of degree p and every parameter u in its domain, the span lookup returns the unique index k with U[k] <= u < U[k+1] (at the right end of the domain: the last nonempty span), and the multiplicity lookup returns how many knots equal u. '
  'The list of nonempty spans and the list of breakpoints with multiplicities reported for an object enumerate exactly the distinct knot intervals of the domain, in order, for clamped and unclamped knot vectors alike.',
  'all degrees, all valid knot vectors (clamped or not, repeated interior knots), all parameters of the domain, including knots and both ends',
  'The tests look up spans for a few fixed clamped knot vectors; the guarantee is over all knot vectors and all real parameters, including the boundary cases of the bisection.',
  [F, N, Y], ['binary search for the span', 'multiplicity scan around the span', 'span counting and span listing', 'breakpoint listing'])
p('C02', 'B-spline basis values',
  'For every valid knot vector and every parameter u in the domain, the p+1 basis values returned for the span of u are the values of the Cox-de Boor B-splines: non-negative, sum to one, and all other basis functions vanish at u.',
  'all degrees, all valid knot vectors, all parameters of the domain',
  'Tests compare a few hand-chosen points; the identity with the recursive definition holds for a continuum of parameters and knot vectors.',
  [F], ['triangular basis-function recurrence with left/right differences'])
p('C03', 'Derivatives of B-spline basis functions',
  'For every valid knot vector, parameter u, and derivative order d, the returned table holds the exact derivatives of order 0..d of the p+1 basis functions that are nonzero on the span of u; orders above the degree are zero.',
  'all degrees, all orders (also orders above the degree), all valid knot vectors and parameters',
  'Tests sample orders 1..2 of a few knot vectors; the guarantee is for every order and knot vector.',
  [F], ['ndu table, a-coefficient recurrence, factorial scaling'])
p('C04', 'Evaluation of curves, surfaces and volumes',
  'Evaluating an object with 1, 2 or 3 parametric directions at any parameters of its domain gives the rational combination sum(N_i w_i P_i)/sum(N_i w_i) of control points, weights and B-splines, and the same combination for the field values; the result has one entry per tensor-product parameter combination, with scalar parameters contributing no axis. '
  'Calling the object, asking it to evaluate, and the point-wise evaluators of the numeric kernel all agree, and at a clamped end the value is the end control point.',
  'all valid objects (1-3 directions, any degrees, weights > 0, any number of fields), all scalar or array parameters inside the domain, omitted parameters (which default to the breakpoints)',
  'Tests evaluate a handful of primitives at fixed grids; the guarantee is over all objects and parameters.',
  [N, F], ['tensor-product evaluation of homogeneous control points and division by the weight', 'grid shaping of the results', 'corner cutting and point evaluators'])
p('C05', 'Gradients, Hessians and higher parametric derivatives',
  'For every valid object the parametric gradient, Hessian, and third- and fourth-order derivatives of the geometry or of any field are the exact partial derivatives of the evaluated rational map, with one trailing axis per differentiation.',
  'all valid objects with 1-3 parametric directions, weights > 0, parameters in the domain (one-sided at reduced-continuity knots), derivative orders 1-4',
  'Tests check a few objects, mostly with unit weights, where the rational correction terms vanish.',
  [N, F], ['tensor products of basis derivatives', 'quotient-rule rationalisation up to order four', 'shaping of derivative arrays'])
p('C06', 'Mapped gradient',
  'The mapped gradient of a field is its gradient with respect to physical coordinates: multiplying it by the Jacobian of the geometry gives the parametric gradient. Mapped derivatives of higher order are rejected with an error. '
  'The mapped gradient of the coordinates themselves is the identity.',
  'all objects with as many parametric directions as physical dimensions and non-singular Jacobian, any fields, all parameters',
  'Tests use the identity mapping or a single geometry.',
  [N, F], ['Jacobian, determinant and inverse in 1-3 dimensions', 'application of the inverse to field derivatives'])
p('C07', 'Knot insertion preserves the object',
  'Inserting a value r times in a direction leaves the geometry, the weight function and all fields unchanged at every parameter, and the new knot vector is the old one with exactly r copies of the value added (clipped so that the multiplicity never exceeds the degree, or rejected), with the control grid growing accordingly.',
  'all valid objects, every direction, every value in the domain (existing knots and domain ends included, clamped or not), every number of times',
  'Tests insert a few values in circles and check a few points.',
  [N, F], ['Boehm/Oslo knot insertion', 'times clipping and argument checks'])
p('C08', 'Knot refinement preserves the object',
  'Refining with any collection of values (unsorted or repeated) in a direction leaves geometry, weight function and fields unchanged, and the new knot vector is the sorted union with multiplicity of the old knots and the values.',
  'all valid objects, directions, and lists of admissible values',
  'Tests refine with a few sorted values.',
  [N, F], ['simultaneous knot refinement'])
p('C09', 'Knot removal is exact or refused',
  'Removing a knot up to r times removes only as many copies as keep the object within the requested deviation, reduces the knot vector by exactly the number of copies removed, and leaves geometry and fields within that deviation of the original; knots that were just inserted can be removed again, giving back the original object, and a knot that cannot be removed leaves the object unchanged.',
  'all valid objects, all interior knots, all numbers of times and deviations',
  'Tests remove knots that were just inserted into one object.',
  [N, F], ['knot removal with tolerance', 'tolerance scaling by weights'])
p('C10', 'Degree elevation preserves the object',
  'Elevating the degree by t in a direction leaves geometry, weight function and fields unchanged, raises the degree by exactly t and the multiplicity of every distinct knot of the domain by t, for clamped and unclamped knot vectors.',
  'all valid objects, directions, and t >= 0',
  'Tests elevate a few clamped curves.',
  [N, F], ['Bezier segment elevation with knot removal'])
p('C11', 'Clamping and unclamping preserve the object',
  'Clamping makes the end knots of the requested sides repeat degree+1 times, unclamping with continuity C extends the knot vector periodically to that continuity, and both leave geometry, weight function and fields unchanged on the domain; clamping undoes unclamping.',
  'all valid objects, directions, sides and continuities 0..degree-1',
  'Tests cover one curve.',
  [N, F], ['end-knot insertion for clamping', 'inverse recurrence for unclamping'])
p('C12', 'Slicing restricts the object',
  'Slicing an object between two parameters gives an object whose domain is exactly that interval, clamped there in that direction, and which agrees with the original in geometry and fields at every parameter of the interval; omitted ends mean the end of the domain.',
  'all valid objects, directions and intervals start < end in the domain (knots, domain ends and omitted ends included)',
  'Tests slice a few times at fixed values.',
  [N], ['insertion to full multiplicity and cutting of control grid and knots'])
p('C13', 'Extraction and boundaries',
  'Extracting at a parameter value gives the object of one dimension less that equals the original with that parameter fixed, in geometry, weight function and fields; the boundary on a side is the extraction at that end of the domain.',
  'all valid objects with 2-3 directions (1: a point), every direction and value in the domain, clamped or not',
  'Tests extract boundaries of clamped primitives.',
  [N], ['insertion and selection of one control slice', 'direct evaluation at the value', 'boundary end selection'])
p('C14', 'Axis permutation, reversal and reparametrisation',
  'Transposing or swapping axes permutes the parameters, reversing a direction maps u to a+b-u on the domain [a,b], and remapping gives exactly the new domain with the affine change of parameter; geometry and fields are otherwise unchanged, and transposing, swapping and reversing twice give back the original object.',
  'all valid objects, all axis permutations (negative axes included), all target intervals',
  'Tests permute a few objects.',
  [N], ['array transposition with knot permutation', 'knot reversal', 'affine knot scaling'])
p('C15', 'Construction and accessors are consistent',
  'An object built from knots, control points (2-4 components), optional weights and fields reports exactly those knots, weights, Cartesian points and field values, with degree = #knots - #points - 1 in each direction; stored control points and fields are in homogeneous form, and rebuilding an object from what it reports gives an equal object. '
  'Copies share no data with the original, clones equal it, and without control points the default ones make the object the identity map of its domain.',
  'all valid knots, control arrays of 2-4 components, weights > 0, scalar or vector fields, lists or arrays',
  'Tests build a few objects with fixed shapes.',
  [N], ['homogenisation of control points and fields in the constructor', 'dehomogenisation in accessors', 'default Greville control points'])
p('C16', 'Operations keep objects valid and touch nothing else',
  'Every operation that modifies an object in place returns that object, leaves it valid (sorted knots, degree at least one, consistent grid, weights and finite values), and leaves every argument, other object, and previously returned array unchanged; operations that build new objects leave their inputs unchanged. '
  'This holds along every sequence of operations.',
  'all valid objects, all operations with admissible arguments, all sequences of operations, evaluation included',
  'Aliasing shows only for particular sequences of operations and arguments which no test enumerates.',
  [N, C], ['copy-before-write in operations', 'knots tuple and array replacement'], ('inputs', 'histories'))
p('C17', 'Inadmissible arguments are rejected and change nothing',
  'Arguments outside an operation\'s admissible range (parameter values or intervals outside the domain, axes that do not exist, negative or excessive counts, unknown sides, wrong shapes) raise an error, and the object is the same after the error as before it; no such call terminates or corrupts the process.',
  'all operations with all classes of inadmissible arguments, on all valid objects',
  'Few of the possible bad arguments are tried, and what state the object is left in is not looked at.',
  [N, C, F, Y], ['argument assertions before modification', 'f2py argument checks', 'order of state updates'])
p('C18', 'Affine transformations',
  'Translations, scalings and rotations (about coordinate axes or any vector) act as the corresponding affine maps, composition and inversion of transformations follow the group laws, and transforming an object maps every evaluated point by the transformation while weights, fields and knots stay the same.',
  'all vectors, angles, axes, factors, compositions of transformations, and all valid objects',
  'Tests apply a few transformations to simple shapes.',
  [T, N], ['4x4 matrices built by translate, scale, rotate (Rodrigues)', 'left composition', 'application to homogeneous control points'])
p('C19', 'Circles and multilinear primitives',
  'Every evaluated point of a circle lies at the given radius from the given centre, in the right plane, sweeping the requested angle exactly and monotonically from start to end; line, linear, bilinear and trilinear primitives interpolate their corner points multilinearly and uniformly.',
  'all radii > 0, centres, sweep angles and start/end pairs up to a full turn, and all corner points',
  'Tests check a few angles and the end points.',
  [C], ['splitting of arcs into quadratic rational segments of at most 90 degrees', 'corner-point ordering'])
p('C20', 'Extrude, revolve, ruled, sweep and Coons constructions',
  'Extrusion gives S(u,w)=X(u)+w d, a ruled object is the linear blend of its two inputs, a sweep is section(u)+trajectory(v)-style addition of the two, revolution rotates every point of the input about the given axis by every angle of the sweep, and a Coons surface interpolates its four boundary curves; geometry, and boundary curves of the result, are exact.',
  'all valid input curves/surfaces (rational, any degrees), displacements, axes, angles; for Coons, four curves meeting in corners with unit weight at the corners',
  'Tests build a few instances with simple inputs.',
  [C], ['outer products of control grids and weights', 'homogeneous rotation of control points', 'bilinearly blended Coons sum'])
p('C21', 'Making objects compatible and joining them',
  'Making objects compatible gives new objects with the same degrees and knots in every requested direction, each equal to its input up to the affine map of its domain onto the common one; joining two objects whose end faces coincide gives one object that runs through the first and then the second, preserving both geometries and parametrisation lengths.',
  'all collections of valid objects of equal dimension; all pairs with matching end faces and all joining directions',
  'Tests join a few clamped curves with unit parameter ranges.',
  [C], ['common bounds, degree elevation, knot union', 'knot shifting and concatenation'])
p('C22', 'Uniform knot vectors and grids',
  'The knot-vector and grid generators give knot vectors with the requested number of equal elements, degree, continuity and end points (clamped, or periodic of the requested continuity when wrapping), and the grid is the identity map on the requested box.',
  'all element counts, degrees, continuities -1 < C < degree, limits, wrap flags, per direction',
  'Tests sample a few combinations.',
  [C, F], ['uniform knot generation with repetition', 'periodic extension'])
p('C23', 'Global refinement of an object',
  'Global refinement with a factor, target degrees and target continuities leaves the object unchanged as a map, reaches the requested degrees, splits every nonempty span into the requested number of equal parts, and gives every new knot (and, where required, old ones) the multiplicity that yields the requested continuity.',
  'all valid objects, factors >= 1, degrees >= current, continuities, as scalars or per direction',
  'Tests refine one or two objects.',
  [C], ['degree elevation, continuity repetition and span subdivision'])
p('C24', 'PetIGA files round-trip',
  'What is written to a PetIGA file is read back as an equal object (knots, control points, weights, fields within the chosen precision) and solution vectors and matrices read back equal what was written, for every scalar type and index size; malformed files are rejected with an error rather than returned as a different object.',
  'all valid objects, with/without geometry and fields, all precisions, scalar types and index sizes; all truncations and header corruptions of a file',
  'Tests round-trip a few objects in default settings.',
  [I], ['big-endian header, knot, geometry and property blocks', 'vector/matrix blocks'], ('inputs', 'fault_sequences'))
p('C25', 'VTK export',
  'The exported VTK file describes a structured grid whose points are the object evaluated at the sampled parameters in VTK order (first direction fastest), with dimensions padded to three, and whose scalar/vector data are the field values at the same points.',
  'all valid objects, samplers, scalar and vector field selections, titles and descriptions',
  'Tests only check that writing succeeds.',
  [I], ['sampling per axis', 'axis reordering and padding', 'big-endian legacy VTK layout'])
p('C26', 'Quadrature rules and basis tables',
  'The Gauss rules integrate every polynomial up to degree 2q-1 exactly on the reference interval, and basis tables at quadrature or collocation points give, per nonempty element, the right offset, Jacobian, weights, points mapped into the element, and basis-function values and derivatives.',
  'all supported rule sizes, degrees, derivative orders and valid knot vectors',
  'No test integrates all monomials of all rules or all knot structures.',
  [F], ['tabulated Gauss nodes and weights', 'affine mapping to elements', 'basis derivative evaluation'])
p('C27', 'Characteristic abscissae of a knot vector',
  'Greville abscissae are the averages of p consecutive knots, breakpoints are the distinct knots of the domain, and Lagrange and Lobatto abscissae are p+1 points on every nonempty span including both its ends (equispaced, resp. Gauss-Lobatto), merged into one increasing list.',
  'all valid objects and axes; Lobatto up to the tabulated degrees',
  'Tests check one or two knot vectors.',
  [N, F], ['Greville averaging', 'per-span node mapping and merging'])
p('C28', 'Numeric kernels are memory-safe and total',
  'On every admissible input the compiled numeric routines terminate, never access an array outside its bounds, never divide by zero, and define every element of every output; the sizes declared for outputs match what is written.',
  'all admissible arguments of every routine of the compiled module',
  'Out-of-bounds reads and undefined outputs often go unnoticed by value comparisons on a few inputs.',
  [F, Y], ['loop bounds, workspace sizes and f2py declared shapes'])
p('C29', 'Plotting shows points of the object',
  'The plotting layer hands the backend exactly control points, knot points, and points evaluated on the object at increasing parameters covering the domain in every drawn direction, with control and knot lines connecting grid neighbours and nothing else; plotting does not modify the object.',
  'all valid objects with 1-3 directions, plot kinds and options',
  'No test inspects what is drawn.',
  [P, N], ['collection of lines and surfaces from control grid and knots', 'resolution and sampling'])
out = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'properties.jsonl')
with open(out, 'w') as f:
    for r in rows:
        f.write(json.dumps(r) + '\n')
