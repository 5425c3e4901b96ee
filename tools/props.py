#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the table below."""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ALLCFG = 'every supported build configuration (no-intrinsics, SSE2, SSE3, SSE4.1, AVX, F16C, FMA3, AVX2, Intel-favouring, const-generic specialization)'
P = []
def prop(id, title, statement, over, text, why, files, mech, observe=(), level_note=''):
    P.append(dict(id=id, title=title, statement=statement, quantifier={'over': over, 'text': text}, why_tests_cant=why,
                  anchors={'files': files, 'mechanism': [{'name': n, 'where': w} for n, w in mech], 'observe_at': list(observe), 'hook_needed': None}, _note=level_note))
IC = ['inputs', 'configurations']
BITS = 'Bit-precise for all 2^32 patterns per word, in every configuration; rests on rustc up to LLVM IR, the symbolic executor (validated against the native code on every run) and z3/cvc5.'
REAL = ('Proved for all finite inputs in ideal real arithmetic (rounding and overflow idealised away), in every configuration; the rounded result of the real code is compared with the contract under a running '
        'error bound on generated inputs as a bounded complement; rests on rustc up to LLVM IR, the symbolic executor (validated against native code every run), the polynomial prover and z3.')

prop('C01', 'Building, reading and rearranging vector components is lossless',
 'Building a vector from components, reading or replacing a component by name or index, splatting, selecting, swizzling, permuting, shifting, rotating, inserting and merging return exactly the bits of the components the documentation names, in the documented positions, and the constant-producing builders return exactly the documented constants. This holds for every 32-bit pattern (NaN payloads, infinities, denormals, signed zeros, integers), every in-range selector and every build configuration.',
 IC, 'every 32-bit pattern in every component, every in-range index/selector, ' + ALLCFG,
 'The tests try one or two hand-picked vectors with the default configuration; they reach none of the 256 swizzles/136 permutes systematically and no NaN or denormal patterns.',
 ['src/vector.rs', 'src/globals.rs', 'src/lib.rs'], [('shuffle immediates and lane indices in each per-configuration body', 'src/vector.rs'), ('global constants', 'src/globals.rs')], ['returned vectors'], BITS)
prop('C02', 'Loads, stores and storage-type conversions move exactly the named data',
 'Loading a storage type into a vector or matrix and storing back copies exactly the named components bit for bit (transposing where the 3x4 layout requires it; the 3x3 load may lose the sign of a zero), fills absent components with the documented 0/1 padding, and writes nothing outside the destination. Conversions between storage types and slices, arrays and references preserve every component in order.',
 IC, 'every 32-bit pattern in every component of every storage type, ' + ALLCFG,
 'Tests exercise few loads/stores with small integers on one configuration.',
 ['src/convert.rs', 'src/lib.rs'], [('per-configuration load/store sequences', 'src/convert.rs'), ('Deref/AsRef/From implementations of the storage types', 'src/lib.rs')], ['returned vectors', 'destination memory'], BITS)
prop('C03', 'Comparisons, masks, comparison records and classification predicates are exact',
 'Every comparison (equal, not-equal, ordered, near-equal, in-bounds; per-component, 2D, 3D, 4D, integer, matrix, quaternion, plane) answers exactly what IEEE-754 comparison of the components it names gives, with all-ones/all-zeros masks per component. Comparison records say all-true, all-false or in-bounds exactly when that is so (for records of ordered 2D/3D/4D comparisons with a NaN operand only that they are not all-true), the record tests decode them accordingly, and NaN, infinity and identity predicates are exact.',
 IC, 'every 32-bit pattern in every component, ' + ALLCFG,
 'Tests sample a handful of ordinary values; NaN, infinity, signed zero and one-component differences are not reached systematically.',
 ['src/vector.rs', 'src/lib.rs', 'src/matrix.rs', 'src/misc.rs'], [('movemask/shuffle reductions per configuration', 'src/vector.rs'), ('record constants', 'src/lib.rs')], ['returned masks, booleans and records'], BITS)
prop('C04', 'Component-wise arithmetic, rounding and bitwise operations are exact',
 'Component-wise add, subtract, multiply, divide, scale, square root, minimum, maximum, absolute value, negate, clamp, saturate, round (half to even), truncate, floor, ceiling and the integer bitwise operations return in each component the correctly rounded IEEE-754 (or bit-exact integer) result of that component alone, up to NaN payload and, for the sign/rounding/clamping operations, the sign of zero. It holds for every operand including infinities, denormals and NaN (for saturate and the scalar min/max: non-NaN) and for clamp whenever the lower bound does not exceed the upper.',
 IC, 'every 32-bit pattern in every component, ' + ALLCFG,
 'Tests check one or two vectors; the rounding operations in particular have magnitude- and sign-dependent paths the tests do not enumerate.',
 ['src/vector.rs', 'src/lib.rs'], [('magic-number rounding for SSE2, intrinsics elsewhere, scalar code without intrinsics', 'src/vector.rs')], ['returned vectors'], BITS)

ACC = ('Rigorous binary32 error enclosure over the stated domain (every float of it, rounding included) or, where a libm function is called, that libm function assumed accurate; slack of the binary64 interval evaluator and libm are trusted.')
prop('C05', 'Integer, float and half-precision conversions are exact and saturate',
 'Converting a vector of integers to floats scales each component by the negative power of two given by the exponent and rounds correctly (unsigned values of 2^31 and above: within one unit in the last place); converting floats to integers scales by the positive power of two, truncates toward zero and saturates at the limits of the integer type. Half-to-float is exact for all 65536 halves, float-to-half rounds to nearest even with gradual underflow and overflow to infinity, and NaN stays NaN.',
 IC, 'every 32-bit pattern (non-NaN for float-to-integer), every exponent 0..31, every half, ' + ALLCFG,
 'Tests convert a handful of small values with one exponent; saturation, negative values, denormals and rounding ties are not enumerated.',
 ['src/convert.rs', 'src/packed_vector.rs', 'src/vector.rs'], [('scaling/saturation sequences per configuration', 'src/convert.rs'), ('half conversion without F16C', 'src/packed_vector.rs')], ['returned vectors and scalars'], BITS)
prop('C06', 'Compound component arithmetic and interpolation compute their documented formulas',
 'Multiply-add, negative-multiply-subtract, reciprocal, reciprocal square root, sum, modulo, angle reduction/addition/subtraction, degree-radian conversion, linear, Hermite, Catmull-Rom and barycentric interpolation compute in every component the documented formula, up to floating-point rounding, for all finite inputs. The estimate variants stay within 2^-11 relative error of the exact value.',
 IC, 'all finite inputs, ' + ALLCFG,
 'Tests evaluate one point per function; a wrong coefficient, lane or weight that vanishes at the tested point stays invisible.',
 ['src/vector.rs', 'src/lib.rs', 'src/misc.rs'], [('basis-polynomial evaluation per configuration', 'src/vector.rs')], ['returned vectors'], REAL)
prop('C07', '2D, 3D and 4D vector geometry is correct',
 'Dot and cross products, (squared, reciprocal) length, normalisation (zero vector maps to zero, a vector of infinite length to QNaN), reflection, refraction (total internal reflection gives zero), length clamping, orthogonal vectors, angles between vectors, line-point distance, 2D line intersection and decomposition along a normal compute the documented geometric quantity from exactly the components of their dimension, up to floating-point rounding, for all finite inputs. The estimate variants stay within 2^-11 relative error.',
 IC, 'all finite inputs (nonzero where a quotient requires it), ' + ALLCFG,
 'Tests sample one or two vectors per function and ignore the components outside the dimension, degenerate inputs and the per-configuration bodies.',
 ['src/vector.rs'], [('horizontal-add/shuffle sequences per configuration', 'src/vector.rs')], ['returned vectors'], REAL)
prop('C14', 'Trigonometric and transcendental functions meet their accuracy over their whole domain',
 'Sine, cosine and their pair and tangent (|x| <= 1000), arc sine/cosine ([-1,1]), arc tangent (all finite floats), base-2 exponential (everywhere it is finite, subnormal results included), hyperbolic sine and cosine (|x| <= 88) and tangent (|x| <= 1000), vector and scalar, are within a fixed small tolerance (about 1e-6 absolute for sine/cosine/arc functions, plus 1.3e-7 times the argument for periodic functions; 1.1e-5 relative for the exponential; for the estimate variants 2e-5 for sine, cosine and arc tangent, 1e-4 for arc sine and arc cosine, 2.6e-3 in the argument for tangent) of the mathematical function for every float of the domain. The two-argument arc tangent picks the right quadrant and exact special values, the exponential saturates to 0 or infinity outside its range and keeps NaN, and the Fresnel term computes its formula clamped to [0,1].',
 IC, 'every float in the stated domain, ' + ALLCFG,
 'Tests compare a few arguments with a loose tolerance; a wrong polynomial coefficient or range reduction on part of the domain is not seen.',
 ['src/vector.rs', 'src/misc.rs', 'src/lib.rs', 'src/globals.rs'], [('minimax polynomials and range reduction', 'src/vector.rs'), ('coefficient tables', 'src/globals.rs')], ['returned vectors and scalars'], ACC)

prop('C08', 'Transforming vectors by matrices and quaternions is correct',
 'Transforming a 2D, 3D or 4D vector by a matrix (as point, coordinate with homogeneous divide, or normal), rotating and inverse-rotating a vector by a quaternion, and projecting/unprojecting through viewport, projection, view and world matrices compute the documented row-vector formula from exactly the components of their dimension, up to floating-point rounding. It holds for all finite vectors, matrices and viewports in every build configuration.',
 IC, 'all finite inputs, ' + ALLCFG,
 'Tests transform one vector by one (mostly sparse) matrix; a swapped row, ignored element or sign on an untested element is not seen.',
 ['src/vector.rs'], [('row accumulation and projection per configuration', 'src/vector.rs'), ('quaternion sandwich product', 'src/vector.rs')], ['returned vectors'], REAL)
prop('C09', 'Matrix algebra is correct',
 'Matrix product (and its transpose), transpose, identity, construction from sixteen elements, tensor product, determinant and inverse (with the determinant it reports) are the mathematical ones for every 4x4 matrix of finite elements, up to floating-point rounding; transposition, construction and identity are bit-exact. It holds in every build configuration.',
 IC, 'all finite matrices (nonzero determinant for the inverse), ' + ALLCFG,
 'Tests multiply and invert one or two matrices; each of the 16 output elements depends on up to 16 inputs through shuffles that differ per configuration.',
 ['src/matrix.rs'], [('shuffle-based product, transpose, determinant and cofactor inverse', 'src/matrix.rs')], ['returned matrices', 'determinant out-parameter'], REAL)
prop('C10', 'Matrix constructors produce the documented matrix',
 'Scaling, translation, rotation (about an axis, a normal, by quaternion or roll-pitch-yaw), (affine) transformation, reflection, shadow, look-at/look-to and all perspective/orthographic projection constructors (left- and right-handed, field-of-view and off-centre) return the matrix their documentation defines, in every element, up to floating-point rounding and the accuracy of sine/cosine. It holds for all finite parameters meeting the documented preconditions, in every build configuration.',
 IC, 'all finite parameters meeting the documented preconditions, ' + ALLCFG,
 'Tests construct few matrices from special parameters (often zero or one), which hide wrong elements, orders of composition and handedness signs.',
 ['src/matrix.rs', 'src/misc.rs'], [('per-configuration element placement', 'src/matrix.rs')], ['returned matrices'], REAL)
prop('C11', 'Decomposing a scale-rotation-translation matrix recovers its parts',
 'For every matrix that is the product of a (possibly negative or zero) scaling, a rotation and a translation, XMMatrixDecompose succeeds and returns a scale with w component zero, a unit quaternion and the exact translation such that scaling and rotation recompose the upper 3x3 part; for positive scales of at least 1e-4 it returns exactly those scales and that rotation up to sign. It holds in every build configuration, up to floating-point rounding.',
 IC, 'every rotation, translation and scale vector (clauses: all positive, one axis reflected, one scale zero, two zero, all zero), ' + ALLCFG,
 'Tests decompose one matrix; the axis-ranking, reflection and degenerate-axis branches are not reached.',
 ['src/matrix.rs', 'src/misc.rs'], [('axis ranking (XM3RANKDECOMPOSE), fallback axes and reflection handling', 'src/matrix.rs'), ('quaternion from rotation matrix', 'src/misc.rs')], ['return value and out-parameters'], REAL)
prop('C12', 'Quaternion algebra and interpolation are correct',
 'Quaternion product, dot, length, normalisation, conjugate, inverse, logarithm, exponential, construction from axis/normal and angle, roll-pitch-yaw or rotation matrix, axis-angle extraction, and slerp, squad (with its setup) and barycentric interpolation compute the documented formula in every component, up to floating-point rounding and trigonometric accuracy; the quaternion of a rotation matrix is the one that generates that matrix, up to sign. It holds for all finite (where required unit) quaternions in every build configuration.',
 IC, 'all finite inputs (unit quaternions/normals where documented), ' + ALLCFG,
 'Tests use one or two quaternions; the sign conventions of each product term, the near-parallel and opposite-hemisphere branches and the four matrix-to-quaternion cases are not enumerated.',
 ['src/misc.rs'], [('quaternion product and interpolation per configuration', 'src/misc.rs')], ['returned quaternions'], REAL)
prop('C13', 'Plane operations are correct',
 'Plane-vector dot products, construction from points or point and normal, normalisation, transformation, near-equality (of the normalised planes), and intersection with a line or another plane compute the documented quantity up to floating-point rounding, for all finite inputs; parallel configurations report NaN and the two points returned for a plane pair lie on both planes. It holds in every build configuration.',
 IC, 'all finite inputs, ' + ALLCFG,
 'Tests use one or two planes with unit axes as normals.',
 ['src/misc.rs'], [('plane arithmetic per configuration', 'src/misc.rs')], ['returned planes, points and booleans'], REAL)
GEO = ('Proved for all finite inputs (unit orientations, non-negative sizes, valid frusta, non-degenerate triangles) in ideal real arithmetic, in every configuration; decisions of the rounded code are compared with the contract '
       'on generated inputs outside a running-error band as a bounded complement. The separating-axis theorem (that the listed axes suffice) is the mathematical justification of the contracts and is not itself machine-checked. '
       'Rests on rustc up to LLVM IR, the symbolic executor (validated against native code every run), the polynomial prover and z3.')
prop('C15', 'Containment tests of bounding volumes are exact',
 'BoundingSphere, BoundingBox, BoundingOrientedBox and BoundingFrustum answer containment queries correctly for every point, triangle, sphere, box, oriented box and frustum: DISJOINT exactly when the argument has no point in common with the volume, CONTAINS exactly when every point (every corner) of the argument lies in the volume, INTERSECTS otherwise; a frustum containing anything but a point decides plane by plane (DISJOINT when the argument is strictly outside one of its six planes, CONTAINS when inside all). Boundaries count as inside. It holds for all finite inputs with unit orientations, non-negative extents and non-degenerate triangles, up to floating-point rounding at the boundary, in every build configuration.',
 IC, 'all finite volumes with unit orientation and non-negative sizes, ' + ALLCFG,
 'The containment functions have almost no tests; whether each axis, face, edge and corner case is decided correctly depends on the relative position, which a handful of examples cannot cover.',
 ['src/collision.rs'], [('Contains* methods of the four bounding volumes', 'src/collision.rs'), ('internal plane/segment helpers', 'src/collision.rs')], ['returned ContainmentType'], GEO)
prop('C16', 'Intersection tests between volumes and triangles are exact',
 'For every pair of bounding volumes (sphere, box, oriented box, frustum) and for volume-triangle and triangle-triangle pairs, the intersection test returns true exactly when the two shapes have a point in common (for coplanar triangles: when they overlap), independently of where and how the shapes are placed and oriented, and both argument orders give the same answer. It holds for all finite inputs with unit orientations, non-negative sizes and non-degenerate triangles, up to floating-point rounding at touching positions, in every build configuration.',
 IC, 'all finite volumes and triangles with unit orientation and non-negative sizes, ' + ALLCFG,
 'Most pairs have no test at all; edge-edge separations, coplanar triangles and rotated frusta appear only for particular relative positions.',
 ['src/collision.rs'], [('Intersects* methods, separating-axis loops', 'src/collision.rs'), ('triangle_tests::IntersectsTriangle', 'src/collision.rs')], ['returned booleans'], GEO)
prop('C17', 'Creating, merging, transforming and enumerating bounding volumes preserves what they bound',
 'Volumes created from points, from other volumes or from a projection, merged volumes and transformed volumes enclose what they are made from and are exactly the documented volume (tight axis-aligned boxes; box of the transformed corners; sphere scaled by the largest axis scale; frustum of a projection matrix with the slopes and near/far planes of that projection); GetCorners and GetPlanes return exactly the eight corners and six unit planes in the documented order. It holds for all finite inputs with unit orientations (and rotation/uniform-scale/translation transforms where the documentation requires it), up to floating-point rounding, in every build configuration.',
 IC, 'all finite volumes, transforms and point sets (any number of points), ' + ALLCFG,
 'Tests build one or two volumes and check a few fields; enclosure has to hold for every point set and transform.',
 ['src/collision.rs'], [('CreateFromPoints/CreateMerged/CreateFrom*/Transform/GetCorners/GetPlanes', 'src/collision.rs')], ['written volumes, corners and planes'], GEO + ' Point sequences of any length below 2^31 by induction over the loops (invariant per loop: base, step and exit obligations), and separately for the lengths 1, 2, 3, 4 and 6 by complete unrolling.')
prop('C18', 'Ray, plane and multi-plane queries are exact',
 'A ray test against a triangle, sphere, box, oriented box or frustum returns true exactly when the ray (from its origin along its direction, origin inside included) meets the shape, and then stores the documented distance along the unit direction: the entry point (for an origin inside: the exit point of a sphere, the entry parameter behind the origin of a box, 0 of a frustum); 0 is stored for misses. A plane test returns FRONT, BACK or INTERSECTING exactly when the volume or triangle lies strictly in front of, strictly behind, or across the plane; ContainedBy six planes returns DISJOINT exactly when the volume is strictly in front of one plane, CONTAINS when it is strictly behind all, INTERSECTS otherwise. It holds for all finite inputs with unit directions, planes and orientations, up to floating-point rounding at the boundary, in every build configuration.',
 IC, 'all finite rays, planes and volumes with unit directions and orientations, ' + ALLCFG,
 'There are few tests for rays and none for most plane tests; parallel rays, origins inside and hits behind the origin need particular inputs.',
 ['src/collision.rs'], [('IntersectsRay/IntersectsPlane/ContainedBy', 'src/collision.rs'), ('triangle_tests', 'src/collision.rs')], ['returned booleans, distances and PlaneIntersectionType/ContainmentType'], GEO)
prop('C19', 'Memory safety, no panics, and only enabled instruction sets',
 'No public function reads or writes outside its arguments and locals, accesses misaligned memory, returns uninitialised data, overflows, panics (given index, exponent and constant arguments in their documented range) or executes an instruction of a set the build did not enable, for any bit pattern of its inputs. For out-of-range index arguments it may panic but never touches memory out of bounds, even with debug assertions off.',
 IC, 'every 32-bit pattern in every input word, ' + ALLCFG,
 'Tests run on a machine that has all instruction sets, with in-range indices and ordinary values, so a stray instruction, out-of-bounds access or value-dependent overflow passes.',
 ['src/vector.rs', 'src/matrix.rs', 'src/misc.rs', 'src/convert.rs', 'src/collision.rs', 'src/packed_vector.rs', 'src/lib.rs'], [('unsafe pointer casts and intrinsics throughout', 'src/vector.rs')], ['process behaviour', 'destination memory'],
 'For every bit pattern, in every configuration, on IR without debug assertions; loops over caller sequences (CreateFromPoints) for any length below 2^31, the empty sequence included. Rests on rustc up to LLVM IR and the symbolic executor.')
prop('C20', 'The operator layer agrees with the functions it wraps',
 'The XMVector and XMMatrix operators (+, -, *, /, negation, their assigning forms, scalar forms on either side, equality, indexing/deref, From/Into) give exactly the component-wise IEEE result (matrix product for matrix times matrix) in every component, and the assigning forms leave exactly that result in the left operand. It holds for every operand in every build configuration.',
 IC, 'every 32-bit pattern in every component, ' + ALLCFG,
 'Tests cover few operators with few values; several impls (e.g. the assigning matrix forms) are not tested at all.',
 ['src/lib.rs'], [('operator trait implementations', 'src/lib.rs')], ['operator results and assigned operands'], BITS)

CLAIM = os.environ.get('CLAIM')
def main():
    with open(os.path.join(HERE, 'properties.jsonl'), 'w') as f:
        for p in sorted(P, key=lambda p: p['id']): f.write(json.dumps({k: v for k, v in p.items() if not k.startswith('_')}) + '\n')
    checks = [dict(property=p['id'], quick_cmd='python3-vt check.py %s' % p['id'], thorough_cmd='VERIF_TIER=thorough python3-vt check.py %s' % p['id'],
                   technique='contract-based deductive verification: function contracts checked against VCs generated from the rustc LLVM IR of the real code (z3/cvc5, ideal-real polynomial prover)',
                   level='proof', level_note=p['_note']) for p in sorted(P, key=lambda p: p['id'])]
    m = dict(version=1, setup_cmd='bash setup.sh', hooks={'guard': 'none', 'enable': 'no hooks are needed: the harness crate uses the public API', 'source_commits': []}, checks=checks, not_applicable=NA,
             notes='Contracts are in specs/, the verifier in xmv/; see DESIGN.md.')
    json.dump(m, open(os.path.join(HERE, 'MANIFEST.json'), 'w'), indent=1)
NA = []
if __name__ == '__main__': main()
