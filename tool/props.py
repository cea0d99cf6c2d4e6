#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the one place the property texts are kept)."""
import json, os
H = 'src/'
P = []


def p(id, title, statement, over, text, why, files, mech, observe=None, state=None):
    a = {'files': files, 'mechanism': [{'name': n, 'where': w} for n, w in mech]}
    if state: a['state'] = [{'name': x, 'meaning': x, 'where': files[0]} for x in state]
    if observe: a['observe_at'] = observe
    P.append({'id': id, 'title': title, 'statement': statement, 'quantifier': {'over': over, 'text': text}, 'why_tests_cant': why, 'anchors': a})


p('P01', 'Parallel regions never let two threads conflict on shared data',
  'Inside every parallel region, a thread modifies only storage of its own, the elements belonging to its own loop iteration, declared reduction variables, or data guarded by a critical section or lock, and it reads no shared element that another iteration may be writing. Results therefore do not depend on the number of threads or on how they are scheduled.',
  ['schedules'], 'every thread count, every assignment of iterations to threads, every interleaving',
  'a data race shows only under particular interleavings and optimisation levels, and the tests run with few threads and tiny inputs',
  ['src/utilities.tpp', 'src/vertex_map_knit.h', 'src/transform.hpp', 'src/bz_move.cpp', 'src/interpolator_real.tpp', 'src/trellis.tpp', 'src/trellis_poly_l.hpp', 'src/triangulation_layers.hpp', 'src/nest.hpp', 'src/mesh.hpp'],
  [('OpenMP parallel loops with default(none)/shared/reduction/critical clauses', 'every "#pragma omp" in src'), ('per-pair mutex', 'src/interpolatordual.hpp')])
p('P02', 'An exception thrown by a worker reaches the calling thread',
  'If a task run through the parallel exception guard throws anything, the exception does not escape the parallel region but is kept, and an exception is thrown to the caller once the region has ended: the original one if there was one, an error combining the messages if there were several; when no task threw, nothing is thrown. Storing an exception is mutually exclusive between threads, and every user of the guard asks for the rethrow after its parallel region.',
  ['schedules', 'fault_sequences'], 'every thread count and every set of tasks that throw, whatever the thrown type',
  'tests never make a worker throw, and an exception escaping a parallel region terminates the process',
  ['src/thread_exception.h', 'src/trellis_poly.hpp', 'src/trellis_poly_l.hpp'],
  [('ThreadException::run/CaptureException/rethrow', 'src/thread_exception.h')])
p('P03', 'The packed fields of a sorting state are independent',
  'The sorted flag, the locked flag and the visit count kept in a sorting state behave as three separate variables: after any sequence of updates each one reads back as the value last given to it, and updating one never changes what the others read. Counting a visit raises the visit count by exactly one.',
  ['histories'], 'every sequence of updates and every representable count',
  'the fields share the bits of one integer; corruption needs particular bit patterns such as a count of which the low bits overlap',
  ['src/sorting_status.hpp'], [('bit masks and shifts', 'src/sorting_status.hpp')], state=['status word'])
p('P04', 'Approximate equality is symmetric and agrees between scalars and arrays',
  'Whether two numbers are approximately equal does not depend on the order in which they are given, two identical finite numbers are always approximately equal, and a larger tolerance never turns equality into inequality. Two arrays, vectors or matrices are approximately equal exactly when all corresponding elements are, with the same tolerances.',
  ['inputs'], 'every pair of values, sizes and tolerance settings, including mixed integer and floating point types',
  'the predicate has several branches by type, magnitude and tolerance; tests sample a few values of each',
  ['src/approx_float.hpp', 'src/approx_config.hpp'],
  [('_scalar/_array and the scalar/vector/matrix/array front ends', 'src/approx_float.hpp')])
p('P05', 'Each comparison selector means the relation it names',
  'For two numbers exactly one of "less", "approximately equal" and "greater" holds, and every comparison selector (lt, gt, le, ge, eq, neq, and their combined forms) answers according to that trichotomy with the tolerances it was given. Comparing vectors or whole arrays uses the same answers element by element.',
  ['inputs'], 'every comparison kind, value pair and tolerance',
  'there are nine selectors times several comparer shapes; tests use a handful',
  ['src/comparisons.hpp', 'src/comparisons.cpp', 'src/array2.tpp', 'src/array.tpp'],
  [('Comparer', 'src/comparisons.hpp'), ('Array::is/all/any/count', 'src/array.tpp')])
p('P06', 'Array storage is freed exactly once and only after its last user',
  'Storage allocated for an array is owned by a reference count that every view, copy and result sharing the same elements also holds, so elements stay valid as long as any array refers to them. Storage is released once, with the matching form of delete, when the last holder goes away, and a change of storage never drops it without releasing it.',
  ['histories'], 'every sequence of constructing, viewing, copying, assigning, resizing and destroying arrays',
  'leaks and dangling views depend on the lifetimes a caller chooses; tests keep parents alive and never count frees',
  ['src/array.hpp', 'src/array.tpp', 'src/array2.hpp', 'src/array2.tpp', 'wrap/_array.hpp', 'wrap/_c_to_python.hpp'],
  [('_ref shared_ptr carried beside _data', 'src/array.hpp, src/array2.hpp')], state=['data pointer', 'reference'])
p('P07', 'Out-of-range positions are refused before storage is touched',
  'Wherever the library promises to check a caller-supplied index, subscript or range, the check precedes the access it protects, compares with the extent of the very thing that is indexed, and excludes the one-past-the-end value. A refused position leaves the object unchanged and is reported by an exception or by the documented failure value.',
  ['inputs'], 'every index value, including extent and extent plus one',
  'an off-by-one bound or a check after the access reads a neighbour element and goes unnoticed in a test',
  ['src/array.tpp', 'src/array2.tpp', 'src/symmetry.cpp', 'src/pointsymmetry.cpp', 'src/basis.hpp', 'src/phonon.hpp', 'src/subscript.hpp', 'src/vertex_map_set.h', 'src/vertex_index_map.h', 'src/hall_symbol.cpp'],
  [('guards before indexed access', 'listed files')])
p('P08', 'Read-only arrays are never modified',
  'An array that was created or received as read-only refuses every in-place operation before changing any element; operations needing to write work on their own copy. Arrays made by copying or computing are writable.',
  ['histories'], 'every in-place operation and every route by which an array can become read-only',
  'read-only arrays come from Python buffers; the C++ tests never create one',
  ['src/array.hpp', 'src/array.tpp', 'src/array2.hpp', 'src/array2.tpp', 'wrap/_c_to_python.hpp'],
  [('_mutable flag', 'src/array.hpp, src/array2.hpp')], state=['mutable flag'])
p('P09', 'Linear-algebra kernels compute their defining sums',
  'For matrices and vectors of every size and element type the kernels for products, transpose, trace, determinant, cofactors, inverse, dot, cross and Hermitian products, norms, and complex conjugation return exactly the textbook expression of their arguments: each output element is the defining sum of products, with the Hermitian forms conjugating exactly one argument, and only the declared outputs are written.',
  ['inputs'], 'every size and every matrix or vector',
  'tests multiply a few matrices, often symmetric or unit ones on which index mistakes do not show',
  ['src/utilities.tpp', 'src/utilities.hpp', 'src/linear_algebra.hpp', 'src/array_functions.hpp', 'src/math.hpp'],
  [('utility kernels', 'src/utilities.tpp'), ('fixed-size linear algebra', 'src/linear_algebra.hpp')])
p('P10', 'Array arithmetic applies the written operator to the written operands',
  'Adding, subtracting, multiplying or dividing arrays, in place or not, with another array or a scalar on either side, gives in each element the corresponding scalar operation of the elements in the written order, for every shape that broadcasts. The unary minus negates, and in-place forms change only the left operand.',
  ['inputs'], 'every operator, operand kind, shape and value',
  'the operators exist in several near-identical copies per array class and tests exercise a few with commuting values',
  ['src/array.hpp', 'src/array.tpp', 'src/array2.hpp', 'src/array2.tpp', 'src/array_lvec.hpp', 'src/array_functions.hpp'],
  [('operator templates', 'src/array.hpp, src/array2.hpp, src/array_lvec.hpp')])
p('P11', 'Lattice formulas are dimensionally consistent and treat the axes alike',
  'Every length, area, volume, angle, metric and reciprocal quantity computed for a lattice has the physical dimension of its meaning, and relabelling the axes a, b, c cyclically (together with alpha, beta, gamma) relabels the result in the same way. Real and reciprocal quantities are kept apart by the same rules in both directions.',
  ['inputs'], 'every lattice', 'tests use high-symmetry lattices on which a wrong axis, angle or power gives the right number',
  ['src/lattice_dual.hpp', 'src/lattice_dual.cpp', 'src/array_lvec_functions.tpp', 'src/transform.hpp'],
  [('Lattice methods', 'src/lattice_dual.hpp')])
p('P12', 'The crystallographic tables are complete and mutually consistent',
  'Every entry of the space-group, point-group, centring and rotation tables agrees with the others: each group number, international and Hall symbol describe the same point group, centring and setting, rotation matrices have the order and axis of their symbol and integer determinant of one, and primitive-cell transforms are inverse to each other with the right number of lattice points. Looking up any entry by number or by symbol gives the same entry.',
  ['inputs'], 'every row of every table', 'there are 530 space-group settings; tests visit a few and nothing rechecks a mistyped entry',
  ['src/spg_database.cpp', 'src/pointgroup.cpp', 'src/primitive.hpp', 'src/hall_symbol.cpp', 'src/bravais.cpp', 'src/symmetry.cpp'],
  [('ALL_SPACEGROUPS', 'src/spg_database.cpp'), ('POINTGROUPS', 'src/pointgroup.cpp'), ('PrimitiveTransform', 'src/primitive.hpp')])
p('P13', 'Everything written to a file is read back into the same place',
  'For every class that can be saved, each entry the writer stores is read by the reader under the same name and in the same kind of container, ends up in the member it came from, and no member that determines later results is left out.',
  ['inputs'], 'every saveable class and every object of it',
  'a file test compares one object whose dropped members have default values',
  ['src/hdf_interface.hpp', 'src/bz.hpp', 'src/lattice_dual.hpp', 'src/trellis.hpp', 'src/trellis_poly.hpp', 'src/nest.hpp', 'src/mesh.hpp', 'src/interpolator.hpp', 'src/interpolatordual.hpp', 'src/polyhedron_flex.hpp', 'src/permutation_table.hpp', 'src/basis.hpp', 'src/motion.hpp', 'src/approx_config.hpp'],
  [('to_hdf/from_hdf pairs', 'listed files')])
p('P14', 'Enumeration conversions are total and invertible',
  'Every value of every enumeration that can be named, printed, stored or exported has its own distinct name or code, the conversion from that name or code gives the value back, and each exported enumeration offers all its values under their own names. Decisions made by enumeration value handle every value or fall into an explicit error or default.',
  ['inputs'], 'every enumerator', 'a swapped or missing enumerator affects only the data that carries it',
  ['src/enums.hpp', 'src/bravais.hpp', 'src/bravais.cpp', 'src/comparisons.cpp', 'src/types.hpp', 'src/hdf_interface.hpp', 'wrap/_enums.cpp', 'wrap/_bravais.cpp', 'wrap/_interpolator.hpp'],
  [('switches and tables over enumerators', 'listed files')])
p('P15', 'The Python layer uses only names and keywords the compiled module has',
  'Every attribute, class and keyword argument that the Python modules take from the compiled module exists there, every public name they announce is defined, and the grid classes they choose among accept the arguments passed to them. The grid class chosen matches the requested kind of grid and the requested real or complex types.',
  ['inputs', 'configurations'], 'every call path of the Python layer', 'Python resolves names only when a line runs, and the compiled module is not importable in the unit tests',
  ['brille/__init__.py', 'brille/bound.py', 'brille/utils.py', 'brille/lattice.py', 'brille/plotting.py', 'brille/vis.py', 'wrap/_brille.cpp'],
  [('import of _brille and keyword calls', 'brille/*.py'), ('module definition', 'wrap/*.cpp')])
p('P16', 'Results depend on the arguments only',
  'No computation consults a clock, a random source, the environment, an address, the order of an unordered container, or mutable process-wide state other than the documented logging switches and approximation defaults. Equal inputs therefore give equal results in every run and in every order of calls.',
  ['histories', 'configurations'], 'every call history in a process and every process',
  'one test process runs each call once', ['src', 'wrap'], [('absence of ambient inputs', 'all functions in src and wrap')])
p('P17', 'Integer conversions that are meant to be checked never change a value',
  'The checked conversions between signed and unsigned integers return a number equal to their argument, or raise an overflow error when the target type cannot represent it; they never wrap around or truncate, whatever the two types are.',
  ['inputs'], 'every pair of integer types and every value', 'only values beyond the range of the target show the failure, and they are far from test sizes',
  ['src/utilities.hpp', 'src/utilities.tpp'], [('s2u, u2s', 'src/utilities.hpp')])
p('P18', 'Subscripts and linear positions correspond one to one',
  'Converting a subscript to a linear position and back, or the reverse, gives the start value for every shape, the order of storage is the same in both directions, and iterating over a shape visits every position exactly once in that order. The same stride rule is used wherever an element is addressed.',
  ['inputs'], 'every number of dimensions, shape and stride', 'tests use a few shapes, often with equal extents where swapped axes do not show',
  ['src/subscript.hpp', 'src/array.tpp', 'src/array2.tpp', 'src/array_attributes.hpp'],
  [('sub2lin, lin2sub, SubIt', 'src/subscript.hpp')])
p('P19', 'Objects never expose uninitialised members',
  'After any constructor has finished, every number, flag, pointer and enumeration stored in the object has been given a value, and no function returns or uses a local variable on a path on which it was not assigned.',
  ['inputs', 'histories'], 'every constructor and every path', 'an unset member usually holds a harmless zero in a fresh test process',
  ['src', 'wrap'], [('constructors and member initialisers', 'every class in src')])
p('P20', 'Copies, moves and conversions carry over every part of an object',
  'Every hand-written copy constructor, move constructor, assignment and converting constructor transfers each data member from the corresponding member of its source (or deliberately rebuilds it), so the copy behaves as the original; an object that was moved from is not used again.',
  ['histories'], 'every class with a hand-written copy or move', 'a forgotten member keeps its default, which is what most tests use anyway',
  ['src', 'wrap'], [('user-provided special members', 'every class in src')])
p('P21', 'Equality considers every part that distinguishes two objects',
  'Every equality operator compares each defining data member of one object with the same member of the other, is unaffected by exchanging the operands, and the corresponding inequality is its exact negation.',
  ['inputs'], 'every class with equality operators', 'tests compare equal objects, or objects that differ in many members at once',
  ['src/lattice_dual.hpp', 'src/motion.hpp', 'src/symmetry.cpp', 'src/basis.hpp', 'src/array2.hpp', 'src/polyhedron_flex.hpp', 'src/bz.hpp', 'src/interpolatordual.hpp', 'src/permutation_table.hpp', 'src/rotates.hpp'],
  [('operator==/operator!=', 'listed files')])
p('P22', 'Orderings given to sorting routines are strict',
  'Every ordering passed to a sorting or ordered-container routine says "not less" when an element is compared with an equal one, and depends on its two arguments in the same way, so that sorting is well defined for every input including ties.',
  ['inputs'], 'every input, ties included', 'a non-strict ordering crashes or loses elements only for particular tie patterns',
  ['src', 'wrap'], [('comparison functions and lambdas given to sort, max_element, set, map', 'all files')])
p('P23', 'Diagnostics never change results',
  'The expressions handed to the diagnostic, timing and verbosity statements have no side effect on program state, so a program behaves the same whether it is built with diagnostics and assertions on or off and whether output is silenced or not. Diagnostic statements also do not hide statements the computation needs.',
  ['configurations'], 'every build configuration of the diagnostics and every run-time verbosity setting', 'the tests are run in one configuration only',
  ['src', 'wrap'], [('info_update, verbose_update, debug_update, profile_update macros', 'src/debug.hpp, src/logger.hpp')])
p('P24', 'Nothing is printed while output is silenced',
  'Library code writes diagnostics only through the status printer (brille::printer), and that emits nothing while it is silenced (brille.emit(False)); a message whose level is not compiled in is not written, one whose level is compiled in is written in full when its condition holds, and turning the switch on again restores output. Functions that are documented to print, or to print when their verbosity argument is true, are the only other writers to the terminal.',
  ['histories', 'configurations'], 'every sequence of switch settings and every message', 'tests do not look at the terminal',
  ['src/debug.hpp', 'src/debug.cpp', 'wrap/_debug.cpp'], [('DebugPrinter', 'src/debug.hpp')], state=['silenced flag', 'build switches'])
p('P25', 'Vertex bookkeeping never loses or duplicates an index',
  'Adding a vertex to a vertex set or map returns the index under which the same vertex is found from then on, indices are handed out consecutively, and knitting several partial maps into one sends every vertex of every part to the index of an equal vertex in the result.',
  ['histories', 'inputs'], 'every sequence of additions and every set of parts', 'collisions need two parts holding approximately equal vertices in different order',
  ['src/vertex_map_set.h', 'src/vertex_map_knit.h', 'src/vertex_index_map.h', 'src/vertex_map_set.cpp'],
  [('MapVertexSet, knit', 'src/vertex_map_set.h, src/vertex_map_knit.h')])
p('P26', 'Shifting a point by lattice vectors keeps point plus shift constant',
  'Whenever a wave vector is moved into the first zone, what is subtracted from the point is added to the reported lattice shift and nothing else, so that the input always equals the moved point plus the shift; both are carried through the same change of cell.',
  ['inputs'], 'every wave vector, lattice and number of steps', 'only points needing several shifts show a missed or doubled one',
  ['src/bz_move.cpp', 'src/transform.hpp'], [('part_moveinto_prim, BrillouinZone::moveinto', 'src/bz_move.cpp')])
p('P27', 'Rotated data transform by their declared kind',
  'Data declared real-space, reciprocal, axial or phonon-like are rotated by the operation belonging to that kind: vectors by the matrix, tensors by the matrix on both sides, axial quantities with the determinant, and all four variants step through scalars, vectors and matrices of each mode with the same layout. Every kind is dispatched to its own variant.',
  ['inputs'], 'every kind, element layout, mode count and operation', 'each kind has its own copy of the loops, and tests rotate by the identity or by operations equal to their inverse',
  ['src/interpolator.hpp', 'src/interpolator_real.tpp', 'src/interpolator_recip.tpp', 'src/interpolator_axial.tpp', 'src/interpolator_gamma.tpp'],
  [('rip_real, rip_recip, rip_axial, rip_gamma', 'src/interpolator_*.tpp')])
p('P28', 'Row and column assignments always describe one matching',
  'Whenever an assignment solver records that a row is matched with a column it also records the inverse relation or clears the previous one, so that at return the two lists are inverse permutations. Every search in the solver only uses candidates inside the cost matrix. In the Munkres solver stars and primes are only put on uncovered zeros, marks are exchanged along alternating paths only, and costs change only by the amounts the method prescribes for covered and uncovered rows and columns.',
  ['inputs'], 'every cost matrix and size', 'mismatched bookkeeping appears only on augmenting paths of particular cost patterns',
  ['src/lapjv.hpp', 'src/munkres.hpp'], [('lapjv, Munkres', 'src/lapjv.hpp, src/munkres.hpp')])
N = [
 ('N01', 'Assignments found by the solvers have minimal total cost', 'The permutation returned for a cost matrix has the lowest possible total cost.', ['inputs'], ['src/lapjv.hpp', 'src/munkres.hpp'], 'tests compare a few matrices'),
 ('N02', 'Interpolation reproduces linear data inside a cell', 'At every point of a cell the interpolated value is the barycentric combination of the corner values and equals the stored value at a corner.', ['inputs'], ['src/trellis_poly.hpp', 'src/nest.hpp', 'src/mesh.hpp'], 'tests sample points'),
 ('N03', 'The first Brillouin zone is the set of points closest to the origin', 'The polyhedron built for a lattice contains exactly the points no farther from the origin than from every other reciprocal lattice point.', ['inputs'], ['src/bz.hpp', 'src/bz_wedge.cpp'], 'tests try a few lattices'),
 ('N04', 'The irreducible wedge times the point group tiles the zone', 'Every point of the zone is the image of a point of the irreducible wedge, and the wedge volume is the zone volume over the group order.', ['inputs'], ['src/bz_wedge.cpp'], 'tests try a few groups'),
 ('N05', 'Generated symmetry groups are closed', 'Generating from any set of operations returns a finite set closed under composition and inverse.', ['inputs'], ['src/symmetry.cpp', 'src/pointsymmetry.cpp'], 'tests use a few groups'),
 ('N06', 'Polyhedra stay convex, closed and of positive volume under cutting', 'Cutting a polyhedron by planes gives a closed polyhedron with outward faces, the volume of which is that of the intersection.', ['inputs'], ['src/polyhedron.hpp', 'src/polyhedron_faces.cpp'], 'tests cut a few shapes'),
 ('N07', 'Every point of the gridded volume is found in some cell', 'For every point inside the zone a cell containing it is located, and the weights returned are non-negative and sum to one.', ['inputs'], ['src/trellis_poly.hpp', 'src/nest.hpp', 'src/triangulation_layers.hpp'], 'tests use random points'),
 ('N08', 'Mode sorting connects physically equivalent modes', 'The permutation chosen between neighbouring grid points minimises the difference of their modes.', ['inputs'], ['src/interpolatordual.hpp', 'src/phonon.hpp'], 'tests use tiny data'),
]
for id, t, s, over, files, why in N:
    p(id, t, s, over, 'every input', why, files, [(t, files[0])])
out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'properties.jsonl')
with open(out, 'w') as f:
    for x in P:
        assert len(x['title']) <= 80, x['title']
        f.write(json.dumps(x) + '\n')
