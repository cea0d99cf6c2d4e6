#!/usr/bin/env python3
"""Rewrites the part of DESIGN.md after "## Properties" from properties.jsonl, the texts below, known-findings.txt and seeded/."""
import json, os, glob, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
# per property: how it is decided, against what oracle, within what bounds and assumptions, and why tests do not reach it
D = {
'P01': '''Every `omp parallel` construct of every unit is found (`omp` nodes). Effects are summaries: for each function, the set of
storage it reads and writes in terms of its parameters, its object and globals, with the position written expressed by the parameters it depends on; summaries are composed over the call graph.
In a region each effect is classified: private (declared inside, private/firstprivate/reduction), an element chosen by this iteration's own loop variable through an injective
expression, under `critical`/a lock held on that path, or shared. A shared write that is in none of the classes, and a read of another iteration's element, is the violation.
Assumptions: containers of the standard library have their documented thread-safety; printing of diagnostics is not counted.''',
'P02': '''Abstract interpretation of `ThreadException::capture/run/rethrow` over the finite domain count in {0,1,many} x pointer in {none, original, combined},
plus a protocol rule over its users (constructed before the region, every task inside `run`, `rethrow` after the region on every path). Exhaustive in that domain. Tests cannot force two workers to throw in a chosen order.''',
'P03': '''Every accessor and mutator of the packed word is evaluated in a domain where each of the 32 bits is a constant, an input bit, or a bit of a sum. The bits a getter reads *define* its
field; every mutator must leave the bits of other fields as they were, and round trip its own. No bounds: all bits, all paths.''',
'P04': '''Value-numbering of `approx_float::scalar` and of all array forms; `scalar(a,b)` and `scalar(b,a)` must denote one predicate, the predicate is reflexive and monotone in the tolerance, and the
array forms must be the conjunction over all elements of the scalar one with the same tolerances. "Denote one predicate" is decided by the polynomial normal form and, where forms differ, by evaluation of the two
*value graphs* (not of the program) on a fixed set of exact valuations: equal graphs are never reported, unequal ones are reported only with a valuation that separates them.''',
'P05': '''For every selector the Comparer constructor is evaluated symbolically (the lambda stored for the selector), then the call operators; the result is a truth table over less / approximately equal / greater
which must be that of the named relation; vector, all/any and broadcast forms must be the quantified scalar form, and tolerances must arrive.''',
'P06': '''not decided by these commits. The property quantifies over histories of several arrays that share a raw pointer and a reference count;
syntactic pairings (a `delete` near a `use_count`) would judge how the code is written. A static check that is in reach is an abstract
interpretation over a finite heap (each array empty, sole owner, one of several owners, or borrower; every path of every function which touches
pointer, count or flag; an audit of the heap it leaves). It was drafted, but not validated against refactorings before the time ran out, so
it is not registered. The draft pointed at places which, by reading, do lose storage (not demonstrated by a run, and not repaired): the converting
`operator=` of `Array` and `Array2` (src/array.hpp, src/array2.hpp) builds new storage over the old without releasing it; `resize` of both
(src/array.tpp, src/array2.tpp) allocates before the check of the offset which throws; `laue2m` (src/pointgroup.cpp) returns early without
releasing `norm_squared`. P20 covers one part: every copy, move and assignment takes the reference along with the pointer.''',
'P08': '''Every method that can write elements is summarised on an array whose `_mutable` is false: no path writes storage (the effect rule covers `_data[..]`, pointers derived from it and callees) and the refusal is an exception.
Every array a method returns is read-only exactly if it shares storage with a read-only one. Python buffer read-only flags are decided from the `py::buffer_info`/`py::array` constructions.
Excluded by the statement: the raw pointer accessors `data()` and non-const `val()` hand out the elements unchecked by design.''',
'P09': '''Each kernel instance is reduced to a value graph (loops unrolled at sizes 2..4, callees inlined) and compared with its defining formula, element by element, as in P04. Real and complex instances. Also: no output element left unset,
in-place use where documented. The repair of `LU_decomposition` is not covered by a check (its result is a factorisation with data-dependent pivots: undecided).''',
'P10': '''Every operator overload is summarised over small symbolic shapes (including broadcast, non-contiguous and offset views); each result element must be the written operator on the elements under the same subscript,
operands unmodified, in-place forms equal to the binary ones. Array2::data(i,j) is not instantiable and so undecided.''',
'P13': '''Provenance interpretation of every writer/reader pair: HighFive is modelled as a table of named entries. Members must come back from the entry they were stored in; kinds, names, element types and storing conditions must agree;
counts of numbered entries are read from where they were written; an existing entry is removed first; entries are read by number, not in the order of their names; compound datatypes list exactly the fields of the record.
Custom cost functions (std::function) cannot be stored. `BrillouinZoneNest3` has no HDF form (throws). HighFive is not installed, so no test here can reach any of it.''',
'P14': '''For every enumeration: the switches that name its members, string/number tables, `py::enum_` bindings and HDF5 enumeration types are extracted; a conversion must cover all members, be injective where an inverse exists, and compose with its inverse to the identity. Alias names are allowed in bindings.''',
'P15': '''The bindings are extracted from `wrap/` (modules, classes, overloads, keyword names, defaults); the Python files are parsed and interpreted path by path for each documented argument combination; each use of `_brille` must resolve to a bound name,
each keyword to a parameter, each value to a type the overload takes. Only documented combinations of arguments are enumerated.''',
'P16': '''Effect analysis over the call graph: no result may depend on clocks, random numbers, addresses, environment, unordered-container order or state kept from an earlier call (function statics, globals, mutable members).
The number of threads and the order of floating-point reductions are outside this rule.''',
'P17': '''Interval analysis of `u2s`/`s2u` for every ordered pair of integer types: on every path that returns, the value returned equals the argument for the whole interval reaching that path; on others an exception is thrown.''',
'P18': '''Summaries of sub2lin/lin2sub/SubIt/broadcast iterators over symbolic extents up to 3 dimensions; the iterators are stepped symbolically over all small shapes, each subscript exactly once and in order, including held axes and zero extents; `lin2sub(sub2lin(x)) = x` structurally.
The linear accessor of a non-contiguous view is taken to address storage (as its documentation implies).''',
'P19': '''Definite assignment, path-sensitive in the conditions it can correlate, over every constructor (every scalar member), every local scalar and every `new T[]`.
A loop that fills an array is taken to run, an array is one unit, and a call that takes a non-const pointer is taken to fill it. Undecided: locals of a few functions with too many paths (smp, lapjv, wedge_brute_force) and 16 allocations in tetgen glue.''',
'P20': '''Every user-provided copy/move/converting constructor and assignment: each member of the source reaches the same member of the target by value (or shared storage where the class shares), nothing reads the target, lambdas that captured `this` may not be copied, moved-from objects are not used.
Callees are summarised modularly.''',
'P21': '''Each `operator==`/`!=`: uses every member that other members functions of the class can observe (exemptions are listed in `an/p21.py` with a reason), is symmetric under exchanging the operands (value graph), and `!=` is the negation of `==`. The inequality of `Faces` is undecided.''',
'P22': '''Every comparator passed to a sorting routine, ordered container or equal_range: summarised to a boolean function of key comparisons, and decided to be a strict weak order over all arrangements of the keys of three generic elements. Functions of an element used as keys are assumed pure.''',
'P23': '''Each function is sliced with respect to results in differently configured builds (all diagnostic macros off against on; NDEBUG): what remains must be structurally equal, hence no macro argument or assertion has an effect on data. quick: one all-on configuration; thorough: five. Exceptions thrown while a message is built are not considered.''',
'P24': '''Effect analysis: every write to the terminal must be under the printer's emission condition; the switches must implement on/off per kind (summaries over all states); macros in all eight configurations. `logger.hpp` is unused; functions documented to print are listed.''',
'P25': '''Containers are families (for every binder such that guards: key -> value); each method body is interpreted for a generic element on every path; the resulting update must conserve: every index in exactly one class, counts = numbers stored, knit renumbering is a bijection onto the appended range. Pristine vertices are assumed pairwise different.''',
'P28': '''Loop bodies interpreted once for a generic element; Munkres steps give decision tables over {mark, row cover, column cover, zero} on 2x2 and 3x3 index ranges which must be those of the method; lapjv keeps the two assignment lists mutually inverse at each write. Optimality (N01) and termination are not decided; the AVX variant is not compiled.''',
'P26': '''`moveinto`, `ir_moveinto` and `ir_moveinto_wedge` are interpreted path by path over linear combinations of the values of the
arrays involved (a generator is an input row, a rounded value, or a linear map applied to another generator; a coefficient is a rational times
a monomial of scalars). Arrays are handles to storage, so a copy or a view shares what it refers to and an assignment through it is seen by
both. A branch on an unknown condition is taken both ways; a loop is entered in a generic state and must give back every sum of two arrays it
was given, so any number of passes is covered. Rules: *conserve*: on every path on which `moveinto` returns, moved point plus shift is the
point given and the input storage is unchanged and not shared; *rotate*: with R the operation reported by `ir_moveinto`, `Rᵀq + τ = Q`, and the
second list holds the inverse of the first; *wedge*: `Rᵀq = Q` after `ir_moveinto_wedge`, whichever operation is chosen; every point is treated;
*cell*: the changes to and from the primitive cell use mutually inverse matrices for every kind of lattice, in the serial and in the parallel
versions, and both point and shift go through the same one; *results*: Python receives the moved point first and the shift second. Instances are
found by role (what is called from the bound methods), so a helper extracted or a loop rewritten is followed. Whether the point does end inside
the zone, and rounding of the sums, are not covered (N03, N04). Cost: 10 s to 50 s. No finding on the current tree.''', 'P27': '''Each rotation routine (rip_real, rip_recip, rip_axial, rip_gamma_complex, for double and complex data) is reduced by the interpreter in an/summ.py to its
writes: the written cell in closed form over the loop counters, the counters' ranges, the path condition, and the value as a polynomial of the entries of the operations and of the cells before
the loop. Compared with the law of the kind: vectors v -> Mv, tensors T -> M T M^-1 (transpose for reciprocal, determinant for axial, phase factors and permuted atoms for phonon-like), for the *same*
operation index of the same point; the layout rule requires the cells of scalars, vectors and tensors of all modes to be exactly tiled (offsets, strides, counts); the skip rule that nothing is left out
except when there is nothing to rotate; dispatch folds rotate_in_place over the whole product of both enums; cartesian requires basis * R * basis^-1 of the direct lattice; index requires the point and the two lists found when
moving the point to be the ones handed to the rotation. Not covered: whether the operation found is the right one (P26), numerical round-off. Cost: 30-50 s. It found two defects
which were repaired (real data moved by the inverse, tensor count of Gamma data) and one recorded as a known finding.''', 'P12': '''The rows of ALL_SPACEGROUPS and pointgroup_data are read from their initialisers (constructor arguments followed into the members they initialise). An
independent decoder of the Hall notation (an/hall.py, written from the published rules) turns each Hall symbol into a group modulo the lattice, in exact integers. Decided for every
entry: the symbol is well formed and its generators close without creating translations beyond its centring; centring letter; number, Schoenflies name and point group; the counts of
rotations by kind against the point-group table; every screw axis, rotation, mirror and glide of the full Hermann-Mauguin symbol is an element of the group along the direction its
place names (with the sense of the screw, so 4_1 and 4_3 differ); the short symbol names a glide or screw exactly when the group has no common point; origin choice 1 or 2 against the
place of the inversion; unique axis; and every permuted setting is exactly the reference setting with its axes renamed, rhombohedral axes exactly the hexagonal ones transformed. Entries
of one number have equal setting-independent invariants. For the code, the closed value graphs of SeitzSymbol (matrices, translations, implicit axes), get_generators' centring
translations, PrimitiveTransform (inverse, determinant, columns are lattice vectors, transposes), isometry and order of every operation, the Bravais letters, the look-ups by number and
by each symbol of each entry, and the members copied from an entry are folded over their whole finite domains and compared with the same reference. Not covered: the character parser
HallSymbol::from_ascii and the search for a transformation matrix in pointgroup.cpp. Random single-character edits of the table (900 tried) are reported except those which denote the
same group. Cost: 10 s. It found five defects, all repaired (see known-findings.txt).''', 'P07': '''Entry points which promise a check are listed with the position they take, the extent it is checked against (obtained by interpreting the accessor
`size()`, `size(0)`, `number_of_vertices()` ... so the name of a private field does not matter) and what a refusal looks like (exception or assert,
`false`, null pointer, zero matrix, identity, the position itself). Each is interpreted abstractly with the position `k` and every extent as symbols;
integers are affine terms in them. Six regions are studied (the only element, last, first of several, middle, one past the end, far past the end;
a seventh, negative, for signed positions); what a region does not decide is followed both ways. Callees, lambdas, `any_of`/`all_of` over
index lists are entered. Rules: past the end every path ends in the refusal, with no element reached at that position and nothing of the object
changed before; inside, some path succeeds and none refuses by comparing with another extent; every element reached at the position lies within
the extent of the very container indexed (class invariants that tie two extents, e.g. `types_` to `positions_`, are listed in `LINKS`). Ranges
(`view(first,end)`) have six regions of two positions. An unknown refusal value is never an alarm. A guard whose loss is made good by a callee
that refuses itself (e.g. `extract` calls `view`) is not a violation, and is not reported. Positions of parallel loops, linear subscripts and
`operator[]` make no promise and are not covered. The tests try two or three positions of some of these functions.''', 'P11': '''not applicable: the formulas mix lengths held in one numeric type with index coordinates, angles with the
tolerance of a comparison, and factors of 2π which have no dimension; a unit system inferred from names and comments would be this author's guess
rather than something the code states, and the cyclic rule does not hold for members written for a convention (a along x, b in the xy plane).''',
}
if os.path.exists(V + '/tool/design_more.py'):
    exec(open(V + '/tool/design_more.py').read())
man = json.load(open(V + '/MANIFEST.json'))
claimed = {c['property'] for c in man['checks']}
na = {x['property']: x['reason'] for x in man['not_applicable']}
kf = open(V + '/known-findings.txt').read().splitlines()
seeds = {}
for m in sorted(glob.glob(V + '/seeded/*/meta.json')):
    d = json.load(open(m))
    d['caught'] = d.get('caught', True)
    seeds.setdefault(d['property'], []).append((os.path.basename(os.path.dirname(m)), d))
out = []
for l in open(V + '/properties.jsonl'):
    p = json.loads(l)
    i = p['id']
    out.append('### %s %s\n' % (i, p['title']))
    if i not in claimed:
        out.append('Not decided: %s.\n' % na[i].rstrip('.'))
        continue
    ev = V + '/evidence/%s.json' % i
    out.append(D[i].strip() + '\n')
    for k in kf:
        m = re.match(r'^finding: property=%s key=(.*?) :: (.*)$' % i, k)
        if m:
            out.append('- known finding `%s`: %s' % m.groups())
        m = re.match(r'^fixed: property=%s (\w+) (.*)$' % i, k)
        if m:
            out.append('- repaired in %s: %s' % m.groups())
    for n, d in seeds.get(i, []):
        out.append('- planted `%s` (%s): %s' % (n, d['needs'], 'caught by %s' % i if d['caught'] else 'MISSED'))
    out.append('')
s = open(V + '/DESIGN.md').read()
k = s.index('## Properties')
open(V + '/DESIGN.md', 'w').write(s[:k] + '## Properties\n\n' + '\n'.join(out) + '\n')
