#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from properties.jsonl, the checks present in an/, and the texts below."""
import json, os, subprocess
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = {
 'P01': ('effect analysis of OpenMP regions (write/read sets against clauses, iteration cells, critical sections and locks) over the resolved AST', 'every parallel region found; regions whose callee effects cannot be resolved are counted undecided'),
 'P02': ('finite-state abstract interpretation of the exception guard plus a protocol (typestate) check of its users', 'exhaustive over the abstract states count in {0,1,many} x pointer in {none, original, combined}'),
 'P03': ('bit-provenance dataflow over every accessor and mutator of the packed word', 'all 32 bits, all paths; loops do not occur'),
 'P04': ('value-numbering summaries compared under operand exchange; call-structure rules for the array forms', 'every instantiation in the drivers'),
 'P05': ('truth-table evaluation of the comparer summaries over the finite orderings less/approximately equal/greater, and tolerance dataflow', 'every selector and comparer form'),
 'P06': ('ownership dataflow: allocation/deletion pairing and the rule that the data pointer travels with its reference', 'every function touching the two members'),
 'P12': ('table extraction from the initialisers, judged by an independent decoder of the Hall and Hermann-Mauguin notations with group closure; closed value graphs of the decoding and look-up functions folded over their finite domains', 'all 530 settings, 32 point groups, centrings, Seitz matrices and translations, look-ups and axes; the character-level parser HallSymbol::from_ascii is not covered'),
 'P07': ('abstract interpretation of guards with the position and the extents symbolic (affine terms, ordered regions), callees entered', 'every listed checked entry point (Symmetry, PointSymmetry, Basis, GammaTable, layers, trellis nodes, Array, Array2, space-group and point-group tables); unchecked accessors such as operator[] make no promise'),
 'P08': ('effect analysis: every writing method is dominated by the mutability test', 'every in-place method of the array classes'),
 'P09': ('affine loop summarisation to sums of products compared with the defining formula', 'symbolic sizes where the kernel has them, sizes 2, 3, 4 for templates'),
 'P10': ('operator-overload resolution: operator token and operand order traced to the element operation', 'every overload'),
 'P11': ('dimensional analysis and axis-relabelling equivariance of formula summaries', 'every formula method found'),
 'P12': ('decision of table consistency from the initialisers in the source (Hall symbol decoding, matrix invariants)', 'every row'),
 'P14': ('enumerator-set analysis of switches, tables and bindings', 'every enumeration'),
 'P15': ('binding-call extraction and path interpretation of the Python syntax trees', 'every import, attribute, overload and documented argument combination'),
 'P16': ('effect analysis: forbidden ambient sources over the call graph', 'every function body'),
 'P17': ('interval analysis of the conversion templates over type pairs', 'every pair of integer types'),
 'P18': ('affine summaries of the index maps and structural inverse check', 'every index function'),
 'P13': ('provenance dataflow over writer/reader pairs',
  'HighFive is modelled as a table of named entries; a custom cost function (std::function) cannot be stored and is undecided; the members which say who owns the elements of an Array2 are exempt; element types inside std::vector<...> parameters are not visible in every case.'),
 'P20': ('member-transfer analysis of special member functions', 'every user-provided copy/move'),
 'P21': ('member-coverage and operand-exchange analysis of equality operators', 'every equality operator'),
 'P22': ('boolean comparator summaries decided as strict weak orders over every arrangement of key values', 'every comparator handed to an algorithm or container'),
 'P23': ('slicing of the syntax trees of differently configured builds and structural comparison of what remains', 'every function of every translation unit, diagnostics off against on'),
 'P24': ('effect analysis of terminal writes under path conditions, summaries of the switches, and the macros in all eight build configurations', 'every stream write, every switch, every macro'),
 'P25': ('summary and typestate rules over the vertex containers', 'every container method'),
 'P26': ('path-wise abstract interpretation over linear combinations of array values with storage aliasing; loops by an inductive step that preserves sums of arrays', 'every path of moveinto, ir_moveinto and ir_moveinto_wedge, the changes of cell and the values returned to Python'),
 'P27': ('effect summaries of the rotation loop nests: cells written in closed form over the loop counters, values as polynomials of operation entries and previous cells, compared with the law of the declared kind', 'every rotation routine, element type, data kind and dispatch'),
 'P28': ('loop-body abstract interpretation: paired-update dataflow over the assignment lists and decision tables of the Munkres steps', 'every path through every loop body of lapjv and Munkres'),
 'P19': ('path-sensitive definite-assignment dataflow over constructors, functions and new[] storage', 'every constructor member, every local scalar, every new[] of scalars'),
}
NA = {
 'P06': 'no check in these commits: it needs an abstract interpretation over a heap of arrays sharing pointer and count, which was drafted but not validated in the time; syntactic pairing rules would judge how the code is written',
 'P11': 'the sources state no units: dimensions would have to be guessed from names, and relabelling of the axes does not hold for members bound to an orientation convention',
 'N01': 'optimality of a search result is a numeric fact about runtime cost values; no static rule in reach decides it',
 'N02': 'floating point interpolation identities quantify over runtime geometry and weights',
 'N03': 'the zone polyhedron is the result of iterative floating point cutting; its correctness is not a property of the program text a static rule can bound',
 'N04': 'depends on the runtime point group and floating point cutting with tolerances',
 'N05': 'closure is a fixed point over runtime matrices with tolerance comparison; no sound static argument in reach bounds it',
 'N06': 'numerical geometry with tolerance-based topology decisions',
 'N07': 'point location is numeric and depends on runtime geometry',
 'N08': 'a statement about minimal numeric distance between runtime eigenvectors',
}
props = [json.loads(l) for l in open(V + '/properties.jsonl')]
checks, na = [], []
for p in props:
    i = p['id']
    if os.path.exists(V + '/an/%s.py' % i.lower()):
        t, note = T[i]
        checks.append({'property': i, 'quick_cmd': 'python3 check.py %s quick' % i, 'thorough_cmd': 'python3 check.py %s thorough' % i,
                       'evidence_file': 'evidence/%s.json' % i, 'technique': 'static analysis: ' + t, 'level': 'other', 'level_note': note})
    else:
        na.append({'property': i, 'reason': NA.get(i, 'its static check is not built yet')})
m = {'version': 1, 'setup_cmd': 'python3 check.py setup', 'hooks': {'guard': 'BRILLE_VERIF', 'enable': 'no hooks are used; nothing in the sources is guarded', 'source_commits': []},
     'checks': checks, 'not_applicable': na, 'notes': 'See DESIGN.md. Every check parses the current tree with clang and decides from the resolved AST; nothing of the repository is executed.'}
json.dump(m, open(V + '/MANIFEST.json', 'w'), indent=1)
print(len(checks), 'checks', len(na), 'not applicable')
