"""per property: what is enumerated, the oracle, bounds and limits (used by tools/gen.py for DESIGN.md)"""
N = {
 'C01': ('all queries that touch a memo cell (found by type, not by name), all their hit and miss paths',
         'the miss path of the same query: what is remembered must be what would be computed',
         'complete over paths; a memo keyed by something else than the query arguments must be shown to determine the answer',
         'tests ask each query once, on a fresh graph'),
 'C02': ('every reference derived from `UnsafeCell::get`, every store, call and drop while it is live; public signatures; Send/Sync of each type',
         'the aliasing rules of Rust for references, and the compiler for Sync',
         'complete over the MIR; heap cells are one location per cell field',
         'undefined behaviour need not show in a run'),
 'C03': ('find, unite, classes with helpers inlined; each store into the parent array and the index map',
         'union-find heap discipline (roots, walks, one link per unite), order of first appearance for classes',
         'inductive, any number of elements; ranks/sizes are recognised as heuristics that may not change the classes',
         'a wrong link shows only for particular unite histories'),
 'C04': ('every iteration over a hash container, time, random number or address, to every public result or caller-visible store',
         'taint rule: order marks must be removed by sorting by the whole element, by collecting into a set/map, or by counting',
         'complete over the call graph; closures analysed at their captures; a sort by a partial key does not remove the mark',
         'hash seeds differ only between runs; tests compare sets or happen to pass'),
 'C05': ('eq/ne/cmp/partial_cmp/lt/../max/min/hash/clone of every type of the crate, derived or written',
         'equality = agreement of all fields (memo cells excepted), order total and consistent, hash a function of what is compared',
         'fields as uninterpreted ordered values, all relations of two and three values (exhaustive); capacity/pointers are not data',
         'only few pairs of values are compared in tests'),
 'C06': ('all operator impls and methods on geometric types x mixing operands of two systems',
         'rustc: the mixing twin must be refused with a type error, the fitting twin accepted',
         'complete for the listed operations; new operations are not seen',
         'a program that must not compile cannot be a unit test'),
 'C07': ('every public operation and operator impl (by value and by reference) of geometry.rs',
         'definitions of affine algebra over exact rationals, dimensions 1 to 3',
         'closed forms; differing forms compared on instances',
         'tests use a handful of maps, mostly with symmetric or orthogonal linear part'),
 'C08': ('every operation on two shaped operands, and entry/row/column access; all failing paths',
         'mismatched shapes and indices out of range must reach a failing path that debug assertions off does not remove',
         'instances with all small mismatches, and large ones near constants',
         'tests use fitting shapes'),
 'C09': ('every public function on graphs that uses symmetries, orbits, edge lookup',
         'dominating-guard rule over all returning paths, transitively',
         'complete over paths; guard must be a real branch, not a debug assertion',
         'the guard matters only for unstable nets nobody tests'),
 'C10': ('every panic site (index, slice, unwrap, expect, arithmetic, division, explicit) reachable from a reader, through combinators',
         'the facts that dominate the site, with token languages from the grammar',
         'complete over reachable sites; library calls that can panic are listed in the models',
         'the set of texts is unbounded; fuzzing samples it'),
 'C11': ('both reader loops and the end of input: all combinations of entry kind, key, notes, fields, state',
         'a specified transition table, component by component',
         'complete over the abstract line kinds; any sequence of lines by induction over the loop state',
         'one file is read in tests'),
 'C12': ('the combinator grammar; every token class; every alternative',
         'an independent grammar of CGD lines; DFA equality; value table',
         'complete over a finite alphabet of character classes incl. characters whose low byte is a delimiter; numbers up to the digits that matter',
         'tests parse few lines, all ASCII'),
 'C13': ('all variants of both enumerations, all their texts, upper/lower case, the setting lookup',
         'the writer against the reader', 'exhaustive over variants; foreign texts on representatives near all texts',
         'each test covers one variant'),
 'C14': ('the operator grammar, attribute values of each shape, the writer decision table',
         'an independent grammar and the value of a sum of terms', 'DFA equality; term shapes enumerated; writer: signs x zero/one/other x position',
         'texts are unbounded'),
 'C15': ('every setting, alias and lookup line of sgtable.data', 'group axioms, conjugation to the canonical setting, Hermann-Mauguin symbol semantics, the count 17/230',
         'complete: all entries, exact arithmetic', 'tests read the table but do not look at its content'),
 'C16': ('edge reversal/orientation for all end orders and shift signs; edge list, vertex list, incidences, directed edges',
         'definitions of the quotient graph representation', 'decision tables exhaustive; lists inductive',
         'test nets rarely have loops with negative or zero shifts'),
 'C17': ('all methods of both label types (trait default methods as resolved)', 'componentwise group, lexicographic sign and order',
         'exhaustive over component signs/orders; algebra by normal form', 'few labels in tests'),
 'C18': ('normalised positions, mod_z, reduced basis loop, users of reduced values', 'class representatives: same class, same form',
         'instances on classes across zero; structural rule for the basis', 'classes are infinite'),
 'C19': ('all ways around the traversal loop; the measures; connectedness cases', 'potentials of a spanning tree; definitions of size, rank, multiplicity',
         'inductive over the traversal; cases exhaustive', 'test nets are small with short trees'),
 'C20': ('every float conversion, integer cast, rational-to-integer conversion, wrapping operation in the crate', 'taint to results and branches; losslessness rule per conversion',
         'complete over MIR', 'rounding shows only for large numbers'),
 'C21': ('product, identity, automorphism search, group closure, enumeration of edge lists', 'definition of automorphism of a periodic net and completeness of the candidate set',
         'all ways around each worklist loop; that candidate lists suffice to generate the group is a theorem taken from the literature', 'each net is a new input; wrong orders of composition show only for non-abelian groups'),
 'C22': ('all united pairs, loop ranges and left-out conditions in the orbit functions', 'orbit = class of the images under all symmetries',
         'inductive', 'few nets'),
 'C23': ('initial state and step of the iterator', 'shell recursion of the infinite net', 'inductive', 'first terms of few nets are tested'),
 'C24': ('absence condition, quotient edges, shifts, extended basis', 'definition of the quotient net', 'closed form with noncommutative matrix factors',
         'needs nets with centring translations'),
 'C25': ('sizes 0-3 exactly; elimination steps for larger', 'Leibniz formula; orientation parity', 'all shapes by induction over steps', 'signs of swaps for large matrices'),
 'C26': ('gcdx loop, clear/normalise/reduce column for every scalar type, extend_basis, rank', 'polynomial invariants, unimodularity', 'arbitrary row length and column',
         'pivot and gcd chains differ for every matrix'),
 'C27': ('modular inverse, echelon form, inverse, lifting, reconstruction, number of steps', 'defining congruences and Hadamard-type bound', 'inductive, primes arbitrary',
         'bad primes and long fractions are rare'),
 'C28': ('all constructors, accessors, stacking and operators of Matrix', 'definition entry by entry', 'arbitrary shapes', 'small shapes in tests'),
 'C29': ('Lagrange and Selling reduction, Dirichlet vectors, reduced bases, shifting, rational lattice basis', 'integral equivalence, decrease, reduction inequalities',
         'one arbitrary round and exit under arbitrary positive definite forms (instances)', 'one or two lattices in tests'),
 'C30': ('assembly loops of both equation systems', 'S^T G S = G; (S - 1) s = 0', 'span compared on instances of operators in dimension 1-3, all operators by induction', 'tests use diagonal examples'),
 'C31': ('all loops of the stability predicates and the edge lookup', 'seen-set rule with exact key', 'inductive', 'nets with collisions are rare'),
 'C32': ('assembly of the barycentric system, solution rows, edge vectors, normalised positions', 'equilibrium equations', 'inductive over edges', 'numberings with gaps, multiple edges and loops are rare in tests'),
 'C33': ('the loop body of the table reader on all line forms and outcomes', 'specified transition table', 'complete over line forms; text conditions decided on representatives', 'the table is well formed'),
 'C34': ('worklist of generate', 'closure rule', 'inductive', 'small groups close in one round'),
 'C35': ('PrimitiveSetting::new with everything of its file inlined', 'lattice of unit and pure translations; images under the change, each once', 'loops replayed on the summary for groups with and without centering (up to 192 operations)',
         'one planar group in tests'),
 'C36': ('OperatorDetails::from, crystal_system_and_basis_2d, primitive_cell and normalized_basis_2d with everything of finder.rs inlined', 'definitions of order, determinant, fixed vector, sense; relation of the basis to rotations and mirrors; lattice spanned by the conventional cell up to the centering', 'loops replayed on the summary for all crystallographic point-group operators in several settings, 14 planar groups (6 settings each, also with repeated linear parts), planar lattices of all systems',
         'a dozen operators in tests. The public function above them is unfinished (panics on every input, N03), so these are the finished parts only; primitive_cell is a known finding'),
 'C37': ('solve, inverse, null_space, reduced_basis with everything of linear_algebra.rs inlined except the elimination steps; solve_row of all four scalar types', 'defining equations; solvability from ranks (rationals) and canonical lattice bases (integers); gcd of maximal minors for completeness of integer null spaces', 'closed forms and loops replayed on matrices up to 4 x 4 of all ranks over rationals and integers (some 500 instances, thorough 3000); elimination steps stand for what C26 decides about them',
         'a handful of systems in tests; wrong cuts of the stacked matrices show only for particular shapes and ranks'),
 'C38': ('every implementation of Display in pgraphs.rs, matrices.rs, geometry.rs and parse_table.rs', 'the text defined from the value; a formatter state that counts writes and fails at a chosen one', 'writes replayed on the summaries for some 60 values of all shapes; for every value, each of its writes fails once; single operators in table entries stand for what C14 decides, names of systems and centerings for C13',
         'nothing tests the text of these values, and a swallowed write error shows only with a failing output'),
}
