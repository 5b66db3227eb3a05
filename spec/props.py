"""What each property's check verifies and runs."""
import os
R = 'ringing/'
CORE = [R + x + '.cpp' for x in ('row', 'change', 'bell', 'mathutils', 'lexical_cast', 'place_notation')]
METHOD = CORE + [R + 'method.cpp']
REPO = os.environ.get('VERIF_REPO', '/repo')
UTILS = ['apps/utils/' + x + '.cpp' for x in ('args', 'argv', 'bell_fmt', 'console_stream', 'exec', 'rlstream', 'row_calc', 'stringutils', 'tokeniser')]
GSIRIL = ['apps/gsiril/' + x + '.cpp' for x in ('execution_context', 'expr_base', 'expression', 'functions', 'import', 'parser', 'prog_args', 'proof_context', 'statement', 'symbol_table')] + UTILS
METHSEARCH = ['apps/methsearch/' + x + '.cpp' for x in ('expression', 'falseness', 'format', 'libraries', 'mask', 'methodutils', 'music', 'output', 'prog_args', 'search')] + UTILS
LIBALL = METHOD + [R + x + '.cpp' for x in ('proof', 'music', 'row_wildcard', 'streamutils', 'library', 'libfacet', 'libout', 'litelib', 'mslib', 'cclib', 'methodset', 'peal', 'dimension', 'falseness', 'group', 'extent', 'multtab', 'touch', 'basic_search', 'table_search', 'search_base', 'xmllib', 'xmlout', 'dom_stub')]
HARNESS = {
  'method': dict(sources=['/verif/harness/method.cpp'] + METHOD),
  'perm': dict(sources=['/verif/harness/perm.cpp'] + CORE + [R + x + '.cpp' for x in ('extent', 'group', 'multtab')]),
  'proof': dict(sources=['/verif/harness/proof.cpp', R + 'proof.cpp'] + CORE),
  'music': dict(sources=['/verif/harness/music.cpp', R + 'music.cpp', R + 'row_wildcard.cpp', R + 'streamutils.cpp'] + CORE),
  'misc': dict(sources=['/verif/harness/misc.cpp', R + 'dimension.cpp', R + 'touch.cpp', R + 'streamutils.cpp'] + CORE),
  'falseness': dict(sources=['/verif/harness/falseness.cpp', R + 'falseness.cpp', R + 'method.cpp', R + 'group.cpp', R + 'extent.cpp', R + 'streamutils.cpp'] + CORE),
  'library': dict(sources=['/verif/harness/library.cpp'] + [R + x + '.cpp' for x in ('library', 'libfacet', 'libout', 'litelib', 'mslib', 'cclib', 'methodset', 'peal')] + METHOD),
  'search': dict(sources=['/verif/harness/search.cpp'] + [R + x + '.cpp' for x in ('basic_search', 'table_search', 'search_base', 'falseness', 'multtab', 'extent', 'touch', 'group', 'streamutils')] + METHOD),
  'core': dict(sources=['/verif/harness/core.cpp'] + CORE),
  'gsiril': dict(sources=['/verif/harness/gsiril.cpp', '/verif/harness/gsiril_main.cpp'] + GSIRIL + LIBALL, extra=['-I' + REPO + '/apps/utils', '-I' + REPO + '/apps/gsiril'], libs=['-lreadline', '-lncurses']),
  'methsearch': dict(sources=['/verif/harness/methsearch.cpp', '/verif/harness/methsearch_main.cpp'] + METHSEARCH + LIBALL, extra=['-I' + REPO + '/apps/utils', '-I' + REPO + '/apps/methsearch'], libs=['-lreadline', '-lncurses']),
}
ALLTUS = [R + x + '.cpp' for x in ('row', 'change', 'bell', 'mathutils', 'method')]
ROWCH = ['ringing/row.cpp', 'ringing/change.cpp']
PROPS = {
  'C01': dict(harness=['core'], bounds='all vectors over 0..n for n <= 5, random vectors to 256 bells, malformed text, edit sequences'),
  'C02': dict(harness=['core'], bounds='all rows and pairs to 4 bells (mixed stages), triples sampled; random rows to 256 bells; powers from INT_MIN to INT_MAX'),
  'C03': dict(harness=['core'], bounds='every stage 0..256, every hunt count'),
  'C04': dict(harness=['core'], bounds='all rows to 7 bells, random rows to 256'),
  'C05': dict(harness=['core'], bounds='all 256 characters, all 256 bells, generated texts'),
  'C06': dict(harness=['core'], bounds='all place lists to stage 6, all changes to stage 12, generated texts'),
  'C07': dict(harness=['core'], bounds='all changes to stage 9, random to 255, edit sequences'),
  'C08': dict(harness=['core'], bounds='all rows x changes to 5 bells, random to 255'),
  'C09': dict(harness=['method'], bounds='all texts to length 6 over the notation alphabet, generated and mutated notations, on 0..16 bells'),
  'C10': dict(harness=['method'], bounds='all methods to 4 bells and 3 changes (5 bells, 2 changes), random and structured methods to 20 bells'),
  'C11': dict(harness=['method'], level='exploration', bounds='all short methods to 5 bells x all flag sets, random methods to 20 bells'),
  'C12': dict(harness=['proof'], tus=['ringing/row.cpp', 'ringing/change.cpp', 'ringing/bell.cpp', 'ringing/mathutils.cpp', 'ringing/proof.cpp'], assumptions=['a chain of branches ends (it is built by create_branch, which only ever adds a new head)', 'a row occurs fewer than 2^28 times', 'the list of repeated rows holds no entry without line numbers'], bounds='every history of up to 7 additions and removals of 3 rows, random histories with branches, all row lists to length 5'),
  'C13': dict(harness=['perm'], tus=ALLTUS + [R + 'extent.cpp'], bounds='all extents to 7 working bells with up to 3 hunts and covers, random rows and indices to 20 working bells'),
  'C14': dict(harness=['perm'], tus=['ringing/row.cpp', 'ringing/change.cpp', 'ringing/bell.cpp', 'ringing/mathutils.cpp', 'ringing/group.cpp'], note='Bounded only: rcoset_label on groups of 6 or more elements, symmetric and alternating groups, dihedral_r, the orbits behind invariants().', assumptions=['that generate_group ends is not shown (it adds each of finitely many rows once)', 'gen_rounds, gen_mul, gen_inv, gen_same (spec/grp.py): a set closed under multiplication by generators that are permutations contains rounds, products and inverses, and depends on the generators only as a set', 'the elements of a group all have its number of bells (precondition of conjugate, even_subgroup and direct_product, which the constructors do not state as an invariant)'], bounds='all pairs of generators to 4 bells, random generators to 7 bells, products of symmetric groups to 7 bells'),
  'C15': dict(harness=['perm'], tus=['ringing/row.cpp', 'ringing/change.cpp', 'ringing/bell.cpp', 'ringing/mathutils.cpp', 'ringing/multtab.cpp', '/verif/spec/inst/multtab.cpp'], note='The template constructors are verified for vector<row>::const_iterator; spec/inst/multtab.cpp only instantiates them.', assumptions=['a product is looked up only when its representative is in the table, i.e. the row set is closed under the multipliers used (precondition of find and of the products)', 'the number of cosets is that of rows divided by that of part ends (the assertion of init is a precondition)'], bounds='all groups of rows and part ends to 4 bells, sampled row sets on 5 and 6 bells'),
  'C17': dict(harness=['music'], level='exploration', bounds='all short patterns against all rows to 4 bells, generated pattern sets, row sequences and histories (set_bells, clear, reset) to 7 bells, every named music to 12 bells'),
  'C18': dict(harness=['music'], level='exploration', bounds='all patterns to length 5 over a small alphabet and random patterns, counts against enumeration of all rows to 6 bells, single patterns to 20 bells'),
  'C19': dict(harness=['core'], bounds='-, see sections'),
  'C16': dict(harness=['falseness'], tus=['ringing/row.cpp', 'ringing/change.cpp', 'ringing/bell.cpp', 'ringing/mathutils.cpp', 'ringing/method.cpp', 'ringing/group.cpp', 'ringing/falseness.cpp'], note='Falseness tables (every constructor) and the rows of a lead are proved. Bounded only: false course heads and the names of their groups, that a table of one method is closed under inverse, generate_group of an out-of-course table.', assumptions=['methods and row lists have rows of at least one bell (precondition)', 'the changes a row_block refers to are taken as they were when it was made'], bounds='all pairs of 2-change methods to 5 bells, random methods to 8 bells with every option, false course heads to 12 bells, all 120 + 5040 names'),
  'C20': dict(harness=['misc'], tus=ALLTUS + [R + 'dimension.cpp', R + 'lexical_cast.cpp'], bounds='all texts to length 7 over "02-./ i" with units, generated and mutated texts, all dimensions n/d with |n| <= 40 and d <= 16 in every unit, random larger ones'),
  'C21': dict(harness=['library'], level='exploration', bounds='generated files of up to 7 (MicroSiril, lightweight) or 16 (Central Council) entries in every layout, on 3 to 12 bells; look-up, search path, method sets and several outputs'),
  'C22': dict(harness=['misc'], level='exploration', bounds='all two-level trees with repeat counts 0..3, random trees of up to 7 shared nodes, copies and assignments'),
  'C23': dict(harness=['search'], level='exploration', bounds='random methods on 3 to 5 bells with up to 3 lead ends, compared with the enumeration of every call sequence (up to 20000 sequences), in one part and with groups of up to 24 part ends, every flag'),
  'C25': dict(harness=['gsiril'], level='exploration', bounds='about 3300 (quick) random scripts on 3 to 12 bells with random options, run by the program itself and compared with an independent interpreter; touches of at most 3000 rows'),
  'C26': dict(harness=['methsearch'], level='exploration', bounds='about 1550 (quick) random sets of options on 3 to 6 bells (8 treble dodging), the program itself run and its listing compared with the enumeration of every method of that length, at most 60000 nodes and 3000 methods each'),
  'C24': dict(harness=['misc'], tus=['/verif/spec/inst/pointers.cpp'], note='The templates are verified over an opaque class; spec/inst/pointers.cpp only instantiates them and adds ghost code (vinst::shared_assign ...) whose contracts carry the invariant of arbitrary histories: counts equal the number of owners, so an object is freed exactly when its last owner lets go.', assumptions=['destructors, deletors and clone functions of the pointee free (create) exactly one object and touch no pointer or count otherwise', 'an object handed to a pointer is live and owned by no other pointer', 'counting owners: how the number of pointers using a count changes when one pointer is replaced (axioms of spec/ptr.py)'], bounds='random histories of up to 15 operations on up to 4 pointers of each kind, counted objects, custom deletors and cloners, throwing clones'),
}
TRUSTED_BASE = ['clang 18 front end (AST) and extract/extract.cpp', 'cppv/: symbolic execution, verification-condition generation, library models of std containers, strings and algorithms',
  'z3 4.x (z3-new) and cvc5 1.1.2', 'spec/lib.py lemmas (see lean/ for the ones proved in Lean; the others are tested exhaustively on small instances by tools/lemmas.py)']
ASSUMPTIONS = ['containers and strings hold fewer than 2^28 elements', 'stages are at most 256 for rows and 255 for changes (a bell is a byte)',
  'iterator invalidation is not part of the contracts (the bounded harness runs under ASan)',
  'memory allocation succeeds', 'global settings (bell symbols, random source) are at their initial values unless a contract says otherwise']
EXPLORATION_NOTE = ('BOUNDED, not proved: no contract of this property is discharged yet. The real code is run under ASan/UBSan against an independent reference within the stated bounds.')
LEVEL_NOTE = ('Every function named in the evidence under functions_under_contract is proved against its contract for all inputs (all obligations discharged by z3 or cvc5 on each run, from the AST of the current tree). '
  'Trusted: the extractor, the VC generator and its models of the standard library, the solvers, the lemma library (spec/lib.py). '
  'The functions of the property listed as not verified are covered only by a bounded harness (executions of the real code under ASan/UBSan against a reference), which is never counted as proved.')
NA = {}
NOTES = 'See DESIGN.md. check exits 1 with no-failing-input-found when an obligation that is discharged on the unchanged tree no longer is and the bounded harness finds no failing input.'
