#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so the file stays well formed)."""
import json, os
P=[]
def prop(id,title,statement,over,q,why,files,mech,state=None,obs=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    if obs: a["observe_at"]=obs
    a["hook_needed"]=None
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":q},"why_tests_cant":why,"anchors":a})

prop("C01","Every row is a permutation",
 "Constructing a row from text, from a vector of bells or by assignment succeeds exactly when every bell from 1 to the number of bells occurs exactly once, and throws the documented 'invalid' exception otherwise. Every row that any public row operation returns or leaves behind (products, quotients, inverses, powers, conjugates, resizing, swapping, applying changes, named rows) is again such a permutation. A failed construction or assignment leaves the target unchanged.",
 ["inputs","histories"],"all bell sequences and all compositions of public row operations on any number of bells (up to 255)",
 "the tests build a few dozen literal rows on at most 16 bells; validity must hold for every sequence and every operation chain",
 ["ringing/row.h","ringing/row.cpp"],[("row::validate","ringing/row.cpp"),("row constructors","ringing/row.cpp"),("row::resize","ringing/row.cpp")],
 [("row::data","the bells in order","ringing/row.h")],["row::row","row::resize","row::swap"])
prop("C02","Rows multiply, divide, invert and power as permutations",
 "For rows a and b, a*b places a's bell b[i] at position i, with the row on fewer bells extended by the missing bells in their home places; (a/b)*b equals a on the larger number of bells, and r*r.inverse() is rounds. conjugate(r) equals r.inverse()*x*r, power(n) equals n successive multiplications for n>=0 and those of the inverse for n<0, and the compound assignment operators agree with the plain ones, including when both operands are the same object.",
 ["inputs"],"all pairs of rows on any (possibly different) numbers of bells, all exponents",
 "tests multiply a handful of sample rows on fixed stages; the laws quantify over all pairs, unequal lengths and exponents",
 ["ringing/row.h","ringing/row.cpp"],[("row::operator*","ringing/row.cpp"),("row::operator/","ringing/row.cpp"),("row::inverse, conjugate, power","ringing/row.cpp")])
prop("C03","Named rows and row queries are exact",
 "Rounds, queens, kings, tittums, reverse rounds, cyclic rows and the first plain bob lead head are exactly the rows ringers mean by those names for every number of bells and hunt bells. isrounds is true exactly for rows with every bell in its home place; find returns the position of a bell (or the bell itself when it is beyond the row); resizing pads with bells in their home places or truncates when only home-order bells are lost. ispblh returns n exactly when the row is the n-th power of the first plain bob lead head (with the row's leading hunt bells), and 0 for no such power.",
 ["inputs"],"all numbers of bells, hunt-bell counts, cyclic offsets and rows",
 "tests check single stages such as 5, 8 or 12; odd and even stages, degenerate sizes and arbitrary hunt counts are not covered",
 ["ringing/row.h","ringing/row.cpp"],[("row::queens/kings/tittums/reverse_rounds/cyclic/pblh","ringing/row.cpp"),("row::isrounds/find/ispblh/resize","ringing/row.cpp")])
prop("C04","Cycle structure, order, sign and conjugacy of rows",
 "cycles() lists the disjoint cycles of a row in order of smallest bell, num_cycles and cycle_size agree with it, sign() is the parity of the permutation, and order() is the least positive power that gives rounds. are_conjugate holds exactly when two rows have the same multiset of cycle lengths, and conjugator(x,y) then returns an r with r.inverse()*x*r equal to y (and an empty row otherwise).",
 ["inputs"],"all rows and pairs of rows",
 "tests look at a few fixed rows; parity, order and conjugacy are claims about every permutation",
 ["ringing/row.h","ringing/row.cpp","ringing/mathutils.h"],[("row::cycles, num_cycles, cycle_size, order, sign","ringing/row.cpp"),("are_conjugate, conjugator","ringing/row.cpp")])
prop("C05","Bell symbols are read and printed consistently",
 "Every bell within the symbol set prints as its own symbol and reads back as the same bell, in either case where case folding applies; every other bell prints in the {n} form, which also reads back. is_symbol accepts exactly the characters read_char can read, and any other character, the terminating NUL included, is rejected with the 'invalid' exception.",
 ["inputs"],"all bells 1 to 255, all character values, all extended {n} texts",
 "tests try a few letters; the claim covers all 256 characters and all bells",
 ["ringing/bell.h","ringing/bell.cpp"],[("bell::read_char, is_symbol, read_extended, to_char","ringing/bell.cpp"),("operator<<, operator>>","ringing/bell.cpp")],
 [("bell::symbols","the symbol table","ringing/bell.cpp")])
prop("C06","Changes are legal and print back to themselves",
 "A change built from place notation or from a list of places swaps only disjoint adjacent pairs inside the stage, in ascending order, leaving exactly the named places (plus at most one implied external place at each end) unmoved. Notation whose places are out of range, out of order or leave an odd gap is rejected with the 'invalid' exception, and printing a change and reading it back on the same number of bells gives an equal change.",
 ["inputs"],"all numbers of bells up to 255 and all notations or lists of places",
 "tests contain a few literal changes; legality and the round trip range over all place lists and stages",
 ["ringing/change.h","ringing/change.cpp"],[("change constructors","ringing/change.cpp"),("append_swaps_between","ringing/change.cpp"),("change::print, places","ringing/change.cpp")],
 [("change::swaps","left bells of the swapped pairs, ascending","ringing/change.h")])
prop("C07","Change queries and edits agree with what the change does",
 "findswap, findplace, places, count_places, internal and sign report exactly the pairs a change swaps, the positions it leaves unmoved and their parity; have_same_places is true exactly when two changes share a place. reverse() mirrors the change end for end and is an involution. swappair(k) toggles the swap of positions k and k+1, removes any overlapping swap, leaves all others alone, returns whether the swap is now made, and rejects positions outside the stage.",
 ["inputs","histories"],"all changes (including those built by any sequence of swappair calls) and all positions",
 "tests inspect a few changes on up to 8 bells; histories of edits and boundary positions are not explored",
 ["ringing/change.h","ringing/change.cpp"],[("change::swappair","ringing/change.cpp"),("change::findswap, findplace, places, internal, sign, reverse","ringing/change.cpp"),("have_same_places","ringing/change.cpp")])
prop("C08","Applying a change moves exactly the swapped bells",
 "Multiplying a row by a change exchanges the bells in each swapped pair and leaves all others where they were, first extending the row with bells in their home places if the change is on more bells; pairs beyond the row are ignored. Applying a change to a single position moves it to where that bell goes, so tracing a position agrees with the row, and applying the same change twice restores the row. A row block lists exactly the successive rows produced by its changes from its starting row.",
 ["inputs"],"all rows, positions and changes on any numbers of bells; all change sequences and start rows",
 "tests apply a few changes to short rows; agreement of the row view and the position view is a claim over all of them",
 ["ringing/row.cpp","ringing/row.h","ringing/change.cpp"],[("operator*=(row&, const change&)","ringing/row.cpp"),("operator*=(bell&, const change&)","ringing/change.cpp"),("row_block::recalculate","ringing/row.cpp")])
prop("C09","Place notation expands to the changes it denotes",
 "Interpreting place notation yields exactly the sequence of changes it denotes: dots and crosses separate changes, a block prefixed with & is followed by its mirror image without repeating the last change, a + block is taken as is, and blocks are separated by commas. Spaces around separators are ignored and malformed text is rejected with an exception instead of yielding changes or reading outside the text.",
 ["inputs"],"all character strings and stages",
 "tests parse a fixed list of notations; acceptance, rejection and memory safety range over all strings",
 ["ringing/place_notation.h","ringing/place_notation.cpp","ringing/method.cpp"],[("interpret_pn","ringing/place_notation.h"),("read_bell_expr, skip_sep","ringing/place_notation.h")])
prop("C10","Method attributes follow from the method's changes",
 "The lead head of a method is the product of its changes; the number of leads in its course is the order of the lead head, the number of hunt bells is the number of bells the lead head leaves at home, and it is regular exactly when its lead head is a plain bob lead head. Symmetry (palindromic about a change, the usual point or any point), doubleness, plain hunting, dodging, internal places and the longest run of blows in one place (taken cyclically) are reported exactly as defined on the sequence of changes and the path of the bell.",
 ["inputs"],"all methods: all change sequences on all stages, and all bells",
 "tests examine a few well-known methods; each attribute is a claim over every change sequence",
 ["ringing/method.h","ringing/method.cpp"],[("method::lh, leads, huntbells, isregular","ringing/method.cpp"),("method::is_palindromic_about, issym, symmetry_point, isdouble","ringing/method.cpp"),("method::isplain, hasdodges, hasplaces, maxblows","ringing/method.cpp")])
prop("C11","Compressed place notation reads back as the same method",
 "Formatting a method with any combination of formatting flags that keeps the lead-head change gives place notation that, interpreted on the same number of bells, yields exactly the same sequence of changes; with the lead-head change omitted (M_OMIT_LH) it yields all of them but the last.",
 ["inputs","configurations"],"all methods and all combinations of formatting flags",
 "tests format a few methods with a few flags; the round trip is a claim over every method and flag set",
 ["ringing/method.cpp","ringing/place_notation.h"],[("method::format","ringing/method.cpp"),("interpret_pn","ringing/place_notation.h")])
prop("C12","Proving reports truth and repetitions exactly",
 "After any history of adding and removing rows, a prover reports true exactly when no row has been rung more often than the allowed number of repetitions, its row and duplicate counts equal the true counts, and recorded failure information names exactly the repeated rows and the lines on which they occur. (Rows removed from the recorded information are those rung last.) Branching a prover continues from the same history and leaves the branched prover unaffected, and the proof of a list of rows gives the same verdict and failures as counting them.",
 ["inputs","histories"],"all row sequences, repetition limits, removals and branchings",
 "tests prove a few short touches; exactness is over all histories of additions, removals and branches",
 ["ringing/proof.h","ringing/proof.cpp"],[("prover::add_row, remove_row, create_branch","ringing/proof.cpp"),("prover::duplicates, truth","ringing/proof.h"),("proof::prove","ringing/proof.h")],
 [("prover rows multimap","rows rung so far","ringing/proof.h")])
prop("C13","Extents enumerate every row exactly once",
 "Iterating an extent visits each of the n! rows of the chosen working bells exactly once, in order, with hunt bells and cover bells fixed, and the in-course iterator visits exactly the even ones. nth_row_of_extent and position_in_extent are inverse bijections that agree with the order of iteration, the sign of the nth row is that of the row, the changes iterator yields every change of the chosen bells exactly once, and random rows are drawn from the stated extent.",
 ["inputs","histories"],"all numbers of working, hunt and total bells and all positions",
 "tests walk extents on up to a few bells; the enumeration and the numbering are claims for every stage and index",
 ["ringing/extent.h","ringing/extent.cpp"],[("extent_iterator","ringing/extent.h"),("nth_row_of_extent, position_in_extent","ringing/extent.cpp")])
prop("C14","Groups are closed and partition into cosets",
 "A group built from generators contains rounds and every generator, is closed under multiplication and inverse, contains nothing outside the generated group and lists each element once. Coset labels are equal exactly for rows in the same coset, conjugates and the standard groups are the ones named, and the fixed points and invariants reported are exactly those of its elements.",
 ["inputs"],"all generating sets on all stages",
 "tests construct a few small groups; closure and coset labelling are claims over all generating sets",
 ["ringing/group.h","ringing/group.cpp"],[("group::generate","ringing/group.cpp"),("group::rcoset_label, lcoset_label, conjugate","ringing/group.cpp"),("group::fixed_bells, invariants","ringing/group.cpp")])
prop("C15","Multiplication tables agree with row multiplication",
 "For every row r in a multiplication table's row set and every precomputed post-multiplier p, looking up r times p gives the index of the product of the rows (up to the table's partends), and converting rows to indices and back is the identity on representatives. A multiplier that does not commute with the table's part ends (for premultiplication) or post group (for postmultiplication) is rejected.",
 ["inputs","histories"],"all row sets closed under the used multipliers, all partend groups, all products",
 "tests use one or two tables; agreement is a claim over every entry of every table",
 ["ringing/multtab.h","ringing/multtab.cpp"],[("multtab::init, compute_post_mult, find","ringing/multtab.cpp"),("row_t operator*","ringing/multtab.h")])
prop("C16","False lead heads and courses are exactly the incidence of falseness",
 "The falseness table of a method (or of a pair of methods or row lists) contains a row exactly once, and exactly when the lead starting from it shares a row with the plain lead, subject only to the documented options (treble fixed, parity, half leads), and a method's own table is closed under inverse. For methods whose lead head is one cycle that moves the tenor, the false course heads are exactly the rows with treble and tenor at home whose course shares a row with the plain course, and the false course head groups named are exactly those containing such a row.",
 ["inputs","configurations"],"all methods and option flags",
 "tests check a few standard methods; exactness is over all methods and rows",
 ["ringing/falseness.h","ringing/falseness.cpp"],[("falseness_table::init","ringing/falseness.cpp"),("false_courses","ringing/falseness.cpp")])
prop("C17","Music counts equal the number of matching rows",
 "Processing a sequence of rows gives, for each music pattern and stroke, the exact number of rows that match it under the documented wildcards (? for any one bell, * for any number of bells, none included, and [..] for one of several bells), a row that matches in several ways being counted once, and the score is the sum of counts weighted by the patterns' scores. Named music (queens, tittums and so on) is counted in the same way. Resetting starts the counts from zero, clearing leaves no pattern, and changing the number of bells matches the same patterns on the new number. The possible matches and score are those of all the rows of the stage.",
 ["inputs","histories"],"all pattern sets and row sequences",
 "tests use a few patterns on a few rows; exact counting is over all pattern sets and sequences",
 ["ringing/music.h","ringing/music.cpp"],[("music::process_row, get_score","ringing/music.cpp"),("music_node::match, add","ringing/music.cpp")])
prop("C18","Row wildcards count exactly the rows they match",
 "A row wildcard is accepted exactly when it is well formed (bell symbols, ?, * and bracketed sets of bells), and its count on a number of bells is exactly the number of rows on that many bells that match it: each ? is any bell, each bracketed set one of its bells, each * any number of bells (none included), and a pattern without a * may be followed by any bells. A row that matches in several ways is counted once; bells named twice or outside the stage match no row; malformed patterns are rejected.",
 ["inputs"],"all wildcard expressions and numbers of bells",
 "the tests barely touch wildcards; exact counting is over all expressions",
 ["ringing/row_wildcard.h","ringing/row_wildcard.cpp"],[("row_wildcard::count, make_intersection","ringing/row_wildcard.cpp")])
prop("C19","Integer helpers compute what they are named for",
 "hcf and lcm are the greatest common divisor and least common multiple, factorial and fibonacci, ipower, sign, is_prime, next_prime and landau return the mathematical value whenever it is representable, and random_int(n) always lies in [0,n). No call with such arguments divides by zero, overflows or fails to terminate.",
 ["inputs"],"all arguments whose result is representable",
 "tests sample small arguments; the claim covers all representable results",
 ["ringing/mathutils.h","ringing/mathutils.cpp"],[("hcf, lcm, factorial, fibonacci, ipower, is_prime, next_prime, landau","ringing/mathutils.cpp")])
prop("C20","Dimensions parse, print and convert exactly",
 "Reading a dimension yields the length its text denotes in the given unit, including integers, fractions and decimals (whose terms fit in an int), in its lowest terms, and malformed text, a zero denominator or an unknown unit is rejected without changing the value. Arithmetic is exact, the length in points is that of the value and unit, and printing a dimension and reading it back preserves its value and unit.",
 ["inputs"],"all dimension texts and units",
 "there are no tests of dimensions",
 ["ringing/dimension.h","ringing/dimension.cpp"],[("dimension::read","ringing/dimension.cpp")])
prop("C21","Method libraries return the methods they hold",
 "Reading a Central Council, MicroSiril or lightweight library file (or a lightweight library on a stream) yields exactly the entries it holds, in order, each with the name, base name, stage, place notation and facets (peals, references, payload) recorded for it, whatever the line ends; a file can be iterated over again and is found on the library path, and an unreadable one gives an empty library that is not good. Looking up by name and stage, by title or by method gives the first matching entry or reports that there is none. A method printed as place notation into a library is read back equal. A method set holds each distinct method once, with its name and the facets it was told to keep, and several outputs each receive every entry.",
 ["inputs"],"all library files",
 "tests do not read libraries at all",
 ["ringing/library.cpp","ringing/litelib.cpp","ringing/mslib.cpp","ringing/cclib.cpp","ringing/methodset.cpp","ringing/libout.cpp"],[("library::good, begin","ringing/library.cpp"),("entry readers","ringing/litelib.cpp")])
prop("C22","Touches expand to the changes their calls describe",
 "Iterating over a touch yields exactly the changes of its lists, repeats, leaves and calls in order, a repeat block contributing its child the stated number of times; children with no changes or no repeats contribute nothing. Iterators are independent of their copies. A copy of a touch is equal to it, is still valid when the original is destroyed, and giving one another head does not affect the other.",
 ["inputs","histories"],"all touch trees",
 "no test iterates over touches",
 ["ringing/touch.h","ringing/touch.cpp"],[("touch_child_iterator, touch_changes_iterator","ringing/touch.cpp")])
prop("C23","Touch searches output only, and all, true touches",
 "For a method whose lead repeats no row, every touch a search outputs is true (in all its parts) and within the length limits, comes round to rounds or to a part end generating all the parts (unless blocks that are merely mutually true, or do not come round, were asked for), and is output once. A search run to completion outputs every touch of the given lead ends that meets its constraints, or exactly one rotation of each if rotations are ignored; running it again gives the same, and it stops when the outputer says so.",
 ["inputs","configurations"],"all methods, sets of distinct calls, groups of part ends, length limits and flags",
 "tests do not run the searches",
 ["ringing/basic_search.cpp","ringing/table_search.cpp","ringing/search_base.cpp"],[("basic_search::run","ringing/basic_search.cpp"),("table_search::run","ringing/table_search.cpp")])
prop("C24","Owning pointers free every object exactly once",
 "Over any history of copies, assignments, swaps, resets and destructions (self-assignment included), each object held by the library's smart pointers stays alive while some owner refers to it, is destroyed exactly once when the last owner lets go, and cloning pointers yield independent deep copies.",
 ["histories"],"all histories of pointer operations",
 "no test exercises pointer histories",
 ["ringing/pointers.h"],[("scoped_pointer, shared_pointer, cloning_pointer","ringing/pointers.h")])
prop("C25","gsiril proves exactly what its script says",
 "A gsiril script is executed as its language is described: for each prove statement the expression is evaluated (place notation with ',' and repetition by a number or 'repeat', '~' reversal, alternatives in braces with their tests, assignments during the proof, merging with '&', transpositions, integer arithmetic with usual precedence and left-to-right association, 'break' and 'endproof'), every change rung yields one row, and the touch is reported with the symbol 'false' exactly when some row occurs more often than the allowed number of extents, otherwise 'notround' exactly when the last proved row is not rounds, otherwise 'tooshort' when it has fewer rows than required, and otherwise 'true'; 'everyrow', 'rounds', 'conflict', 'toolong', 'start', 'finish' and 'abort' are executed at their points and no other. The rows, row counts, numbers of false rows, music counts and other text printed (including under -E, -q and -qq) are those of the rows produced; the exit status is 0 exactly when every proof succeeded, 1 when one failed and 2 for a script in error; a script that uses more than --node-limit nodes is stopped; and with --filter exactly the methods for which the script succeeds are passed on. (A division sign is only covered where no other '/' follows it on its line, since the text between two of them is read as a pattern.)",
 ["programs","configurations"],"all gsiril scripts and options",
 "the scripted tests are a fixed set of short programs",
 ["apps/gsiril/proof_context.cpp","apps/gsiril/expression.cpp","apps/gsiril/parser.cpp","apps/gsiril/execution_context.cpp","apps/gsiril/statement.cpp","apps/gsiril/functions.cpp","apps/gsiril/main.cpp"],[("proof_context","apps/gsiril/proof_context.cpp"),("msparser::make_expr","apps/gsiril/parser.cpp")])
prop("C26","methsearch lists exactly the methods satisfying its options",
 "A completed methsearch run for single-hunt methods (plain or treble dodging) or principles lists each method of the requested stage and length that satisfies every requested constraint exactly once, in increasing order of its changes (cross first, then by places made), and no other method. The constraints are: the symmetries -s, -k and -d (-s or -d alone for principles), the lead head (single cycle of working bells unless -A; -c, -r; -e; cyclic half-leads), at most the given number of blows in a place (-p, also across the lead end), places (-l), adjacent places (-j), --mirror, --changes lists, right place (-w), -f, surprise, treble bob and delight cross-sections (-S, -T, --delight), symmetric sections (-y), masks and prefixes in every part of the lead, --row-match, -Q requirements over $o, $b, $u, $l and $Nh, and truth: no repeated or null change unless -Fx, distinct rows in each half-lead (-Fh), in the lead (-Fl) or in the course (-Fc). --start-at lists the rest of the listing from that method on, --limit its beginning, --random all of it in some order; --count and --raw-count give its length; and as a filter (-I) exactly the methods read that satisfy the constraints (or with --invert-filter do not) are passed on in order with their payloads. (Not covered: -E, -Z, -P, falseness groups and extents, -f with -k, -d or --mirror, -y with more symmetry than -s or -d, floating symmetry, several hunt bells, and mask alternatives that differ both above and below the treble.)",
 ["configurations"],"all option combinations and stages",
 "tests count the output of some fixed option sets",
 ["apps/methsearch/search.cpp","apps/methsearch/mask.cpp","apps/methsearch/prog_args.cpp","apps/methsearch/methodutils.cpp"],[("searcher::general_recurse","apps/methsearch/search.cpp"),("parse_mask","apps/methsearch/mask.cpp")])
with open(os.path.join(os.path.dirname(os.path.abspath(__file__)),"..","properties.jsonl"),"w") as f:
    for p in P: f.write(json.dumps(p)+"\n")
