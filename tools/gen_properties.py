#!/usr/bin/env python3
"""Writes properties.jsonl (single source for titles, statements and anchors)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, observe):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech], observe_at=observe, hook_needed=None)))
I = ["inputs"]; H = ["histories"]; IH = ["inputs", "histories"]
def src(*a): return ["src/" + x for x in a]

p("C01", "Element equality is an equivalence relation",
  "vec_equal(na_equal = TRUE), on atomic vectors, lists, arrays, data frames (nested too), records and classed vectors, is reflexive, symmetric and transitive, and decides exactly sameness of value: signed zeros and NaN payloads do not matter, NA and NaN are different, string encoding does not matter, and list elements are equal only if type, length, contents and attributes all agree. With na_equal = FALSE the answer is NA exactly when a missing part is met before (from the left) any differing part. Results have the recycled common size, and incompatible types or sizes are errors.",
  I, "all pairs and triples of elements / vectors of every type, both na_equal modes, every recycling combination",
  "Equivalence is a statement about all pairs and triples; the tests compare a few dozen hand-picked pairs, mostly of one type with no attributes.",
  src("equal.c", "equal.h", "translate.c", "proxy.c") + ["R/equal.R"],
  [("element comparators", "src/equal.h"), ("data frame short-circuit comparison", "src/equal.c df_equal"), ("list element comparison with attributes", "src/equal.c equal_object_normalized")], ["vec_equal()"])
p("C02", "Comparison is a total preorder consistent with equality",
  "vec_compare() returns -1, 0 or 1 elementwise; with na_equal = TRUE it is antisymmetric and transitive, 0 exactly where vec_equal(na_equal = TRUE) is TRUE, orders missing values below everything else (NaN below NA), strings in the C locale irrespective of encoding and rows/records lexicographically. With na_equal = FALSE the result is NA exactly when a missing part is met before any differing part. Types without an order (complex, list) are errors.",
  I, "all pairs and triples of elements and row tuples of every comparable type, both na_equal modes",
  "Tests sample a few pairs per type; order axioms and the missing-value interaction across several columns need all tuples.",
  src("compare.c", "compare.h", "proxy.c") + ["R/compare.R"],
  [("scalar comparators", "src/compare.h"), ("column-wise short circuit", "src/compare.c df_compare_impl")], ["vec_compare()"])
p("C03", "Uniqueness and duplication agree with pairwise equality",
  "vec_unique(), vec_unique_loc(), vec_unique_count(), vec_duplicate_any(), vec_duplicate_detect(), vec_duplicate_id() and vec_count() give exactly what comparing every pair of elements with vec_equal(na_equal = TRUE) implies: the first occurrence of each distinct element in order of appearance, every member of a repeated group flagged, ids pointing to first occurrences and exact counts (vec_count() sorted as requested). This holds for every type that can be compared for equality, every length, and any distribution of hash values.",
  I, "all vectors up to a length over alphabets containing equal-but-not-identical elements, plus long vectors crossing table-size and growth thresholds",
  "Hash table behaviour (collisions, probing, growth) depends on the whole input; tests use short vectors of easy values.",
  src("dictionary.c", "dictionary.h", "hash.c", "poly-op.c", "growable.c") + ["R/dictionary.R"],
  [("open addressing dictionary", "src/dictionary.c dict_hash_with"), ("hash/equality consistency", "src/hash.c")], ["vec_unique()", "vec_duplicate_*()", "vec_count()"])
p("C04", "Matching finds the first equal element, with defined missing rules",
  "vec_match(needles, haystack) gives for each needle the position of the first haystack element equal to it after coercion to their common type, or NA; vec_in() is TRUE exactly when such a position exists. With na_equal = FALSE any needle with a missing part yields NA in both. Incompatible types are errors.",
  I, "all pairs of needle and haystack vectors up to a length, for every type pair with a common type, both na_equal modes",
  "The property quantifies over pairs of vectors and types; tests check a handful.",
  src("dictionary.c", "hash.c") + ["R/dictionary.R"],
  [("shared hash over two dictionaries", "src/dictionary.c vctrs_match, vctrs_in")], ["vec_match()", "vec_in()"])
p("C05", "Set operations obey set algebra and keep first-appearance order",
  "vec_set_intersect(), vec_set_difference(), vec_set_union() and vec_set_symmetric_difference() return, in the common type of x and y (or the requested ptype), exactly the distinct elements that mathematical set algebra prescribes under vec_equal(na_equal = TRUE), without duplicates. Elements of x come first in order of first appearance, then those of y.",
  I, "all pairs of vectors up to a length for every type and coercible type pair",
  "Needs all pairs of inputs including duplicates on both sides, empties and coerced types; tests try a few.",
  src("set.c") + ["R/set.R"], [("dictionary marking", "src/set.c")], ["vec_set_*()"])
p("C06", "Grouping partitions the input by equality",
  "vec_group_loc(), vec_group_id(), vec_split() and vec_group_rle() describe the same partition of the rows by vec_equal(na_equal = TRUE): groups are numbered by first appearance, every row location is in exactly one group, in increasing order, keys are the first occurrence of each group, and split pieces are the slices at those locations. Run lengths expand back to the group ids.",
  I, "all vectors up to a length for every type; group counts crossing growth thresholds",
  "A partition property over every input; tests sample.",
  src("group.c", "dictionary.c", "split.c") + ["R/group.R", "R/split.R"], [("group location filling", "src/group.c vec_group_loc")], ["vec_group_*()", "vec_split()"])
p("C07", "Ordering is a stable sorting permutation",
  "Every ordering entry point (vec_order(), vec_sort(), vec_locate_sorted_groups() and the radix orderings behind them) returns a permutation of all positions that is sorted under the requested per-column direction, missing-value position, NaN distinction and string collation proxy, with ties kept in original order; sorted group keys are unique and their locations partition the input in order. This holds for every type and key-column combination, and for every length and value range, whatever internal algorithm (counting, insertion or radix) is selected.",
  I, "all vectors up to a length over each alphabet with every option combination, and long structured vectors around every algorithm-selection threshold",
  "The algorithm is chosen by length, value range and pre-sortedness; tests only reach a few combinations and never the product with options.",
  src("order.c", "order-groups.c", "order-sortedness.c", "order-truelength.c", "order-collate.c", "order.h") + ["R/order.R"],
  [("MSD radix sort with group tracking", "src/order.c"), ("sortedness detection", "src/order-sortedness.c"), ("string ranks in truelength", "src/order-truelength.c")], ["vec_order()", "vec_sort()", "vec_locate_sorted_groups()"])
p("C08", "Ranks are the ranks of the sort order",
  "vec_rank() gives each element the min, max, sequential or dense rank it has in the sort order selected by direction, na_value, nan_distinct and collation. incomplete = \"na\" gives NA exactly to elements with a missing part and ranks the others as if those were absent.",
  I, "all vectors up to a length for every type x all option combinations",
  "Option product (ties x incomplete x direction x na_value x nan_distinct x type) is never covered by tests.",
  src("rank.c", "order.c") + ["R/rank.R"], [("rank assignment over sorted groups", "src/rank.c")], ["vec_rank()"])
p("C09", "Join matching returns exactly the nested-loop result",
  "vec_locate_matches() returns exactly the (needle, haystack) location pairs that a nested loop applying all conditions (==, >, >=, <, <=, per column) to every pair would produce, ordered by needle then haystack location, after applying filter (min/max), incomplete, multiple, no_match and remaining as documented. Every violated constraint (incomplete, multiple, no_match, remaining, relationship) is an error of its documented class and no other call fails.",
  I, "all pairs of small tables (1-3 columns) over small alphabets with missing values x all option values",
  "The algorithm sorts, nests containers and binary-searches; only the full product of tables and options shows that every branch agrees with the definition.",
  src("match.c", "match-joint.c", "match-compare.h") + ["R/match.R"],
  [("nested binary search per condition", "src/match.c df_locate_matches_recurse"), ("joint ranks", "src/match-joint.c")], ["vec_locate_matches()"])
p("C10", "Interval operations are exact set computations",
  "For intervals [start, end) the group, complement and container functions that vctrs offers to other packages return exactly the merged intervals, the uncovered gaps and the maximal containers implied by pointwise set computation: groups are disjoint, sorted, cover the same points, assign every input interval to one group, and treat abutting and missing intervals as requested.",
  I, "all multisets of up to 4 intervals over a small ordered domain with missing intervals, all options, several types",
  "Sweep algorithms depend on the relative order of all endpoints; tests use a few layouts.",
  src("interval.c", "order.c", "compare.h") + ["R/interval.R"], [("sorted sweep", "src/interval.c")], ["vec_interval_groups()", "vec_interval_locate_groups()", "vec_interval_complement()", "vec_interval_locate_containers()"])
p("C11", "Run functions describe the maximal runs of equal elements",
  "vec_identify_runs(), vec_run_sizes(), vec_unrep() and the run-bound helpers describe exactly the maximal runs of consecutive elements that are equal under vec_equal(na_equal = TRUE): ids increase by one at each boundary, sizes sum to the input size, and repeating the keys by times restores the input.",
  I, "all vectors up to a length for every type and row tuple",
  "All boundary patterns over equal-but-not-identical values and multi-column rows are needed.",
  src("runs.c") + ["R/runs.R"], [("column-wise run refinement", "src/runs.c")], ["vec_identify_runs()", "vec_run_sizes()", "vec_unrep()"])
p("C12", "Missingness, completeness and filling are exact",
  "vec_detect_missing() is TRUE exactly for elements that are missing in every part, vec_any_missing() is its disjunction, and vec_detect_complete() is TRUE exactly for elements with no missing part at any nesting depth. vec_fill_missing() replaces exactly the missing elements that have a non-missing element within max_fill positions in the stated direction by that nearest element and leaves all others untouched.",
  I, "all vectors up to a length for every type, all directions and max_fill values",
  "Requires all placements of missing parts over nested columns and every fill option.",
  src("missing.c", "complete.c", "fill.c") + ["R/missing.R", "R/complete.R", "R/fill.R"], [("per-type missing detection", "src/missing.c"), ("fill index computation", "src/fill.c")], ["vec_detect_missing()", "vec_detect_complete()", "vec_fill_missing()"])
p("C13", "Common type is a commutative, associative lattice operation",
  "vec_ptype2()/vec_ptype_common() depend only on the types (never the values or sizes) of their inputs, are idempotent, have NULL and unspecified as identities, and are commutative and associative up to the documented order-dependent metadata (order of factor levels and of data frame columns, time zone). Exactly the documented pairs have a common type, it is the documented one, and all other pairs are errors of class vctrs_error_incompatible_type; for data frames the rule applies column by column with the union of columns.",
  ["inputs", "programs"], "all pairs and triples of prototypes over base, array, data frame and S3 types",
  "An algebraic law over all pairs and triples of types, with more than 20 dispatch routes; tests check selected pairs.",
  src("ptype2.c", "ptype2-dispatch.c", "ptype-common.c", "ptype.c", "typeof2.c", "typeof2-s3.c", "type-data-frame.c", "unspecified.c", "shape.c") + ["R/type2.R", "R/type.R", "R/type-bare.R"],
  [("type lattice dispatch", "src/typeof2.c, src/typeof2-s3.c"), ("data frame column merge", "src/type-data-frame.c df_ptype2")], ["vec_ptype2()", "vec_ptype_common()", "vec_ptype()"])
p("C14", "Casts never silently change values",
  "vec_cast(x, to) returns a vector of the size of x with exactly the prototype of to (names are kept when the type does not change, and never altered), in which every element represents the same value (missing stays missing), or else fails: with a lossy-cast error naming every offending location when some value is not representable, or an incompatible-type error when there is no such cast. Casting to one's own type is the identity, casting inputs to their common type never fails on account of the type, and vec_cast_common() agrees with vec_ptype_common() followed by vec_cast().",
  I, "all type pairs x all short vectors over alphabets of boundary values, at top level, in arrays, and in (nested) data frame columns",
  "Value preservation at the numeric boundaries must hold for every element position and every type pair.",
  src("cast.c", "cast-bare.c", "cast-dispatch.c", "type-integer64.c", "type-data-frame.c", "type-tibble.c") + ["R/cast.R", "R/type-bare.R", "R/type-integer64.R", "R/type-data-frame.R"],
  [("checked element conversion", "src/cast-bare.c"), ("lossy cast conditions", "R/conditions.R maybe_lossy_cast")], ["vec_cast()", "vec_cast_common()"])
p("C15", "Combining and casting factors preserves labels",
  "Whenever factors (or factors and strings) are combined, cast, assigned or matched, each element keeps the label it had: the common type of factors has the union of levels in order of first appearance, codes are remapped accordingly, and a cast to a factor fails with a lossy error exactly if some used label is not a level. Ordered factors only combine with ordered factors of the same levels.",
  I, "all level orders over a small label set (with encodings, NA level) x all code vectors up to a length, all pairs and triples",
  "Level remapping depends on the relation of the two level sets (subset, prefix, permutation, disjoint); tests cover a few relations.",
  src("type-factor.c", "translate.c") + ["R/type-factor.R"], [("level union and code remap", "src/type-factor.c")], ["vec_c()", "vec_cast()", "vec_ptype2()"])
p("C16", "Date-time conversions preserve the instant or fail",
  "Casts and combinations among Date, POSIXct and POSIXlt keep the represented calendar day (from Date) or instant (between date-times), whatever the time zone and storage type, and casting a date-time that is not midnight in its own time zone to Date is a lossy error. The common type of date-times is POSIXct with the first non-local time zone; constructed dates, date-times and durations are always stored as doubles with the documented attributes.",
  I, "all pairs of date-time types x time zones (with DST changes) x storage types x boundary instants",
  "Time zones and DST transitions interact with every cast; tests use a few instants.",
  src("type-date-time.c") + ["R/type-date-time.R"], [("date-time casts", "src/type-date-time.c")], ["vec_cast()", "vec_c()", "vec_ptype2()", "new_date()", "new_datetime()", "new_duration()"])
p("C17", "Array shapes follow the recycling rules on every dimension",
  "The common type of arrays has on each dimension after the first the common size of the inputs' dimensions (1 recycles, anything else must agree, missing trailing dimensions count as 1), and casting to it repeats cells exactly along recycled dimensions. Shapes that cannot be broadcast are errors, never truncation.",
  I, "all pairs of shapes up to 4 dimensions with extents 0..3, several storage types",
  "Broadcast correctness is a statement about all shape pairs and all cells.",
  src("shape.c", "dim.c", "dim.h", "strides.h") + ["R/shape.R", "R/dim.R"], [("shape union and broadcast", "src/shape.c, R/shape.R")], ["vec_ptype2()", "vec_cast()", "vec_c()"])
p("C18", "Size and recycling rules are exact",
  "vec_size() is the number of observations of every vector type and an error for non-vectors; vec_size_common() and vec_recycle_common() follow the size-1 recycling rule for any number and order of inputs (NULL ignored, .size honoured) and return every input recycled to exactly the common size or an error of class vctrs_error_incompatible_size. vec_recycle() keeps values, names and type, and list_sizes() / list size checks agree with vec_size().",
  I, "all tuples of up to 4 input sizes including NULL and 0, for all vector kinds, with and without .size / .absent",
  "Reduction order and the combination of 0, 1, n and NULL inputs need full enumeration.",
  src("size.c", "size-common.c", "size.h", "arg-counter.c", "assert.c") + ["R/size.R", "R/recycle.R"], [("size reduction", "src/size-common.c")], ["vec_size()", "vec_size_common()", "vec_recycle()", "vec_recycle_common()", "list_sizes()"])
p("C19", "Subscripts resolve to the documented locations or fail",
  "vec_as_location(), vec_as_location2(), num_as_location(), num_as_location2() and vec_as_subscript() convert every logical, numeric, character, factor, negative, zero, missing, named or empty subscript to exactly the integer locations the documentation defines for (i, n, names, options). All others fail with an error of the documented class (out of bounds, wrong type, wrong size, missing, mixed signs), for every combination of missing, negative, oob and zero options.",
  I, "all subscripts up to a length over an alphabet of boundary values x all vector sizes up to a bound x all option combinations",
  "Product of subscript contents and five options; tests cover single interesting elements.",
  src("subscript.c", "subscript-loc.c", "utils.c") + ["R/subscript.R", "R/subscript-loc.R"], [("location conversion", "src/subscript-loc.c")], ["vec_as_location()", "num_as_location()", "vec_as_location2()", "vec_as_subscript()"])
p("C20", "Slicing returns exactly the selected elements",
  "vec_slice(x, i) returns a vector of the same type and attributes as x whose elements, names, row names and cells are those of x at the resolved locations, in order, with missing locations giving missing elements, for every vector type, dimensionality and subscript type. vec_init(x, n) gives n missing elements of that type, and slicing composes: slicing twice equals slicing once by the composed locations.",
  I, "all vectors up to a length of every type x all subscripts up to a length incl. NA, 0, negative, logical, names",
  "All positions x all types x internal compact subscripts are needed.",
  src("slice.c", "slice-array.c", "strides.h", "empty.c", "altrep-rle.c", "names.c") + ["R/slice.R"], [("typed slice loops and compact subscripts", "src/slice.c"), ("array slicing by strides", "src/slice-array.c")], ["vec_slice()", "vec_init()", "vec_slice<-"])
p("C21", "Assignment replaces exactly the selected elements",
  "vec_assign(x, i, value) (and vec_slice<-) returns a vector of the type of x in which exactly the located elements are replaced by the recycled value cast to the type of x, the last of repeated locations winning, and every other element, name and attribute is unchanged. A value that cannot be cast losslessly, a size mismatch or a bad location is an error.",
  I, "all vectors up to a length of every type x all subscripts x all values (size 1 or matching) incl. coercible types",
  "All positions, types and repeated or missing locations are needed.",
  src("slice-assign.c", "slice-assign-array.c", "owned.h") + ["R/slice.R"], [("typed assign loops", "src/slice-assign.c"), ("array assignment by strides", "src/slice-assign-array.c")], ["vec_assign()", "vec_slice<-"])
p("C22", "Chopping and unchopping are inverse",
  "vec_chop(x, indices) or vec_chop(x, sizes = ) is the list of slices of x at those locations, and list_unchop(xs, indices = ) puts every element of the (cast) pieces at its location, recycling size-1 pieces, with uncovered locations missing and the last writer winning; unchopping what was chopped at a partition restores x with names. The result has the common type of the pieces (or ptype) and is an error for invalid locations or sizes.",
  I, "all partitions, overlapping and incomplete index lists of vectors up to a length for every type, all sizes compositions",
  "Needs all index list shapes for all types; tests use a few.",
  src("slice-chop.c", "c-unchop.c") + ["R/slice-chop.R"], [("chop", "src/slice-chop.c"), ("unchop", "src/c-unchop.c")], ["vec_chop()", "list_unchop()"])
p("C23", "Combining concatenates in order in the common type",
  "vec_c(...) has the common type of its inputs (or .ptype) and a size that is the sum of their sizes, and its elements are those of the inputs cast to that type, in order; it is associative and NULL inputs have no effect. Inner and outer names are kept, combined by .name_spec and repaired as documented; outer names without a usable rule are errors.",
  ["inputs", "histories"], "all tuples of up to 3 inputs over types x sizes x naming patterns, every regrouping",
  "Associativity and naming rules quantify over all groupings and naming patterns.",
  src("c.c", "c.h", "names.c", "ptype-common.c") + ["R/c.R", "R/names.R"], [("concatenation", "src/c.c vec_c_opts"), ("name spec", "src/names.c apply_name_spec")], ["vec_c()"])
p("C24", "Row-binding stacks every row exactly once",
  "vec_rbind() returns a data frame whose columns are the union of the inputs' columns in order of first appearance with common types, whose rows are the rows of the inputs in order with missing values where an input lacks a column, and whose identifier column and row names follow .names_to and .name_spec. Vectors are rows; NULL inputs add nothing; incompatible columns are errors.",
  I, "all tuples of up to 3 inputs over column subsets, column orders, row counts, row names, vectors and nested data frames",
  "Column matching by name across all column orders and naming combinations is a product tests do not cover.",
  src("bind.c", "type-data-frame.c", "names.c") + ["R/bind.R"], [("row binding", "src/bind.c vec_rbind")], ["vec_rbind()"])
p("C25", "Column-binding and construction give valid data frames",
  "vec_cbind(), data_frame(), df_list() and new_data_frame() produce columns in argument order with values recycled to the common size, unnamed data frames spliced (or named ones packed / unpacked as documented) and names repaired as requested. Incompatible sizes, invalid columns or bad names are errors.",
  I, "all tuples of up to 3 inputs over kinds (vector, matrix, data frame, NULL) x sizes x names x repair options",
  "Combination of splicing, recycling and naming rules over argument tuples.",
  src("bind.c", "type-data-frame.c", "names.c") + ["R/bind.R", "R/type-data-frame.R"], [("column binding", "src/bind.c vec_cbind"), ("df_list", "src/type-data-frame.c")], ["vec_cbind()", "data_frame()", "df_list()", "new_data_frame()"])
p("C26", "Name repair yields valid, stable names",
  "vec_as_names(repair = \"unique\") yields non-empty, unique names that are neither ... nor of the form ..j, never changes a name that already qualifies (a positional suffix ...j left by an earlier repair is first removed), and is idempotent; \"universal\" names are also syntactic, \"minimal\" only replaces missing by empty and \"check_unique\" fails exactly when names are not already unique and valid. vec_names(), vec_names2() and vec_set_names() read and write names (or row names) faithfully for every type.",
  I, "all name vectors up to a length over an alphabet of problematic names (duplicates, empty, NA, ..., ..1, suffix clashes, reserved words, non-ASCII)",
  "Repair interacts across positions (suffixes may collide with existing names); needs all combinations.",
  src("names.c") + ["R/names.R"], [("suffix stripping and appending", "src/names.c as_unique_names_impl")], ["vec_as_names()", "vec_names2()", "vec_set_names()"])
p("C27", "Repetition, grids and interleaving place elements exactly",
  "vec_rep(x, times) repeats the whole vector, vec_rep_each(x, times) each element by its own count, vec_expand_grid() enumerates the cartesian product in the requested variation order and vec_interleave() alternates its recycled inputs, for every type, keeping names and type. Invalid counts and sizes that would overflow are errors.",
  I, "all vectors up to a length of every type x all times vectors x up to 4 grid inputs",
  "Index arithmetic must be right for all counts including 0 and near-overflow.",
  src("rep.c", "expand.c", "slice-interleave.c") + ["R/rep.R", "R/expand.R", "R/slice-interleave.R"], [("rep index filling", "src/rep.c"), ("grid", "src/expand.c")], ["vec_rep()", "vec_rep_each()", "vec_expand_grid()", "vec_interleave()"])
p("C28", "Inputs are never modified",
  "No exported function, whether it succeeds or fails, changes any object passed to it or reachable from it (elements, attributes, names, columns, levels, shared list elements), and no later operation on a result changes an earlier input or result. This holds for every sequence of operations, sharing pattern and reference state.",
  ["histories", "inputs"], "all operation sequences up to a depth over shared vectors of every type, with aliasing between arguments",
  "In-place optimisations depend on reference counts and ownership; aliasing bugs need particular histories that single-call tests do not create.",
  src("slice-assign.c", "owned.h", "proxy-restore.c", "utils.c", "names.c", "fields.c", "c.c", "bind.c", "type-data-frame.c") + ["R/slice.R"],
  [("copy unless owned / unreferenced", "src/owned.h, src/slice-assign.c vec_proxy_assign_opts"), ("attribute cloning", "src/utils.c")], ["all exported functions"])
p("C29", "A failure at any point leaves no trace",
  "If an operation is cut short at any allocation, user-interrupt check or call into user code (S3 method, name repair function) by an error, all inputs and all package state are as before: the same call made again gives the same result as if the failure had not happened, and so does every other call.",
  ["fault_sequences", "histories"], "every single fault point of every scenario (error at the k-th allocation, interrupt check or callback, for all k)",
  "Tests never inject failures; temporary global marks (string truelengths, owned buffers) are only wrong after an abrupt exit.",
  src("order-truelength.c", "order.c", "rank.c", "match.c", "c.c", "slice-assign.c", "dictionary.c", "lazy.h"),
  [("truelength reset on error", "src/order-truelength.c"), ("protected temporaries", "throughout")], ["all exported functions"])
p("C30", "Results do not depend on when garbage collection runs",
  "Every operation gives the same result whether or not a garbage collection happens at any allocation it makes; no live object is released early.",
  ["schedules", "inputs"], "a collection at every allocation point (all at once, and each k-th alone) of every scenario",
  "A missing protection only shows if a collection hits one particular allocation; normal test runs collect rarely.",
  src("c.c", "bind.c", "slice-chop.c", "match.c", "interval.c", "names.c", "proxy-restore.c", "dictionary.c", "group.c"), [("PROTECT / KEEP discipline", "throughout src/")], ["all exported functions"])
p("C31", "No operation touches memory outside its vectors",
  "No call of an exported function, valid or erroneous, of any input size reads or writes outside the vectors it was given or allocated, or uses memory after it was released.",
  I, "bounded enumeration of inputs of all types and sizes including 0, with every vector allocation fenced",
  "Out-of-bounds reads usually give right answers, so assertions on results cannot see them.",
  src("order.c", "match.c", "interval.c", "slice-array.c", "slice-assign-array.c", "rep.c", "dictionary.c", "runs.c", "fill.c"), [("explicit bounds in C loops", "throughout src/")], ["all exported functions"])
p("C32", "Classed vectors keep their class and attributes through every operation",
  "For an S3 vector with a proxy and restore method, every size-changing or combining operation works on the proxy and gives back a vector restored with the class's method exactly once on the final data, and vec_restore(vec_proxy(x), x) is x. Without methods, all attributes other than names, dims and row names are carried over unchanged; classes without a common type method only combine with identical classes, falling back to the base or c() method where documented.",
  ["inputs", "histories"], "all operations x a family of class definitions (which methods exist, what they return) x sizes",
  "The set of operations that must call the protocol is large, and tests check a few classes per operation.",
  src("proxy.c", "proxy-restore.c", "ptype2-dispatch.c", "cast-dispatch.c", "slice.c", "c.c") + ["R/proxy.R", "R/type-vctr.R"], [("proxy / restore", "src/proxy.c, src/proxy-restore.c"), ("fallback dispatch", "R/type2.R, src/c.c")], ["vec_proxy()", "vec_restore()", "vec_slice()", "vec_c()"])
p("C33", "Base generics on vctr classes agree with the vctrs operations",
  "For classes built with new_vctr() or new_rcrd(), base R generics ([, [[, $, [<-, [[<-, c, rep, length<-, names<-, unique, duplicated, is.na, comparison operators, sort, order, min/max/range, as.list, seq_along, head, t, ...) give the same elements as the corresponding operation on the underlying vector, keep the class, and enforce its type on assignment. Any sequence of such operations stays in step with the same sequence on the plain reference.",
  ["histories", "inputs"], "all operation sequences up to a depth on vctr (double, character, list) and record vectors",
  "A bisimulation over operation sequences; tests try single calls.",
  ["R/type-vctr.R", "R/type-rcrd.R", "R/type-sclr.R", "src/fields.c", "src/utils.c"], [("S3 methods for vctrs_vctr / vctrs_rcrd", "R/type-vctr.R, R/type-rcrd.R")], ["base generics"])
p("C34", "Typed lists only ever hold elements of their type",
  "Every element of a list_of is NULL or has exactly the list's element type, whatever sequence of construction, assignment ([<-, [[<-, $<-), combination, slicing, chopping and conversion produced it. Elements that cannot be cast to that type are rejected with an error and leave the list unchanged.",
  ["histories"], "all operation sequences up to a depth from all small lists with every element alphabet",
  "An invariant of reachable states under operation sequences.",
  ["R/type-list-of.R", "src/c.c", "src/slice-assign.c"], [("cast on assignment", "R/type-list-of.R")], ["list_of()", "as_list_of()", "[[<-"])
p("C35", "Every data frame produced is well-formed",
  "Every data frame returned by any operation, from any sequence of operations, has columns that are vectors all of the same size as its row names, unique non-missing character row names (or compact ones), one non-missing name per column, and the class of its inputs; the same holds recursively for data frame columns.",
  ["histories"], "all operation sequences up to a depth starting from data frames of several shapes (0 columns, 0 rows, nested, with row names, tibbles)",
  "A structural invariant of all reachable states.",
  src("type-data-frame.c", "slice.c", "proxy-restore.c", "bind.c", "slice-assign.c", "slice-chop.c") + ["R/type-data-frame.R"], [("restore with recomputed row names", "src/type-data-frame.c, src/proxy-restore.c")], ["all data frame results"])
p("C36", "Arithmetic on dates, durations and vctrs classes is type-checked and exact",
  "vec_arith() on numeric, logical, Date, POSIXct, difftime and vctr classes returns the documented result type for exactly the documented operator and operand pairs, with the values base arithmetic on the underlying numbers gives (units respected), and fails with class vctrs_error_incompatible_op otherwise. Operands are recycled by the vctrs rules, never by base recycling.",
  I, "all operators x all operand type pairs x small value and size combinations",
  "The operator x type x type table has several hundred entries; tests check a part.",
  ["R/arith.R", "R/numeric.R", "R/type-date-time.R", "R/type-vctr.R"], [("double dispatch arithmetic", "R/arith.R")], ["vec_arith()", "vec_math()", "operators"])
p("C37", "Internal representation is invisible",
  "Every operation gives the same result for a vector regardless of how it is represented: compact ALTREP sequences, deferred strings, wrapped or lazily materialised vectors, run-length subscripts, compact or expanded row names, mixed string encodings, integer or double storage of dates, and shared or fresh objects.",
  ["inputs", "histories"], "all operations x all representation variants of the same value, before and after materialisation",
  "Tests rarely pair the same value in two representations.",
  src("altrep-rle.c", "altrep-lazy-character.c", "slice.c", "translate.c", "altrep.h", "rep.c"), [("ALTREP classes and materialisation", "src/altrep-*.c"), ("encoding normalisation", "src/translate.c")], ["all exported functions"])
p("C38", "Predicates and assertions agree",
  "obj_is_vector(), obj_is_list(), vec_is(), vec_is_empty(), list_all_vectors(), list_all_size() answer exactly by the documented definitions for every R object, and the checking versions (obj_check_vector(), obj_check_list(), vec_assert(), vec_check_size(), list_check_all_vectors(), list_check_all_size()) succeed exactly when the predicate is TRUE, failing with the documented class otherwise. Functions that need a vector reject every non-vector with vctrs_error_scalar_type instead of computing.",
  I, "a closed universe of R objects of every type and class pattern x every predicate",
  "Agreement of two families over all kinds of objects.",
  src("assert.c", "type-info.c", "size.c", "utils.c", "empty.c") + ["R/assert.R"], [("object classification", "src/type-info.c")], ["obj_is_vector()", "vec_assert()", "list_check_*()"])
p("C39", "Partial and unspecified types resolve only as promised",
  "A logical vector of only NA (and unspecified()) takes on any type it meets in combination, cast or assignment, and becomes logical if nothing else specifies it; partial_frame() and partial_factor() contribute exactly their columns or levels when combined with a full type and cannot be used as data. Finalising a prototype leaves no unspecified or partial column, in data frames nested to any depth.",
  I, "all vectors of NA up to a length x all types, nested in data frames to a depth; all partial x full combinations",
  "Unspecified handling is special-cased in every type operation.",
  src("unspecified.c", "ptype.c", "ptype-common.c", "type-data-frame.c") + ["R/type-unspecified.R", "R/partial-frame.R", "R/partial-factor.R", "R/partial.R"], [("unspecified identity", "src/unspecified.c"), ("finalisation", "src/ptype.c")], ["vec_ptype_common()", "vec_ptype_finalise()", "vec_c()"])
p("C40", "Scalar accessors and field functions are faithful",
  "field(), field<-, fields(), n_fields() and new_rcrd() read and write exactly the addressed field, keep every field the same size and unique non-empty field names, and reject anything else. new_vctr(), new_factor(), new_ordered(), new_list_of(), new_date(), new_datetime() and new_duration() either build an object satisfying their documented invariants or fail.",
  I, "all constructor argument combinations over small alphabets of valid and invalid pieces",
  "Constructor validation must hold for every combination of arguments.",
  src("fields.c", "type-date-time.c") + ["R/fields.R", "R/type-rcrd.R", "R/type-vctr.R", "R/type-factor.R", "R/type-list-of.R"], [("constructor checks", "R/type-*.R"), ("field access", "src/fields.c")], ["field()", "new_*()"])
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(root, "properties.jsonl"), "w") as w:
    for q in P:
        assert len(q["title"]) <= 80, q["title"]
        for f in q["anchors"]["files"]:
            assert os.path.exists("/repo/" + f), f
        w.write(json.dumps(q) + "\n")
print(len(P), "properties")
