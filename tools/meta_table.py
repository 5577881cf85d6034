NA = {}
SEQ = "a state is a vector over a finite alphabet of elements of one type (all missing kinds, signed zeros, encodings, duplicates); every sequence up to the length bound is built, plus structured vectors of every length around the table-growth and algorithm-selection thresholds; a transition is one call with one combination of arguments"
c("C01", SEQ + "; equality is evaluated on every ordered pair and every triple of elements.", "all pairs/triples of every alphabet (46 element types incl. nested data frames, lists, records, arrays, S3 with methods), all cross-type pairs of compatible types, na_equal TRUE/FALSE, recycling 0/1/n")
c("C02", SEQ + "; comparison is evaluated on every ordered pair.", "all pairs/triples of every ordered alphabet, na_equal TRUE/FALSE, cross-type pairs, string encodings")
c("C03", SEQ + ".", "sequences up to 4000 (quick) / 60000 (thorough) per type, lengths at every hash-table growth boundary", "The relative order of NA and NaN keys under sort = 'key', and the order under 'none', are left open as the documentation does.")
c("C04", SEQ + "; needles and haystack are enumerated jointly.", "all pairs of sequences up to the length bound per type, both na_equal values, cross-type pairs, long structured haystacks")
c("C05", SEQ + "; x and y are enumerated jointly.", "all pairs of sequences up to the length bound per type, four operations, ptype menu, cross-type pairs")
c("C06", SEQ + ".", "all sequences up to the length bound per type, split/group/rle functions, long structured vectors")
c("C07", SEQ + "; every combination of direction, na_value, nan_distinct and collation argument is applied.", "all sequences up to the length bound per type and all 1-, 2- and 3-column data frames over small columns, structured vectors across the insertion / counting / radix thresholds", "Run on two builds: as shipped, and with VCTRS_VERIF's small thresholds so that short inputs reach the radix and counting paths.", builds=["plain", "small"])
c("C11", SEQ + ".", "all sequences up to the length bound per type, long structured vectors")
c("C12", SEQ + "; fills with every direction and max_fill.", "all sequences up to the length bound per type, direction x max_fill 0..3/NULL/Inf-like and invalid values, scalar rejection")

c("C08", SEQ + "; every combination of ties, incomplete, direction, na_value, nan_distinct is applied.", "all sequences up to the length bound per type, two-column data frames, structured vectors across the sort thresholds")
c("C09", "a state is a (needles, haystack, conditions, filters, options) tuple over tables of small integer/double/string/... columns with all missing kinds; a transition is one call, compared with a nested loop over all pairs.", "all pairs of one-column tables up to the length bound (5 conditions x 3 filters x incomplete x multiple), all haystacks of up to 2-3 rows of two int columns for all 25 condition pairs and filters, all sorted 3-row haystacks of three columns, the full option product on chosen shapes, tables of every length to 40/150, 46 element types for equality")
c("C10", "a state is a sequence of intervals over a small set of points (all pairs a < b, and missing); a transition is one of group / locate-groups / complement (every pair of bounds) / containers; the model computes on unit cells.", "all sequences of up to 2-4 intervals over 4-6 points in 13 element types, long structured inputs up to 300/3000", "The order of locations within a group is left open.")
c("C13", "a state is a tuple of types from a universe of 60 (bare, factor, date-time, duration, integer64, typed lists, frames, records, S3, arrays), each realised by several vectors of different sizes and contents; a transition is one common-type computation, compared with a left fold of the documented coercion table.", "all pairs of types (x all realisations), all triples of a 29-type core (60 in thorough), all argument lists up to length 4-6 over 6 types incl. NULL, all pairs/triples of level sequences over 3 labels, all pairs of data frames over 2 columns x 4 types in both orders", "Prototypes are compared up to empty names and the storage of empty row names; list_of combined with list arrays is left out (typed lists have no array form).")
c("C14", "a state is a vector of edge values of one type together with a target type; a transition is one cast, compared with a value-by-value reference (result, every lossy location, or no such cast).", "all 59 x 59 (from, to) types; for allowed casts every sequence of up to 2-3 edge values of the source alphabet (signed zeros, NaN, 2^31, 2^53+, 1e300, ...), named and unnamed, targets with and without values; vec_cast_common over all compatible pairs, explicit .to over all numeric pairs; long vectors with one offending location", "Names may be dropped by a cast that changes the type (vctrs documents only size and prototype); an unspecified (all NA logical) vector is initialised from the target. integer64 to logical is truthiness, as pinned by the existing tests; list_of with list arrays left out.")
c("C15", "a state is a tuple of factors (level sequence, codes) over a small label set; a transition is one operation (combine, cast, assign, match, compare, set operation, row-bind, unchop), compared with the same operation on the labels.", "all pairs of level sequences over 3 labels x all code vectors up to length 2 (incl. missing), all triples of level sequences, folds of up to 4-5 factors, ordered factors, encodings, up to 2000/70000 levels", "Known finding: writing into a factor without levels.")
c("C16", "a state is a (date or instant, zone, storage, class) tuple; a transition is one cast, combination, comparison, match or assignment, compared with base R's zone tables for the calendar day and the instant.", "instants every half hour around 22 key days (DST changes, skipped days, leap days, pre-Gregorian, 2038) x 7 zones x {double, integer, POSIXlt}; every day of 383 years in 3 zones; all zone pairs; all argument lists up to length 4-5 over 5 date/date-time types; all duration unit pairs; two other session zones", "Known finding: dates whose midnight is skipped by a DST change are cast to the previous day.")
c("C17", "a state is a pair (triple) of dimension vectors with arrays whose cells are all distinct; a transition is one cast, common type, combination or assignment, compared with a cell-by-cell broadcast.", "all pairs of shapes with up to 3 trailing dimensions of extents 0..3 (0..2 in three dimensions) x 0..2-3 rows, 7 storage types over all 2-dimensional shapes, all triples of 2-dimensional shapes, all assignments of up to two locations")
c("C18", "a state is a vector of some size and type, or a list of sizes; a transition is one size / recycling operation, compared with the size-1 rule.", "sizes 0..6, 255, 256, 1000 of every type, named or not; every list of up to 4-6 sizes from {NULL,0,1,2,3} (with .size, .absent); every array shape with up to 3 trailing dimensions; invalid sizes; non-vectors; sizes up to 2^31-1")
c("C19", "a state is a (subscript, n, names, options) tuple; a transition is one resolution, compared with the documented locations or the documented error class (any applicable one when several faults coincide).", "numeric subscripts: all vectors up to length 3 over {-3..4, NA} (thorough -4..5, NA, n 0..3) x all 81 option combinations, as integer and double; logical subscripts: all patterns up to length 6-8, every n; character subscripts: all pairs over {a, b, '', NA, two encodings} x all name vectors up to length 3; scalar locations with every option; 24 accepted and 29 rejected subscript types; extension orders up to 1000/100000")
c("C20", "a state is a (vector, location vector) pair; a transition is one slice (or initialisation, or two slices composed), compared with an element-by-element reference that carries names, row names, dim names and every attribute.", "every type of the universe (46 element types), all vectors of up to 4 symbols x all location vectors of length up to 3 over {1..n, NA}, logical / negative / character / factor / double forms, every pair of location vectors composed, all compact ranges of a size-7 vector, structured vectors of every threshold length, unusual attributes")
c("C21", "a state is a (vector, location vector, value) triple, or a history of assignments; a transition is one vec_assign() / vec_slice<-, compared with an element-by-element reference.", "every type of the universe, vectors of up to 3 elements x all location vectors of length up to 3 over {1..n, NA} x values, all (target type, value type) pairs of a universe of 60 types, every history of 3-4 assignments out of 12, structured vectors of every threshold length", "Names that an overwriting unnamed value leaves behind are those of the assigned vector.")
c("C22", "a state is a list of pieces with a list of location vectors (or sizes); a transition is one chop or unchop, compared with element-by-element slicing and assignment.", "every type: all compositions of sizes up to 4 into up to 3-4 parts, all pairs of location vectors, every partition of up to 4-5 locations into up to 3 groups (in two orders) chopped and unchopped, all pairs of pieces of sizes 0-2 (or NULL) at all pairs of location vectors (overlapping, missing, out of bounds, recycled) with inner names, every outer/inner name and name_spec combination, long vectors", "The name left at a location that a later unnamed piece overwrites is left open for classes combined by base c().")
c("C23", "a state is a list of inputs (types, sizes, NULLs, inner and outer names, name_spec); a transition is one vec_c() / vec_cbind-free concatenation, compared with cast-to-common-type and element-by-element concatenation.", "all argument lists up to length 3-4 over vectors of sizes 0-2 of every type incl. NULL, all pairs of a 60-type universe, every inner/outer name combination and name_spec", "Classes combined by base c() keep whatever names that method gives.")
c("C24", "a state is a list of tables / vectors to bind by row (types, sizes, column sets and orders, names, names_to, name repair); a transition is one vec_rbind() call, compared with a cell-by-cell model over the union of columns.", "all pairs and triples of small tables over 3 columns in every order x sizes 0-2 x row names, all pairs of column types of the universe, all name / names_to / ptype combinations", "With .names_to = NULL and only empty outer names, whether row names are stored is left open; list_of next to list arrays left out.")
c("C25", "a state is a list of columns / tables to bind by column or to build a frame from; a transition is one vec_cbind() / data_frame() / new_data_frame() / df_list() call, compared with a column-by-column model (recycling, packing, name repair, row names).", "all argument lists up to length 3 over vectors, frames, packed frames and NULLs of sizes 0-3, named and not, x four name repairs x .size", "")
c("C26", "a state is a name vector (with a repair strategy), or a vector of some type with old and new names; a transition is one vec_as_names() / vec_names() / vec_names2() / vec_set_names() call, compared with the documented repair rules.", "all name vectors up to length 3 over 28 problematic names (empty, missing, ..., ..j, ...j, suffixed, encodings, reserved words), up to length 4-5 over 9, universal repair of all vectors up to length 2-3 over 24; every type with all name vectors up to length 3 over 5 names; repair functions (good and bad); up to 4000/60000 names", "Names whose number has leading zeros (..0, ...01) are left open; so is idempotence of universal repair for names that are numbers, where the existing tests pin the result.")
c("C27", "a state is a vector with repetition counts, or a list of inputs; a transition is one vec_rep() / vec_rep_each() / vec_expand_grid() / vec_interleave() call, compared with element-by-element placement.", "every type: all vectors of up to 4 elements (by alphabet size) x times 0..3 (0..5), all count vectors over 0..2 (0..3), all grids of three inputs and all size vectors of up to 4 (5) inputs of sizes 0..3 in both orders, all interleavings of up to 3 (4) pieces of sizes 0..3 or NULL with inner / outer names, all pairs of a 57-type universe, invalid and overflowing counts", "vec_rep(NULL, 1) is left open.")
c("C28", "a state is a heap of named objects (a vector, lists, a frame and subscripts that share it, the latest result); a transition is one expression from a menu of 150 vctrs and base operations evaluated in that heap, or one of 35 in-place changes of the result; after every transition every other object is compared with its deep copy. States are identified by value and aliasing pattern.", "every type x 2 (4) shapes, all sequences of two operations, and of one operation and one in-place change; package constants compared at the end", "Results are only compared with their own copies, so what they should be is decided by the other checks.")
c("C29", "a state is a (call, point) pair, where the points of a call are all its requests to R that can fail (allocation, attribute, symbol, string, evaluation of an S3 method or callback); a transition is one execution that fails at exactly that point, followed by a comparison of all inputs with deep copies, the same call again, and other calls.", "190 calls covering the exported functions x every type; every single point of every call that succeeds without fault (the first four of calls that fail anyway, all of them for three types)", "The points are reached by interposing R's entry points at link time in a private build; failures inside base R code called by vctrs are represented by failing the evaluation itself.", builds=["hook"])
c("C30", "a state is a (call, point) pair; a transition is one execution in which memory is collected inside exactly that allocation (or at every one), after which everything released is overwritten; the result has to be the one without collection. Vectors live in blocks of their own under AddressSanitizer, so that any use of a released one ends the process.", "190 calls covering the exported functions x every type; every single allocation, attribute or evaluation point, and all at once", "Collections are triggered inside R's own entry points, where R may collect at any time.", builds=["hookasan"], job_limit=120, fast_fail=True)
c("C31", "a state is a call with its arguments; a transition is one execution of it in which every vector of the package and of the caller is a block of exactly its size (header and slack poisoned) under AddressSanitizer, done twice with different contents of fresh memory: any access outside, any use of released memory, and any result that depends on fresh memory is reported.", "240 calls (valid and erroneous) covering the exported functions x every type x 2-3 element patterns (named and not) x sizes 0..3, 8, 9, 33, 129 in the released configuration and 0..5, 7 with tiny algorithm thresholds", "Accesses made inside R's own functions are only seen when they go through memcpy and the like.", builds=["hookasan", "hooksmallasan"], job_limit=200, fast_fail=True)
c("C32", "a state is a vector of a class (with its coercion partners); a transition is one operation, whose result is decoded and compared with the same operation on the plain numbers (classes store an encoding of their values, so a proxy or restore that is skipped or repeated changes them, and count the elements at restoration), or whose attributes are compared with those of its operand.", "5 stored forms x proxies (double, data frame, list, character) x with / without coercion methods, all vectors up to length 3 (4) over {1, 2, NA} x 3 partners x ~110 calls (also inside frames, records and lists); all 8 subsets of the equality / comparison / order proxies; 7 base types x 8 attribute sets x 46 calls; all pairs of 42 class / attribute / type combinations x 20 calls", "Data frame subclasses are restored after their columns (restore then sees a classed frame), and vec_ptype_finalise() of one restores without taking the proxy: both are left out.", )
c("C33", "a state is a vector of a vctr class (double with coercions, integer, character, list) or record class, next to the plain vector it stands for; a transition is one base R generic applied to both (about 130 argument choices per state), whose results have to be equal under the encoding; histories are explored as sequences of transitions carrying both along.", "all vectors up to length 3 (4) over 3-4 elements incl. missing, with 3 namings x every generic x every argument of the menu; every sequence of 3 (4) operations out of 20 from two starting vectors; wrong types and unsupported generics", "Which missing value min/max/range return when both NA and NaN occur is left open, as in R.")
c("C34", "a state is a typed list (element type, elements, names); a transition is one construction, modification, combination, cast or slice, compared with the same operation on the plain list after casting every value to the element type; every typed list that comes out is checked element by element.", "13 element types x 25 candidate elements (compatible, lossy, incompatible, NULL, NA, non-vectors): all constructions of up to 2 elements, every state of up to 2 (3) elements with 2 namings x every modification, recursive indices, all casts between typed lists, all pairs of a 57-type universe for inference, every sequence of 3 (4) operations out of 16", "Assigning NULL with `$<-` deletes the element (only `[[<-` is documented to keep it); base R's own in-place changes of an element that make it an invalid object of its class are not represented.")
c("C35", "a state is a data frame (value and attributes); transitions are 90 operations that return data frames; states are explored breadth first with duplicates merged, and every returned frame is checked for well-formedness at every depth, for its class and for its number of rows.", "26 starting frames (no columns, no rows, row names, tibbles, nested to depth 3, matrix / list / record columns, duplicated and empty names): all sequences of 2 (3) operations; every ordered pair of frames through 17 combining operations; a subclass without methods through 25 operations", "Operations may fail on frames with duplicated, empty or positional (...1) column names, which name repair changes.")
c("C36", "a state is a pair of operands (kind, numbers, names); a transition is one operator applied to them through vec_arith() (and the operator itself), whose result class, units, values and names, or error class, have to be those of a table of permitted pairs with base arithmetic on the numbers, one cell at a time.", "all ordered pairs of 18 operand kinds (numbers, dates, date-times in three zones and storages, durations in five units) x all sizes 0..3 x named or not x 8 operators x all value patterns of up to 2-3 elements, every refused pair with 17 other kinds of object, unary operators, vec_math() of every kind, vctr classes with their own methods", "Integer-stored durations with numbers, `&` / `|` between numbers and durations, and names of zero-size results are left open.")
c("C37", "a state is a representation of a value (ALTREP compact / deferred / wrapped / run-length / lazy before and after it is forced, growable, mixed encodings, row names stored in four ways, attributes in reverse order, integer dates); a transition is one of 200 operations evaluated on it in a heap of shared objects, twice; the outcome has to be that on the plain representation, and nothing may have been modified.", "45 base values x all their representations x four positions (first operand, second, both, column) x all operations; the other operands and subscripts in other representations", "vec_hash() and the label of factors in messages are left out (an internal digest depends on the encoding by design)."),
c("C38", "a state is an object of a closed universe (storage type x class pattern x size: atomic, list, data frame, proxied classes, S4, functions, language, pairlists, environments, language objects) with a size or prototype argument, or a list of up to 3 (quick 2) such objects; a transition is one predicate, one assertion, or one of ~130 calls with the object in a vector argument, compared with the documented definition of a vector / a list.", "~600 objects x all predicates; sizes 0..3 as integer and double; all pairs of 40+ types for vec_is()/vec_assert(); 25 kinds of scalars x ~130 calls rejected; all vectors x the same calls never rejected as scalars", "Left open: the list-ness of lists whose class does not end in list, NA as a size, POSIXlt and dimnames in prototypes, objects whose proxy has another type than their data.")
c("C39", "a state is a vector of unspecified type (NA vectors, unspecified(), serialized, named, with attributes) with a vector of another type, a tree of data frame types with unspecified columns, or a sequence of up to three partial / full types; a transition is one combination, cast, assignment or look-up, whose result has to be that with missing values of the other type in place of the unspecified vector, or that of the model that keeps what a partial type asks for and what is learned apart.", "12 unspecified vectors x 47 types x ~65 operations; up to two (thorough three) of them alone; all data frame types to depth 3 over 4 column types and 3 classes, in pairs; all partial frames over 2 columns x 6 types with all data frames over them, in folds of 2 (all) and 3 (thorough: all); all partial factors over 3 levels", "Left open: unspecified columns within a packed column of partial_frame(), partial types nested in partial types, tibbles with partial frames.")
c("C40", "a state is a constructor with a combination of arguments from a pool of 48 R objects, or a record (or data frame, or typed list) with an index and a new value; a transition is one construction, field look-up or field assignment (and a second one after it), whose result has to be exactly the documented object, or a failure; the record operated on must not change.", "all pairs from the pool for every constructor; new_rcrd(): all lists of up to 2 (thorough 3) fields over 13 values x 6 names (missing, empty, re-encoded); 7 records x 3 classes x ~55 indices x 16 values", "Factor codes beyond the levels, fractional indices and factors as indices are left open.")
