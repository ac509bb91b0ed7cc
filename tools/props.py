NOTES = "All checks are static: they compile /repo's current sources to LLVM bitcode (never executed), export it with engine/irx.cpp and decide by dataflow or abstract interpretation."


def anch(files, mech, state=(), obs=()):
    return {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech],
            "state": [{"name": n, "meaning": m, "where": w} for n, m, w in state], "observe_at": list(obs), "hook_needed": None}


def q(text, *over):
    return {"over": list(over) or ["inputs"], "text": text}


PROPS = [
    dict(id="C01", title="Checked 64-bit integers: exact result or exception, never a wrapped value",
         statement="Every operation of the checked 64-bit integer type (+, -, *, /, %, their assigning forms, negation, absolute value, comparison, construction from and conversion to machine integers) either yields the mathematically exact result or throws; it throws only if the exact result is not representable or not defined (division by zero, modulus that is not positive). A remainder is never negative. This holds for all operand values, also if both operands are the same object.",
         quantifier=q("all pairs of 64-bit operand values, both as distinct objects and as one object"),
         why_tests_cant="2^128 operand pairs per operation; the unit tests sample a handful of values around the limits.",
         anchors=anch(["src/safe_integer.h", "src/safe_integer.tpp", "src/safe_integer_arithmetics.tpp", "src/safe_integer_comparisons.tpp", "src/safe_integer_constructors.tpp"],
                      [("range checks before each machine operation", "src/safe_integer_arithmetics.tpp")], [("SafeInteger::data", "the value", "src/safe_integer.h")], ["results of the operators of SafeInteger"]),
         technique="abstract interpretation over affine forms and polyhedra with trace partitioning",
         level_note="Sound for all operand values of the analysed intermediate representation (clang, x86-64 type sizes); every path of every public operation is covered, no loop is involved. Trusts clang's front end and the analyser."),
    dict(id="C02", title="Arbitrary precision sums, differences and negations are exact",
         statement="Adding, subtracting (also in assigning form), negating and taking the absolute value of arbitrary precision integers yields the mathematically exact value in canonical form (no leading zero word, no negative zero), never throws, and does not change an operand that is only read. This also holds if both operands are the same object.",
         quantifier=q("all operand values and signs; the check covers every value of up to 3 (thorough: 4) 64-bit words per operand"),
         why_tests_cant="The tests use a few values around 2^32 and 2^64; carries and borrows across words depend on word values that are never sampled.",
         anchors=anch(["src/big_integer.h", "src/big_integer.cpp", "src/big_integer_arithmetics.cpp"],
                      [("carry/borrow propagation", "src/big_integer.cpp: addMagnitude, subtractMagnitude"), ("sign logic", "src/big_integer_arithmetics.cpp: operator+=, operator-=")],
                      [("BigInteger::sign, BigInteger::data", "sign and 64-bit words of the magnitude", "src/big_integer.h")], ["results of +, -, +=, -=, unary -, abs"]),
         technique="abstract interpretation over affine forms and polyhedra, partitioned by sign and word count",
         level_note="Complete over all word values for operands of at most 3 (thorough: 4) words; longer operands are not covered. Assumes canonical operands and successful allocation."),
    dict(id="C03", title="Arbitrary precision comparisons and conversions agree with the value",
         statement="Every comparison (==, !=, <, >, <=, >=) of an arbitrary precision integer with another one or with an int yields the truth of the mathematical relation. Construction from any machine integer type preserves the value, and conversion to int returns exactly the value if it fits into an int and throws otherwise; this includes the smallest values of the machine types.",
         quantifier=q("all operand values and signs; the check covers every value of up to 3 (thorough: 4) 64-bit words per operand"),
         why_tests_cant="Asymmetric machine ranges (smallest int, unsigned maxima) and multi-word comparisons give unboundedly many cases; tests sample a few.",
         anchors=anch(["src/big_integer_comparisons.cpp", "src/big_integer_constructors.cpp", "src/big_integer.cpp"],
                      [("sign and magnitude comparison", "src/big_integer_comparisons.cpp"), ("range check before narrowing", "src/big_integer_constructors.cpp: operator int")],
                      [("BigInteger::sign, BigInteger::data", "sign and 64-bit words of the magnitude", "src/big_integer.h")], ["results of comparisons and conversions"]),
         technique="abstract interpretation over affine forms and polyhedra, partitioned by sign and word count",
         level_note="Complete over all word values for operands of at most 3 (thorough: 4) words and all machine integers. Assumes canonical operands and successful allocation."),
    dict(id="C04", title="Machine-integer shortcuts of big integer *, / and % never give a wrong value",
         statement="For one-word operands, multiplication, division and modulo of arbitrary precision integers either return the exact product, the quotient truncated toward zero, or the non-negative remainder, or hand both operands unchanged to the general algorithm; no machine arithmetic overflows on the way. Division by zero and a modulus that is not positive throw; nothing else throws.",
         quantifier=q("all operand values of one 64-bit word with either sign, both as distinct objects and as one object"),
         why_tests_cant="Overflow of the shortcut depends on the exact operand pair (2^130 pairs); tests sample a few products.",
         anchors=anch(["src/big_integer_arithmetics.cpp", "src/big_integer_constructors.cpp"],
                      [("try the machine operation, fall back to the general algorithm", "src/big_integer_arithmetics.cpp: fallback*Assign")],
                      [("BigInteger::sign, BigInteger::data", "sign and words", "src/big_integer.h")], ["results of *, /, %, *=, /=, %="]),
         technique="abstract interpretation over affine forms and polyhedra with trace partitioning",
         level_note="Complete over all one-word operands up to the point where the general (multi-word) algorithm starts; that algorithm is not decided. Assumes canonical operands and successful allocation."),
    dict(id="C05", title="The job pool is only touched under its lock",
         statement="Every access to the shared state of the job pool (the known rows, the waiting rows, the number of active workers, the job counter) by any of its operations happens while the pool's mutex is held, the mutex is never locked twice by one thread or released when free, it is free again when an operation returns or throws, and rows are written to the standard output only while it is held (so output of different threads never interleaves).",
         quantifier=q("all thread schedules of all calls of put and get", "schedules", "inputs"),
         why_tests_cant="A missing lock shows up only under particular interleavings on particular hardware; the tests of the pool use one or two threads.",
         anchors=anch(["src/list.h", "src/list.cpp"], [("lock_guard/unique_lock around each operation", "src/list.cpp: put, get, empty")],
                      [("List::rows, iterators, workers, counter", "state shared by all worker threads", "src/list.h")], ["data races, interleaved output lines, deadlock"]),
         technique="lockset analysis by abstract interpretation of every path of the pool operations",
         level_note="All paths of all operations of the pool for both row kinds; a lock held at every access of a shared member on every path excludes data races for every schedule. Queue contents at acquisition are partitioned into shapes of at most two waiting rows (each critical section touches at most the ends of the queue). Trusts std::mutex and containers."),
    dict(id="C06", title="Job pool protocol: each row once, stop exactly when nothing is left to do",
         statement="put adds every row passed to it that is not yet known, and in the same critical section prints it exactly once and makes it available to exactly one later get; known rows are neither printed nor handed out again; waiting workers are woken when a row becomes available. put(matrix) counts the caller's job as finished exactly once, and only after all its rows are in the pool; put(row) does not change the number of active jobs. get hands out a waiting row, removing it and counting one more active job in the same critical section; it tells a worker to stop (empty row) only when no row is waiting and no job is active, and then the mark stays so that every worker stops and all waiting workers are woken. A new pool counts exactly one active job (the initialization).",
         quantifier=q("all thread schedules of all calls of put and get, any rows, any state of the pool", "schedules", "histories"),
         why_tests_cant="Lost wake-ups, premature termination and duplicate output depend on the interleaving of several workers; unit tests drive single schedules.",
         anchors=anch(["src/list.h", "src/list.cpp"], [("set insertion decides novelty; queue of iterators; count of active workers; termination mark", "src/list.cpp")],
                      [("List::rows", "rows ever seen", "src/list.h"), ("List::iterators", "rows waiting", "src/list.h"), ("List::workers", "active jobs", "src/list.h")], ["printed rows; rows returned by get; program termination"]),
         technique="abstract interpretation with critical-section summaries checked against the pool protocol",
         level_note="Every path of every operation is summarised as a sequence of critical sections (state at acquire, events, state at release; state is havocked between sections, which covers all interleavings) and each summary is compared with the protocol. Matrices of 0, 1 and 2 rows, queues of at most 2 waiting rows at acquisition. Assumes no allocation failure; std::mutex, condition_variable and set as specified."),
    dict(id="C07", title="The adjacency decomposition driver processes every job exactly once",
         statement="For every input and number of threads, the driver of the adjacency decomposition creates one job pool and exactly the requested number of worker threads. The initialization reports itself as done exactly once: with the class representatives of the (normalized) known rows if known rows are given, otherwise with the representatives of all rows the heuristic finds; every further known row is added as its normalized representative. Every worker takes a job, computes the rotation of that row with the input and the normalized maps, hands all resulting rows (also if there are none) to the pool exactly once, and continues until the pool tells it to stop. Threads and asynchronous tasks are joined before anything they refer to is destroyed and no exception escapes. The heading is written once, before any row, and nothing is written afterwards except by the pool.",
         quantifier=q("all relative speeds of initialization task and workers; symbolic rows; with and without maps, equations, known rows, names; facet and vertex modes", "schedules", "inputs"),
         why_tests_cant="Use after destruction and early or missing reports depend on when the asynchronous initialization and the workers run relative to the main thread; a test sees one schedule and one input.",
         anchors=anch(["src/method_adjacency_decomposition_implementation.cpp", "src/joining_thread.h", "src/joining_thread.cpp", "src/joining_thread.tpp"],
                      [("asynchronous initialization, worker loop, joining threads", "src/method_adjacency_decomposition_implementation.cpp")],
                      [("threads", "joining worker threads", "src/method_adjacency_decomposition_implementation.cpp")], ["calls of the job pool; standard output"]),
         technique="abstract interpretation of the driver with typestate checks on pool, threads and futures",
         level_note="All paths of the driver for both modes with the pool, rotation, heuristic and normalization as uninterpreted functions; closures of threads and tasks are analysed both at creation and at the latest point where they may still run (their join). At most two worker threads, two known rows, two rows per heuristic, two jobs per worker. Only the build without message passing."),
    dict(id="C08", title="Row arithmetic and normalization compute the exact linear combinations",
         statement="Sums, differences, multiples, quotients and scalar products of rows equal, entry by entry, what their definition says, change no operand that is only read, and are right if both operands are one row; dividing a row by zero throws. The gcd of a row is not negative and takes every entry into account, as does its lcm. Normalizing an inequality with the equations yields the inequality minus the multiples of the equations that make it zero at each equation's leading position, times a positive factor, in lowest terms.",
         quantifier=q("all coefficient values (as polynomial identities) for rows of 1 to 4 entries and up to 2 equations"),
         why_tests_cant="Signs, zeros and non-unit leading coefficients combine in ways that fixed example rows do not exercise; the identity must hold for all coefficients.",
         anchors=anch(["src/algorithm_row_operations.cpp", "src/algorithm_inequality_operations.cpp"],
                      [("elimination with equations, division by the gcd", "src/algorithm_row_operations.cpp: normalize, gcd, operators")],
                      [("Row", "coefficients of an inequality or vertex", "src/row.h")], ["results of the row operators, gcd, lcm, normalize"]),
         technique="abstract interpretation over polynomial forms with divisibility provenance",
         level_note="Every path of the int instantiation; results are compared as polynomials in symbolic coefficients, so for all values as long as machine arithmetic does not wrap (exactness of the integer types is a separate property). gcd and lcm of two integers are uninterpreted. Row lengths above 4 are not covered."),
    dict(id="C09", title="Maps act linearly; normalized maps agree with elimination by the equations",
         statement="Applying a map to an inequality (facet) or a vertex yields exactly the row given by the images (term by term, duplicates added up), in lowest terms, and throws if the number of images differs from the length of the row. A map normalized with the equations maps every normalized inequality to the normal form (up to a positive factor) of what the original map yields: each image is the original image minus the multiples of the equations that eliminate the leading positions, times one positive factor common to the map.",
         quantifier=q("all coefficients and factors (as polynomial identities); 14 image shapes, rows of 2 to 4 entries, up to 2 equations with any leading positions"),
         why_tests_cant="Equations whose leading coefficient is not one, repeated indices and cancelling terms in an image occur only in special inputs; the defect fixed in this property went unnoticed by all tests.",
         anchors=anch(["src/algorithm_map_operations.cpp", "src/maps.h"],
                      [("apply, normalizeMap, subtractEquation, simplify", "src/algorithm_map_operations.cpp")],
                      [("Map", "one image (list of index/factor terms) per coordinate", "src/maps.h")], ["results of apply and normalize"]),
         technique="abstract interpretation over polynomial forms with divisibility provenance",
         level_note="Every path of the int instantiation; results compared as polynomials. Equations are assumed reduced with positive leading coefficient (what the program derives). Overflow of machine integers is not covered here."),
    dict(id="C10", title="Converting rows between integer types keeps every value or throws",
         statement="Converting a row or matrix between int and any of the integer types (16 bit, 64 bit, checked, arbitrary precision) yields the same number of rows and entries in the same order and every entry with its exact value; if an entry does not fit into the target type the conversion throws, and it throws in no other case.",
         quantifier=q("all entries of all types, rows of 0 to 2 entries, matrices of 0 to 3 rows"),
         why_tests_cant="Truncation shows up only for values outside the target type; the tests convert small numbers.",
         anchors=anch(["src/cast.cpp", "src/cast.h", "src/safe_integer_constructors.tpp", "src/big_integer_constructors.cpp"],
                      [("element-wise conversion with a check of the round trip", "src/cast.cpp")],
                      [("Row, Matrix", "values being converted", "src/row.h")], ["result of cast, exception"]),
         technique="abstract interpretation over affine forms and polyhedra",
         level_note="All values of all types on every path; rows of at most 2 entries and matrices of at most 3 rows (entries are treated one by one), big integers of at most 2 words. Successful allocation is assumed."),
    dict(id="C11", title="gcd, lcm and absolute value of machine integers are right",
         statement="The absolute value of a 16 bit integer is its magnitude. gcd of two machine integers is never negative, zero only if both are zero, divides both, and is an integer combination of them (hence the greatest common divisor). lcm of two integers that are not both zero is not negative and equals the magnitude of their product divided by their gcd (as long as that fits). The smallest value of the type is excluded.",
         quantifier=q("all pairs of values of 16, 32 and 64 bit integers, of either sign and order"),
         why_tests_cant="Signs, order and zeros of the operands combine; a test samples a few pairs.",
         anchors=anch(["src/algorithm_integer_operations.cpp"],
                      [("Euclid's algorithm on magnitudes, abs(short)", "src/algorithm_integer_operations.cpp")],
                      [("operands", "pair of integers", "src/algorithm_integer_operations.h")], ["return values of gcd, lcm, abs"]),
         technique="abstract interpretation with divisibility by back substitution",
         level_note="Every path with at most 5 (thorough: 8) divisions; longer runs of Euclid's algorithm are not decided (they repeat the same step). Products in lcm are assumed to fit. Termination is not decided."),
    dict(id="C12", title="The text printed for a row or vertex means that row or vertex",
         statement="A row printed with names (prettyPrint, prettyPrintln) reads, after blanks are removed, as a linear expression with exactly the coefficients of the row (no term for zero, no digit for one, terms separated by a sign), followed by the relation and the negated last entry. Printed without names or with operator<< it is the entries in order, never run together. A vertex printed with printFractional is one number or fraction per coordinate, each equal to entry / last entry in lowest terms with a positive denominator that is omitted if and only if it is one. Matrices print one line per row, in order.",
         quantifier=q("all entries of 16, 32 and 64 bit integers below 2^30 in magnitude; rows of 2 to 4 entries, matrices of 0 to 2 rows, with and without names"),
         why_tests_cant="Signs, zeros and ones in every position combine; a test compares a few rows with fixed text.",
         anchors=anch(["src/algorithm_row_operations.cpp", "src/algorithm_matrix_operations.cpp", "src/algorithm_inequality_operations.cpp"],
                      [("prettyPrint, prettyPrintln, printFractional, operator<<", "src/algorithm_row_operations.cpp")],
                      [("Row, Matrix, Names", "what is printed", "src/row.h")], ["characters written to the stream"]),
         technique="abstract interpretation of stream output with symbolic numbers, read back by a grammar",
         level_note="Every path; the text is a sequence of characters and symbolic numbers that is parsed as a linear expression and compared with the entries as polynomials. Rows of at most 4 entries. Values of 64 bit integers outside int are refused with an exception (a documented limitation) and not claimed."),
    dict(id="C13", title="Command line options mean what the documentation says",
         statement="For every argument list: the first argument beginning with -i or --i decides the integer type (-i V, -i=V, --integer-type=V with V one of 16, 32, 64, safe, inf), likewise -m/--method= (ad, adjacency-decomposition, dd, double-description), -s/--sorting= (the documented orders) and -t/--threads= (a positive decimal number that fits int, nothing behind it); anything else beginning so, an unknown value or a missing value is refused with an exception; without the option the documented default applies (threads: what the hardware offers, at least one). -c/--check and -f/--filter are on iff present. -h, --help=, --help-command=, ?, -v ... select help or version exactly as documented, and every documented option name has a help text (exit code 0). The input file is the one argument that is neither an option nor the parameter of an option; two are refused. No argument beyond the last is read.",
         quantifier=q("all arguments up to 33 characters of any ASCII content, in lists of up to 3 arguments with at most two of unknown content"),
         why_tests_cant="There are no tests of the command line; spellings, prefixes, positions and missing values combine.",
         anchors=anch(["src/input_detection.cpp", "src/integer_type_detection.cpp", "src/input_method.cpp", "src/concurrency.cpp", "src/input_validity.cpp", "src/help.cpp"],
                      [("integerType, input::method, getInputOrder, numberOfThreads, getFilename, detectOperationMode, help::command", "src/input_detection.cpp")],
                      [("argv", "words given by the user", "src/main.cpp")], ["selected type, method, order, number, file name, mode; exception"]),
         technique="abstract interpretation over symbolic characters, against a decision table",
         level_note="Every path; each character of an argument is a range of codes, string comparisons split them, and the documented table is evaluated over the ranges of each path. Not every length is analysed in quick mode (those of the documented words and one more or less)."),
    dict(id="C14", title="Section keywords are recognized exactly and determine the mode",
         statement="A line is the beginning of a section iff, after removal of blanks, tabs and carriage returns at both ends, it is one of the listed spellings (with or without a colon, except END) of CONE_SECTION/Rays, CONV_SECTION/Vertices, INEQUALITIES_SECTION/Inequalities, Equations, Maps, Names/Indices, their Reduced forms, END, or the dimension (DIM, DIMENSION, Dim, Dimension, alone or followed by '=' and anything); no other text is one. Peeking at a line yields that line and leaves the stream where it was; skipping to the next keyword leaves the stream at the beginning of the first line that is one and yields it without blanks, or reports that there is none; looking for keywords leaves the file untouched. Without a mode option, a file with inequalities only is a vertex enumeration, one with vertices, rays or neither is a facet enumeration, and one with both is an error, whatever the order and number of sections.",
         quantifier=q("all lines of ASCII text of the lengths of the spellings and one more; files of up to 30 lines with one line of unknown text"),
         why_tests_cant="The unit tests try some spellings; near-misses, blanks, carriage returns, missing final newlines and combinations of sections are open.",
         anchors=anch(["src/input_keywords.cpp", "src/input_common.cpp", "src/input_detection.cpp", "src/istream_peek_line.cpp", "src/position_guarded_file.cpp"],
                      [("isKeyword*, containsKeywords", "src/input_keywords.cpp"), ("advanceToNextKeyword, trimWhitespace", "src/input_common.cpp"), ("detectOperationMode, keywords", "src/input_detection.cpp"), ("peekLine", "src/istream_peek_line.cpp")],
                      [("text", "contents of the input file", "src/input_keywords.h")], ["whether a section begins at a line", "position of the stream", "mode of operation"]),
         technique="abstract interpretation over symbolic characters, against the table of keywords",
         level_note="Every path; characters are ranges of codes, and the table of keywords is evaluated over the ranges of each path. Streams and strings are modelled."),
    dict(id="C15", title="A line of a constraint section is read as the constraint it denotes",
         statement="Every line of an inequality or equation section is either read as the constraint it denotes or refused with an exception. Denoted are: for sums of terms in named variables with a relation and a right hand side, coefficients (sign, digits, name; no digits mean one) minus right hand side, multiplied by minus one for >=; for integers without names, the integers themselves, or, with a relation in front of the last, that last one negated. Refused are lines with a name that is not a variable, a sign without a term, anything that is no integer, no relation (with names), more than one, an incomplete one or one of the wrong kind for the section, and numbers beyond int. Lines of the documented form are accepted: terms separated by blanks, each variable at most once, a sign apart from its term, one integer on the right, an optional identifier in parentheses in front; also with carriage returns, tabs, blank lines or no final newline. Reading ends at the line of the next keyword, behind the line of END.",
         quantifier=q("lines with any digits and up to three characters of any printable kind at each position of representative lines; sections of up to three lines; two variables, one name a prefix of the other"),
         why_tests_cant="The unit tests read some lines; signs, blanks, line ends and misplaced tokens combine without end.",
         anchors=anch(["src/input_constraint.cpp", "src/input_constraint_named_variables.cpp", "src/input_constraint_unnamed_variables.cpp", "src/input_common.cpp"],
                      [("constraints", "src/input_constraint.cpp"), ("constraint (with names)", "src/input_constraint_named_variables.cpp"), ("constraint (without names)", "src/input_constraint_unnamed_variables.cpp"), ("containsNames, relationOperator, normalize, toInt", "src/input_common.cpp")],
                      [("row", "coefficients, then the negated right hand side", "src/input_constraint.h")], ["rows read or exception", "position of the stream"]),
         technique="abstract interpretation over symbolic characters, against a reference reading",
         level_note="Every path on the given texts; digits and characters of unknown kind are ranges of codes, rows are polynomials in them. Two variables."),
    dict(id="C16", title="Vertices, rays, maps, names and the dimension are read as written",
         statement="A line of a vertex or ray section is read as the point written (integers or fractions, an optional identifier in front) times a positive common denominator, which is appended for a vertex and replaced by zero for a ray, or refused with an exception; a line of a map section as the affine images written, one per name (sums of terms without blanks), the constant being mapped to itself, or refused. Refused are anything that is no number, missing or zero denominators, numbers beyond int, unknown names, signs without a term and a wrong number of images; lines of the documented form are accepted, also with carriage returns, tabs, blank lines or no final newline. The names are the words up to the next keyword in their order; the dimension is the number behind '='. No line takes anything from another; reading ends at the line of the next keyword, behind the line of END.",
         quantifier=q("lines with any digits and up to three characters of any printable kind at each position of representative lines; sections of up to three lines; two variables"),
         why_tests_cant="The unit tests read some lines; signs, denominators, blanks and line ends combine without end.",
         anchors=anch(["src/input_vertex.cpp", "src/input_map.cpp", "src/input_names.cpp", "src/input_dimension.cpp", "src/input_common.cpp", "src/algorithm_row_operations.cpp"],
                      [("verticesConvex, verticesConical, vertex", "src/input_vertex.cpp"), ("maps, image, extractFactor, extractName", "src/input_map.cpp"), ("names", "src/input_names.cpp"), ("dimension", "src/input_dimension.cpp"), ("lcm of a row", "src/algorithm_row_operations.cpp")],
                      [("vertex", "numerators, then the common denominator (0 for a ray)", "src/input_vertex.h"), ("map", "images as lists of (variable, factor)", "src/maps.h")], ["rows, maps, names or number read, or exception", "position of the stream"]),
         technique="abstract interpretation over symbolic characters, against a reference reading",
         level_note="Every path on the given texts; digits and characters of unknown kind are ranges of codes, values are polynomials in them. Some paths with unknown denominators are left undecided."),
    dict(id="C17", title="Fourier-Motzkin elimination returns the facets of the cone of its rows",
         statement="For a matrix whose rows generate a pointed cone or not (of any rank, rows possibly zero, repeated or redundant, columns possibly zero or dependent), fourierMotzkinElimination returns, in lowest terms and each exactly once, the inequalities (a, with a*v <= 0 for every row v) of all facets of that cone, and nothing else. fourierMotzkinEliminationHeuristic returns some of them, each once, in lowest terms, never the trivial inequality (0, ..., 0, -1), and at least one whenever there is a nontrivial facet. The sets used for n rows have room for n rows. (Results that need numbers beyond the range of the integer type are not covered.)",
         quantifier=q("all matrices of rank 1 to 4 with up to 11 rows and up to three unknown entries in them, embedded in up to four columns; polygons and cones of up to 70 rows with one unknown entry; 24 numbers of rows up to 1281 for the size of the sets"),
         why_tests_cant="Positions and degeneracies of the generators combine without end; a test compares a few polytopes with known facets.",
         anchors=anch(["src/algorithm_fourier_motzkin_elimination.cpp", "src/algorithm_matrix_operations.cpp", "src/algorithm_row_operations.cpp", "src/bitset_fixed_size.tpp", "src/bitset_variable_size.cpp"],
                      [("fourierMotzkinElimination, fourierMotzkinEliminationHeuristic, projection, updateSystem, phaseTwoDispatch", "src/algorithm_fourier_motzkin_elimination.cpp"), ("gaussianElimination, extractEquations", "src/algorithm_matrix_operations.cpp")],
                      [("input", "generators of the cone, one per row", "src/algorithm_fourier_motzkin_elimination.h")], ["matrix returned"]),
         technique="abstract interpretation over polynomial forms, against the facets derived from signs of determinants",
         level_note="Every path for cones given by integers and up to three symbolic entries between -5 and 5; the facets are derived independently from the signs of products on the path. Greatest common divisors are symbols, or replaced by one. A finding is reported only with numbers for the symbols. Values are assumed not to overflow."),
    dict(id="C18", title="Bit sets of rows answer like sets of numbers",
         statement="For BitsetFixedSize and BitsetVariableSize with n bits and max at most n: a new set is empty and has room for n numbers; set(k) adds k and nothing else; contains(b, max) tells whether every number below max in b is in the set; merge(b, max) is the union; count(max) and unionCount(a, b, max) are the numbers of elements in the set and in the union, and unionContains(a, b, c, max) tells whether every number in c is in a or b - for sets that contain only numbers below max.",
         quantifier=q("all contents of sets of one to three words and values of max at and around the ends of words"),
         why_tests_cant="A set of n rows has 2^n contents; a test tries a few, and the last word and the end of a word are special.",
         anchors=anch(["src/bitset_fixed_size.tpp", "src/bitset_fixed_size.h", "src/bitset_variable_size.cpp"],
                      [("operations", "src/bitset_fixed_size.tpp"), ("operations", "src/bitset_variable_size.cpp")],
                      [("data", "bits of the set", "src/bitset_fixed_size.h")], ["return values"]),
         technique="abstract interpretation with one Boolean function per bit",
         level_note="Every path and every content of the words: each bit of each word is an unknown, words are vectors of polynomials over GF(2) in them. Sets of one to three words."),
    dict(id="C19", title="Rotation returns exactly the adjacent facets (vertices)",
         statement="For rows (vertices and rays) V and a facet F of their cone in lowest terms, rotation(V, F, {}, facet) returns exactly the facets of the cone that share a ridge with F (the intersection of which with F has dimension two less than the cone), each once and in lowest terms, except the trivial inequality (0, ..., 0, -1), also if rows are zero, repeated or redundant or all satisfy equations (a facet is then represented by one of its inequalities). With the tag vertex the same holds without exception. If no row lies on F nothing is returned.",
         quantifier=q("all cones of dimension two to four given by up to seven rows with up to three unknown entries, rotating any valid facet among representative ones"),
         why_tests_cant="Degeneracies (several rows in the same position relative to a ridge, redundant rows, rays) combine; a test samples a few polytopes.",
         anchors=anch(["src/algorithm_rotation.cpp", "src/algorithm_inequality_operations.cpp", "src/algorithm_fourier_motzkin_elimination.cpp", "src/algorithm_row_operations.cpp"],
                      [("rotation, rotate, getRidges, verticesWithZeroDistance", "src/algorithm_rotation.cpp"), ("distance, furthestVertex, nearestVertex", "src/algorithm_inequality_operations.cpp")],
                      [("ridge, facet", "inequalities being combined", "src/algorithm_rotation.cpp")], ["rows returned"]),
         technique="abstract interpretation over polynomial forms, against adjacency derived from signs of determinants",
         level_note="Every path for cones given by integers and up to three symbolic entries between -5 and 5; facets and adjacency are derived independently from signs of products and ranks on the path. A finding is reported only with numbers for the symbols. Values are assumed not to overflow."),
    dict(id="C20", title="Classes under maps are orbits and have one representative each",
         statement="getClass(row, maps, tag) is the set of all rows that repeated application of the maps to the row yields, the row included; classRepresentative is the lexicographically greatest of them (hence the same for all rows of a class if maps are permutations of it); classes(rows, maps, tag) returns, each once, the representatives of the classes of the given rows and nothing else.",
         quantifier=q("all rows of three or four entries with up to three unknown entries; lists of up to five rows; sets of up to two maps that permute, negate or reflect coordinates"),
         why_tests_cant="Coincidences between rows of a class (fixed points, short orbits) and between classes combine; a test tries a few.",
         anchors=anch(["src/algorithm_classes.cpp", "src/algorithm_map_operations.cpp"],
                      [("getClass, classRepresentative, classes", "src/algorithm_classes.cpp"), ("apply", "src/algorithm_map_operations.cpp")],
                      [("rows", "set of rows of the class", "src/algorithm_classes.cpp")], ["set of rows, representative, list of representatives"]),
         technique="abstract interpretation over polynomial forms with a model of ordered sets, against orbits computed on the path",
         level_note="Every path; equalities and the order of rows are split into cases. Search trees are modelled without rebalancing. Infinite orbits and termination are not decided."),
    dict(id="C21", title="Rank, equations, transposition and products of matrices are exact",
         statement="dimension(matrix) is the rank of the matrix; extractEquations(matrix) returns as many equations as columns minus rank, each is zero on every row of the matrix, is in lowest terms and has a positive first nonzero coefficient, and the variable of that coefficient occurs in no other of the equations; transpose and matrix times row have the entries they are defined by; removeTrivialInequality removes a row (0, ..., 0, -1) and no other row.",
         quantifier=q("all matrices of up to four rows and columns with up to four unknown entries"),
         why_tests_cant="Which entries are pivots, zero rows and dependencies between rows depend on coincidences between entries; a test has one set of numbers each.",
         anchors=anch(["src/algorithm_matrix_operations.cpp", "src/algorithm_fourier_motzkin_elimination.cpp", "src/algorithm_row_operations.cpp"],
                      [("dimension, extractEquations, gaussianElimination, appendNegativeIdentityMatrix, transpose, operator*", "src/algorithm_matrix_operations.cpp"), ("removeTrivialInequality", "src/algorithm_fourier_motzkin_elimination.cpp")],
                      [("matrix", "rows of coefficients", "src/matrix.h")], ["returned rows and number"]),
         technique="abstract interpretation over polynomial forms, against minors and scalar products on the path",
         level_note="Every path for matrices of integers and up to four symbolic entries between -5 and 5. Greatest common divisors of symbolic numbers are taken to be one. Overflow of machine integers is not judged."),
    dict(id="C22", title="An input file is assembled into exactly the system it describes",
         statement="input::inequalities returns the inequalities of the file, every equation in both directions and the trivial inequality (0, ..., 0, -1); input::vertices returns the rays and vertices; each as often as written, with sections in any order, within a section of inequalities, rays or vertices in the order asked for by -s (rows with the same number of nonzero entries in ascending order). A reduced section yields the orbits of its rows under the maps. Names, maps and the rows of the file of known data are returned as written. Files that cannot be opened, have no keyword or no rows, have rows, equations, names, maps, known rows or a DIM of inconsistent lengths, or have a reduced section before any maps are refused.",
         quantifier=q("descriptions of one to six rows in two or three dimensions with up to four unknown digits, all orders, with and without maps, names, dimension and known data"),
         why_tests_cant="Sections, their order, options and values combine; a test has one file each.",
         anchors=anch(["src/input.cpp", "src/input_consistency.cpp"],
                      [("inequalities, vertices, knownFacets, knownVertices, sort, expandInequalities, expandVertices", "src/input.cpp"), ("checkConsistency, checkRowLengths, checkMapLengths", "src/input_consistency.cpp")],
                      [("tuple of rows, names, maps, known rows", "the input of the methods", "src/input.h")], ["returned tuple", "exception"]),
         technique="abstract interpretation over texts and polynomial forms, files given by content with unknown digits",
         level_note="Every path of both functions on the given descriptions, for all values of the unknown digits. Reading of single lines is the subject of C14 to C16; -c is not covered."),
    dict(id="C23", title="Scope guards and delayed actions run their action exactly when due",
         statement="The function of a scope guard runs exactly once, when the scope of its (last) owner ends, also if it ends by an exception; it does not run if that owner was dismissed. The function of a delayed action runs at most once, when the scope of its (last) owner ends, if it was not dismissed and more than the given time (seconds, milliseconds or nanoseconds) has elapsed since its creation; it does not run if less time has elapsed. Moving transfers the action, the time of creation and being dismissed.",
         quantifier=q("all times of creation and destruction, delays of 0 to 1000 units, sequences of up to three moves and a dismissal, normal and exceptional ends of the scope"),
         why_tests_cant="Times are arbitrary; a test samples one delay and few sequences of moves and dismissals.",
         anchors=anch(["src/scope_guard.tpp", "src/delayed_action.tpp", "src/scope_guard.h", "src/delayed_action.h"],
                      [("ScopeGuard", "src/scope_guard.tpp"), ("DelayedAction, makeDelayedAction", "src/delayed_action.tpp")],
                      [("dismissed", "whether the action is still to be run", "src/delayed_action.h")], ["calls of the function"]),
         technique="abstract interpretation over event sequences with symbolic clock readings",
         level_note="Every path of a list of uses (moves, dismissals, exceptions) that stands for the clients; the clock is monotonic and otherwise arbitrary."),
    dict(id="C24", title="Double description prints what it computed under the right headings",
         statement="With the double description method, a facet enumeration writes to standard output the equations that the vertices and rays satisfy (under Equations:, followed by an empty line, only if there are any) and then, under Inequalities:, the result of elimination without the trivial inequality, reduced to classes under the maps normalized by these equations. A vertex enumeration writes the result of elimination, reduced to classes of vertices under the maps: the vertices under Vertices: and then the rays, without their last coordinate, under Rays:, each heading only if there are such rows. The headings of the reduced rows start with Reduced exactly if maps are given. The exit status is 0, and not 0 if any step throws.",
         quantifier=q("all combinations of up to 2 equations, no or one map, up to 3 rows and all values of their last coordinate; failures of each step"),
         why_tests_cant="The unit tests do not cover the driver; a sample run has one combination of equations, maps, vertices and rays.",
         anchors=anch(["src/method_double_description.cpp"],
                      [("FacetEnumerationDoubleDescription::call, VertexEnumerationDoubleDescription::call, print, split", "src/method_double_description.cpp")],
                      [("matrix of rows", "the rows that are printed", "src/matrix.h")], ["rows written to standard output", "exit status"]),
         technique="abstract interpretation over printed text with the algorithmic steps as opaque functions",
         level_note="Every path of the driver for integer type int; the steps themselves are the subject of C17, C20, C21 and C22, the printing of a row that of C12."),
]
NA = [
    dict(id="N01", title="A completed run reports exactly the facets or vertices of the input",
         statement="For every consistent input, method and integer type, the rows written by a run that ends normally are exactly the facets (or vertices and rays) of the polyhedron described, one per class if maps are given.",
         quantifier=q("all inputs, methods, orders, numbers of threads and integer types"),
         why_tests_cant="The inputs are unbounded; a test compares a few polytopes.",
         anchors=anch(["src/method_adjacency_decomposition.eti", "src/method_double_description.eti"], [("adjacencyDecomposition, doubleDescription", "src/method_adjacency_decomposition.cpp")], [("list of rows", "rows found so far", "src/list.h")], ["rows written to standard output"]),
         reason="It needs induction over an unbounded graph of facets (connectedness of ridges, Balinski) and over runtime values; no dataflow or typed analysis bounds it. Its steps are claimed separately: reading (C14-C16), pool and workers (C05-C07), elimination (C17), arithmetic (C01-C04, C08-C11), output (C12)."),
    dict(id="N02", title="Every run ends",
         statement="For every consistent input, the enumeration ends after finitely many steps with exit status zero.",
         quantifier=q("all inputs"),
         why_tests_cant="A test observes a few terminating runs.",
         anchors=anch(["src/joining_thread.h", "src/list.cpp", "src/algorithm_rotation.cpp"], [("list of rows", "src/list.cpp")], [("list of rows", "rows still to be handled", "src/list.h")], ["end of the process"]),
         reason="The measure (facets not yet found) is a quantity of the polyhedron that no static argument in reach bounds; the part that concerns the pool (no lost wake up, termination mark exactly at the end) is claimed as C06."),
]
