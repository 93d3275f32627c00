RT="explicit-state enumeration of table contents x operations, executed on the generated packages of 6 configurations (3 dialects x quoting) over a strict in-memory SQL engine, against a reference table"
CHECKS.update({
 "R01":(RT,"27 model shapes x every list of models up to the bound x initial tables x row order; table, models and statement count compared with the reference"),
 "R02":(RT,"every keyed shape x every table over 4 keys x every operation sequence up to the depth; rows, models, locks and errors compared with the reference"),
 "R03":(RT,"every keyed shape x table x model list x override x every omitted subset x duplicate keys; table contents compared with the reference semantics of each dialect"),
 "R04":(RT,"every table up to the bound over a small value domain with NULLs and ties x orders x filters x page sizes x cursors x both directions x two scan orders; yielded sequence compared with the sorted reference"),
 "R05":(RT,"every operator x operand over a small domain with NULLs, and every And/Or tree up to the bound; rows selected compared with three-valued logic"),
 "R06":(RT,"every combination of clauses of conditional select, update and delete; rows, order, tables and counts compared with the reference in two scan orders"),
 "R07":(RT.replace("table contents x operations","argument values x statement skeletons x verbs"),"every argument kind x position x statement rendered and parsed back with the dialect's literal grammar; values and text compared"),
 "R08":("stateless model checking of the generated packages, the builder pool and the encoders under a controlled scheduler and adversarial pools: all schedules up to a preemption bound, all operation sequences up to a depth","every interleaving of every pair (and of triples of a subset) of 25 operations within the preemption bound at two granularities, every history up to the depth with LIFO and FIFO reuse; each operation compared with running it alone"),
 "R09":("exhaustive fault injection into every driver call of every operation, executed on the generated packages of 6 configurations","every operation x table x every single failing call and every failing suffix of calls, and every delivered value that cannot be scanned; error, panic, open result sets and connections checked"),
 "R10":(RT.replace("table contents x operations","operation sequences"),"every sequence of operations up to the depth over models sharing slices; statements, outcomes and every slice of the caller up to its capacity compared with before"),
})

GEN="explicit-state enumeration of source packages: the real generator is run on every package of the bounded space, its output compiled and executed, and every reachable value state compared with an independent reference of the documented mapping"
CHECKS.update({
 "G02":(GEN,"every supported field type x pointer depth x naming form x dialect x quoting, every value of a small domain per type; column list, values, addresses, getters, keys and a write/echo/scan round trip of each compared with the reference mapping"),
 "G03":(GEN,"every sequence of 15 ways to embed (value, pointer, unexported, alias, generic, defined, imported, ignored, beside a sibling) up to depth 3, every pair of siblings, table names and keys in embedded structs, recursive structs; columns, values, addresses and rows compared with Go's own promotion by reflection"),
 "G01":(GEN.replace("and every reachable value state compared with an independent reference of the documented mapping","compilation of every generated package being the oracle"),"every configuration that differs from the default in at most two options over a package with every kind of key, option and import; one-model packages of every field type; every declared, imported or package name that generated code uses"),
 "G04":(GEN.replace("its output compiled and executed, and every reachable value state compared with an independent reference of the documented mapping","acceptance, files and compilation compared with the documented rules"),"every column name up to length 2 over an adversarial alphabet, every pair of ways to have a column or an auto-increment key, every type of auto-increment key, every unusable type, broken source, and every method name as a field"),
 "G05":(GEN.replace("every reachable value state compared with an independent reference of the documented mapping","every method of every model compared with its twin without hand-written methods"),"every subset of at most two of 18 methods, their complements and every subset of the six interface methods x key kinds x table-name forms, methods in other files, and every wrong signature"),
 "G08":(GEN.replace("and every reachable value state compared with an independent reference of the documented mapping","compared with a reference of the documented naming"),"every identifier up to length 7 over three alphabets x convention, and generated packages with every identifier up to length 4 as field and up to length 3 as model, tags and table names x roles x dialect x convention; names of tables and columns in every accessor compared with the reference"),
 "G06":("explicit-state exploration of the generator as a transition system: states are what the output files hold, transitions are runs of the real generator, and every reached tree is compared with that of a clean run","3 configurations x what each of 4 packages and the database package hold (nothing, output of each configuration, 8 kinds of leftovers) x 11 selections and orders of packages; every order of the iterations over maps and directories of the instrumented generator; every model of G02, G03 and the option suites over its own output"),
 "G10":("exhaustive enumeration of failure causes and single file system faults, run on the real generator, with the tree before and after compared","13 kinds of bad source x package, outputs and directories whose place is taken, bad configurations x prior contents x 3 configurations; every single failing call of the file system of the instrumented generator x prior contents; rerun after the cause is gone compared with a clean run"),
 "G07":("explicit-state enumeration of source patterns over a fixed tree: the real generator is run for every case, and the tree before and after compared with an independent matcher","every pattern of up to 3 segments over 9 kinds of segment, spellings, working directories, every two of 11 sources, 2 configurations, clean tree and tree with earlier outputs; models in each output, and every other file unchanged"),
 "C01":("explicit-state enumeration of configuration files, merges and command lines, each executed on the real loader and the real sqlgen command (init on a pseudo terminal) and compared with a table of the documented options and with what the generator writes for the same configuration given in full","25 options: each value alone, every pair, all but one, every subset of up to 3 (thorough: of a 2^25 grid, see DESIGN) in 12 spellings; merges of every single, pair and full base with every single and pair; every subset of 4 file names x {absent, present, empty, broken}; 400 command lines; every path of answers of init"),
 "G09":(GEN,"48 (thorough: 288) packages rotating 8 value expressions, 6 scan expressions and 9 pairs of SQL expressions over 26 kinds of types, every second of which is configured, as plain, read-only, key, keys, embedded, auto-increment and neighbouring columns and pointers; what every method sends, every statement and a write/echo/read round trip of every value compared with the configured expressions"),
 "G11":("explicit-state enumeration of declarations: the real generator is run on every package of the enumeration and the set of methods it gives each type compared with the documented rules","every form of declaration (struct, group, external, alias, generic, local, other kinds, without columns) x 7 annotations x place of the annotation, build constraints and test files, every ordered pair of representative declarations x file placement; methods of each declared type against the rules and against the type alone in its package"),
})
