#!/usr/bin/env python3
"""Writes properties.jsonl (the single source of the property texts)."""
import json
P=[]
def p(id,title,statement,over,text,why,files,mech,observe,state=None,hook=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech],"observe_at":observe,"hook_needed":hook}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":text},"why_tests_cant":why,"anchors":a})

ENC="sequel/encoding/"
p("E01","Integer columns are read exactly or rejected",
  "Scanning a database value into a signed or unsigned Go integer field of any width, directly or through a pointer, stores exactly the integer the database sent, whether it arrives as an integer or as decimal text. A value that does not fit the field, or text that is not a decimal integer, is reported as an error and the field keeps its previous value. NULL reads as zero, or as a nil pointer.",
  ["inputs","histories"],"every integer width and signedness x value/pointer destination x every integer wire value in the stated ranges and every decimal text up to the stated length, from every previous destination value class",
  "The unit tests scan a handful of mid-range values per width; overflow at the width boundaries and the wire form int64 for narrow or unsigned fields are never sampled.",
  [ENC+"int.go",ENC+"uint.go"],[("signed scanner",ENC+"int.go:signedIntScanner.Scan"),("unsigned scanner",ENC+"uint.go:unsignedIntScanner.Scan")],
  ["encoding.IntScanner/Int8Scanner/.../Uint64Scanner(addr).Scan(v) and the destination afterwards"])
p("E02","A scan depends only on the value scanned, not on history or driver memory",
  "After a successful scan the destination holds exactly the value that was scanned, whatever it held before and whatever was scanned into it earlier: no remnant of an earlier row survives, and NULL always yields the zero value (nil for pointer destinations). The destination never shares memory with the buffer the driver handed over, so overwriting that buffer afterwards leaves what was scanned unchanged, and a pointer obtained from one scan is not altered by the next scan.",
  ["histories","inputs"],"every sequence of scans up to the stated depth over every library scanner and a set of wire values covering NULL, short, long, empty, and invalid, with the driver buffer overwritten after every step",
  "Every unit test scans once into a fresh destination from a private buffer; reuse and aliasing only show on the second row of a result set.",
  [ENC+"json.go",ENC+"text.go",ENC+"pointer.go",ENC+"string.go",ENC+"byte_array.go",ENC+"rune_array.go","sequel/sqltype/string_slice.go","sequel/driver/postgres/pgtype/string_array.go"],
  [("destination replacement",ENC+"*.go Scan methods"),("list replacement","sequel/sqltype/*.go and pgtype/*.go scanBytes")],
  ["every exported scanner constructor's Scan, destination compared after each step"],
  state=[("destination","the Go field a scanner writes to, reused between rows by callers","caller memory")])
p("E03","Scalar values survive every wire form a driver may use",
  "Booleans, floats, strings, byte strings, times, JSON documents, text-marshalled and binary-marshalled values read back as the value that was written, whether the driver returns them in their native type, as text, or as bytes. Anything that does not denote a value of the destination type (malformed text, out-of-range number, bad date, trailing garbage after a JSON document, an unsupported wire type) is reported as an error instead of being stored as some other value. NULL reads as the zero value, or as a nil pointer.",
  ["inputs"],"every scalar scanner x value/pointer destination x every wire form x exhaustive short texts over the alphabet relevant to the type, plus every calendar date of the stated range",
  "Unit tests try one or two well-formed values per scanner; malformed text, alternative wire types and pointer destinations that start nil are not tried.",
  [ENC+"bool.go",ENC+"float.go",ENC+"string.go",ENC+"time.go",ENC+"text.go",ENC+"json.go",ENC+"pointer.go","sequel/types/binary.go"],
  [("scalar scanners",ENC+"*.go Scan methods"),("time layouts",ENC+"time.go:parseTime")],
  ["BoolScanner, Float32Scanner, Float64Scanner, StringScanner, TimeScanner, TextScanner, PtrScanner, JSONScanner, JSONValue, TextValue, BinaryMarshaler, BinaryUnmarshaler"])
p("E04","Fixed-size byte and rune arrays hold exactly the scanned text",
  "Scanning text or bytes into a fixed-size array of bytes (or of runes) stores its bytes (its Unicode code points) in order and zeroes every remaining element, identically for text and byte wire forms. Data longer than the array, counted in the array's own elements, is an error and leaves the array unchanged. NULL zeroes the array.",
  ["inputs","histories"],"every string over the stated alphabet (ASCII, NUL, 2/3/4-byte runes, invalid UTF-8) up to the stated length x array sizes x wire form x previous array content",
  "The unit tests scan ASCII of exactly the array length into a zero array; multi-byte text, shorter text over old data and NULL over old data are not covered.",
  [ENC+"byte_array.go",ENC+"rune_array.go"],[("byte array scanner",ENC+"byte_array.go:byteArrScanner.Scan"),("rune array scanner",ENC+"rune_array.go:runeArrScanner.Scan")],
  ["ByteArrayScanner(v,size).Scan, RuneArrayScanner(v,size).Scan"])
PG="sequel/driver/postgres/pgtype/"
p("E05","PostgreSQL array values round-trip and malformed arrays are rejected",
  "A Go list of booleans, integers, unsigned integers, floats, strings or byte strings written as a PostgreSQL array is valid array syntax denoting exactly that list, and reading it back (as text or bytes) gives the same list; a nil list is NULL and an empty list is the empty array. Reading any text either yields exactly the elements PostgreSQL would mean by it or returns an error without changing the destination; it never panics, hangs, or silently truncates or wraps an element that does not fit.",
  ["inputs"],"every list up to the stated length over boundary elements for each element type, and every text up to the stated length over the array-syntax alphabet for each array type",
  "There are no tests for the array types at all.",
  [PG+"array.go",PG+"bool_array.go",PG+"byte_array.go",PG+"float_array.go",PG+"int_array.go",PG+"string_array.go",PG+"uint_array.go"],
  [("parser",PG+"array.go:parseArray"),("element codecs",PG+"*_array.go Value/scanBytes")],["Value() and Scan() of every pgtype array"])
p("E06","JSON list columns are valid JSON and round-trip",
  "A Go list of strings, booleans, integers, unsigned integers or floats written to a JSON list column is a valid JSON array denoting exactly that list, and reading any JSON array of such elements, in any JSON spelling of it (whitespace, string escapes, number forms that denote an in-range value of the element type), gives those elements; nil is NULL. Text that is not a JSON array of in-range elements of that type is an error that leaves the destination unchanged, and never panics or hangs. The list-marshalling helpers emit valid JSON denoting the list they were given.",
  ["inputs"],"every list up to the stated length over boundary elements for each element type, and every text up to the stated length over the JSON-array alphabet for each list type, compared with encoding/json",
  "There are no tests for the JSON list types; databases normalise the stored JSON (spacing, escapes), which no sampled literal covers.",
  ["sequel/sqltype/bool_slice.go","sequel/sqltype/float_slice.go","sequel/sqltype/int_slice.go","sequel/sqltype/string_slice.go","sequel/sqltype/uint_slice.go",ENC+"marshaler.go"],
  [("list parser","sequel/sqltype/string_slice.go:parseArray"),("list writers","sequel/sqltype/*.go Value"),("marshal helpers",ENC+"marshaler.go")],
  ["Value() and Scan() of every sqltype slice; encoding.Marshal*Slice/List"])
p("E07","Quoted identifiers and literals are inert",
  "Quoting any identifier for MySQL, PostgreSQL or SQLite gives one identifier token of that dialect that denotes exactly the original name, and quoting any NUL-free string as a PostgreSQL literal gives exactly one string literal that denotes the original string, so no content can end the quotation early. Placeholders produced for position n denote exactly the n-th argument of the statement in that dialect.",
  ["inputs"],"every string up to the stated length over an alphabet of all quote characters, backslash, control and multi-byte characters; every placeholder position in the stated range",
  "Tests quote one or two well-behaved names; embedded quote characters and backslashes in combination are not covered.",
  ["sequel/driver/postgres/pgutil/pgutil.go","cmd/sqlgen/codegen/dialect/mysql/mysql.go","cmd/sqlgen/codegen/dialect/postgres/postgres.go","cmd/sqlgen/codegen/dialect/sqlite/sqlite.go"],
  [("literal quoting","sequel/driver/postgres/pgutil/pgutil.go:Quote"),("identifier quoting","dialect/*/QuoteIdentifier"),("placeholders","dialect/*/QuoteVar")],
  ["pgutil.Quote, Dialect.QuoteIdentifier, Dialect.QuoteVar"])

DB="cmd/sqlgen/codegen/templates/db.go.tpl"; OP="cmd/sqlgen/codegen/templates/operator.go.tpl"; GEN="cmd/sqlgen/codegen/generate.go"
RW="The generated database package is only compiled by the tests; "
p("R01","Insert stores exactly the given models, in order",
  "Inserting one model or a list of models through the generated package, for every supported database, adds exactly one row per model to the model's table with every column equal to the model's field value, except auto-increment and read-only columns, which the database fills in. After inserting a single auto-increment model its key field holds the key the database assigned; on PostgreSQL the models additionally hold the stored row. Inserting an empty list does nothing.",
  ["inputs","configurations","histories"],"every model shape (no key, single, auto-increment at every position, composite, read-only columns, custom SQL value columns, hand-written methods) x every list length up to the bound x dialect x identifier quoting",
  RW+"no test executes an insert, and column/value misalignment only appears for particular model shapes.",
  [DB,GEN],[("insert builders",DB+":InsertOne, Insert"),("generated statements",GEN+":buildInsertOne, InsertPlaceholders")],
  ["db.InsertOne, db.Insert executed against a strict in-memory SQL engine; resulting table contents"])
p("R02","Find, update and delete by primary key touch exactly that row",
  "FindByPK loads exactly the row whose primary key (single or composite) equals the model's key into the model, or reports that there is none; UpdateByPK changes exactly that row so that every updatable column equals the model's field and nothing else changes; DeleteByPK removes exactly that row. This holds for generated and for hand-written models, on every dialect, whatever the positions of the key columns, and LockByPK loads the same row as FindByPK while locking it in the given transaction.",
  ["inputs","configurations","histories"],"every model shape with a key x every assignment of key values over a small domain x every operation sequence up to the stated depth x dialect x quoting, compared with a reference table",
  RW+"swapped key/value arguments or a wrong placeholder index only show for composite keys, non-leading keys or read-only columns.",
  [DB,GEN],[("by-key operations",DB+":FindByPK, UpdateByPK, DeleteByPK, LockByPK"),("generated statements",GEN+":buildFindByPK, buildUpdateByPK")],
  ["the table contents and model contents after each call"])
p("R03","Upsert inserts new rows and updates or keeps conflicting ones",
  "Upserting a model that conflicts with no row inserts it; if it conflicts (on its primary key, on a unique column where the database detects every conflict, or on PostgreSQL on the given or declared duplicate keys), the existing row keeps its key and takes the model's values in every non-omitted updatable column when overriding, or is left completely unchanged when not overriding. An auto-increment key is assigned by the database wherever it is not sent (bulk upserts, and PostgreSQL). Omitted columns of existing rows never change, other rows never change, and bulk upsert acts like upserting the models one by one (PostgreSQL may refuse to touch one row twice).",
  ["inputs","configurations","histories"],"every keyed model shape x initial table contents x model lists up to the bound x override flag x every subset of omitted columns x dialect",
  RW+"upsert has no test; the clause built depends on key shape, omitted set and list length together.",
  [DB],[("upsert builders",DB+":UpsertOne, Upsert")],["table contents after db.UpsertOne / db.Upsert"])
p("R04","Cursor pagination visits every matching row exactly once, in order",
  "Paging forward through a filtered, ordered table with a page size returns each matching row exactly once in the requested order with ties broken by primary key, each page holding at most the page size, and a page requested with a cursor starts at the cursor row. Paging backward is the same over the reversed order: from a cursor it yields the cursor row and then the rows before it, and without a cursor it starts at the last row. Filter, ordering and cursor combine for every key shape and dialect.",
  ["inputs","configurations","histories"],"every table of up to the stated number of rows over a small value domain (duplicate sort values included) x page size x order specification x filter x start cursor x key shape x dialect",
  RW+"pagination has no stable test, and skipped or repeated rows depend on ties and page boundaries.",
  [DB],[("keyset predicate",DB+":Paginate, Pager.Next, Pager.Prev")],["rows yielded by Pager.Next/Prev"])
p("R05","Conditions mean what they say and values are always bound",
  "Every condition built from the generated operators (comparisons, IN lists, LIKE, NULL tests, BETWEEN, and nested AND/OR groups) selects exactly the rows for which it is true under SQL's rules, with grouping preserved however conditions are nested. Values supplied by the caller reach the database only as bound arguments, one per placeholder and in placeholder order; no caller value ever appears in the SQL text.",
  ["inputs","programs"],"every condition tree up to the stated size over all operators and representative operands (including empty lists and values that look like SQL) x every row of a small domain x dialect",
  "No test executes a condition; precedence and argument-order errors need nested combinations.",
  [OP,DB],[("operators",OP),("statement buffer",DB+":SqlStmt.Var/Vars")],["query text + args received by a recording driver, and the rows selected by the reference engine"])
p("R06","Conditional select, update and delete act on exactly the matching rows",
  "A select statement returns the rows matching its condition in the requested order within the requested offset and limit, with every column in the right field; an update statement changes exactly the matching rows and only the listed columns; a delete statement removes exactly the matching rows. Ordering and row limits given on them are honoured wherever the dialect supports them, and asking for one row of an empty result reports that there is none.",
  ["inputs","configurations"],"every combination of clause presence (condition, order, limit, offset, group, set list) x small tables x dialect",
  "The clause writers are compiled but never executed by the tests.",
  [DB,OP],[("statement writers",DB+":QueryStmt, QueryOneStmt, ExecStmt")],["rows returned / table contents"])
p("R07","Debug rendering of a statement shows the statement that would run",
  "Formatting a statement for display substitutes each placeholder, in order, with a literal denoting its argument and leaves everything else untouched; with the plain form it shows the SQL text unchanged. Rendering never panics, whatever characters the text and the arguments contain, and never changes the statement.",
  ["inputs"],"every statement template up to the stated number of fragments (literals containing quotes, placeholders, percent signs) x argument types and boundary values x dialect x format verbs",
  "Formatting is never exercised by the tests.",
  [DB],[("renderer",DB+":SqlStmt.Format, strf")],["fmt.Sprintf with %v, %+v, %s ... of a statement"])
p("R08","Concurrent statement building never mixes statements",
  "Any number of goroutines building and executing statements at the same time, in any interleaving, each send exactly the text and arguments they would send alone, whatever buffers are recycled between them. A recycled statement starts empty: nothing of an earlier statement's text, arguments or placeholder numbering is visible in a later one.",
  ["schedules","histories"],"every interleaving of the pool and buffer operations of 2-3 goroutines running every pair of operations, and every sequence of sequential operations up to the stated depth, with the pool recycling adversarially",
  "Tests are single-threaded and sync.Pool rarely hands the same object to two users in a test.",
  [DB,"sequel/strpool/pool.go",ENC+"marshaler.go"],[("statement pool",DB+":AcquireStmt, ReleaseStmt"),("builder pool","sequel/strpool/pool.go")],
  ["(query,args) received by a recording driver per goroutine, under a controlled scheduler"],
  state=[("pooled statement","builder text, argument list and placeholder position",DB+":SqlStmt"),("pooled builder","bytes","sequel/strpool/pool.go")])
p("R09","Database failures are reported and leave no resource open",
  "If the database fails at any point of an operation (executing, querying, advancing, scanning, or finishing a result set), the operation reports that failure instead of returning a partial result as success, and a panic never replaces the error. Whatever happens, every result set the operation opened is closed when it returns or when the caller stops iterating.",
  ["fault_sequences","configurations"],"every operation x every point at which the driver can fail during it (each driver call, each row position) x dialect",
  "No test injects driver failures.",
  [DB],[("error paths",DB+": all query loops")],["returned error, rows-closed accounting in a fault-injecting driver"])
p("R10","Building and running statements never modifies the caller's data",
  "Generated operations never modify the slices, maps or values that the caller or the model's methods hand to them, apart from the model fields they are documented to fill in. Repeating an operation with the same inputs therefore sends exactly the same statement, however many operations ran before.",
  ["histories"],"every operation repeated and every ordered pair of operations, over hand-written models that return shared slices, x dialect",
  "Generated models return fresh slices, so in-place edits of shared slices never show in the tests.",
  [DB,OP],[("column filtering",DB+":InsertOne, Insert, Upsert, UpdateByPK"),("operators",OP)],["statements recorded per call; slices compared before/after"])

CG="cmd/sqlgen/codegen/"; CP="cmd/sqlgen/internal/compiler/"
p("G01","Generated code always compiles",
  "For every accepted set of model structs, the model file, the database package and the operator package generated for any supported database, with or without identifier quoting and for any documented option, compile as they are. They contain no unused import or duplicate declaration whatever the mix of field types, key kinds and options.",
  ["programs","configurations"],"every supported field type (value, pointer, named, alias, array, slice) x dialect x quoting x key/option combinations",
  "Golden files cover one database, one quoting mode and a subset of types.",
  [CG+"generate.go",CG+"codegen.go",CG+"dialect/mysql/column_type.go",CG+"dialect/postgres/column_type.go",CG+"dialect/sqlite/column_type.go",CG+"templates/db.go.tpl",CG+"templates/operator.go.tpl"],
  [("code writer",CG+"generate.go"),("type tables",CG+"dialect/*/column_type.go")],["go build of the generated packages"])
p("G02","Column list, values and scan addresses always line up",
  "For every generated model the column names, the values written and the addresses scanned correspond one to one, in the same order, to the same struct fields; key metadata and per-column getters name the right column, position and value. Writing a model's values and scanning them back, as the database returns them, reproduces the model for every supported field type, including nil and non-nil pointers.",
  ["programs","inputs"],"every supported field type x value/pointer x boundary values x dialect, every position of key, auto-increment and read-only fields",
  "Golden files fix the text of some generated methods but never execute a write/read round trip.",
  [CG+"generate.go",CG+"dialect/mysql/column_type.go",CG+"dialect/postgres/column_type.go",CG+"dialect/sqlite/column_type.go",CP+"parser.go"],
  [("method writers",CG+"generate.go:buildValuer, buildScanner, buildColumns"),("type tables",CG+"dialect/*/column_type.go")],
  ["Columns(), Values(), Addrs(), PK(), CompositeKey(), InsertColumns(), column getters of generated models"])
p("G03","Embedded structs contribute their fields exactly once, Go's way",
  "A struct's columns are its own exported, non-ignored named fields plus those of embedded structs and embedded struct pointers at any depth, in declaration order; ignored or unexported fields, embedded types that are not structs and pointers the package cannot allocate contribute nothing, and an ignored embedded struct contributes none of its fields. Reading and writing each such column accesses exactly the promoted field, allocating nil embedded pointers when scanning and writing NULL-safe values when the pointer is nil.",
  ["programs"],"every embedding shape up to the stated depth and width (value/pointer, ignored, shadowed, exported/unexported)",
  "Tests cover a few fixed embedding examples.",
  [CP+"compiler.go",CP+"parser.go",CG+"generate.go"],[("struct walk",CP+"compiler.go"),("field path",CG+"generate.go")],["generated methods of models with embedded structs"])
p("G04","Invalid models are rejected, valid ones accepted",
  "Generation fails with an error, and writes nothing for that package, for models it cannot map correctly: two fields with the same column or Go name, a malformed column name, more than one auto-increment key or one that is not an integer, a readonly key, a type that does not exist or cannot be referred to, a pointer to a pointer, a field with the name of a generated method, or source that is not Go. It never panics, and every other model built from the documented tags is accepted.",
  ["programs"],"every combination of up to the stated number of tagged fields over the tag vocabulary x field types",
  "Tests contain only a few valid models and no invalid ones.",
  [CP+"compiler.go",CP+"parser.go",CP+"tag.go"],[("tag parsing",CP+"tag.go"),("struct checks",CP+"compiler.go")],["error returned by codegen.Generate and the files on disk"])
p("G05","Hand-written methods take precedence over generated ones",
  "If a model already declares one of the methods the generator would produce, with the right signature, that method is not generated again and the generated code keeps compiling and uses it; all methods not hand-written are still generated, and in strict mode one of the wrong signature is an error. This holds for every subset of hand-written methods and for table names given by method, field tag or default.",
  ["programs","configurations"],"every subset of the method set declared by hand x key kind x dialect",
  "Tests have a couple of models with a custom table name only.",
  [CG+"generate.go",CG+"interface.go",CP+"compiler.go"],[("method detection",CG+"generate.go:IsImplemented")],["method set of the generated package, compiled and executed"])
p("G06","Generation is deterministic and idempotent",
  "Running the generator twice on the same sources and configuration produces byte-identical files, independent of previously generated files, of file-system enumeration order and of how many packages are generated together. Re-running on its own output changes nothing.",
  ["histories","configurations"],"every configuration in the matrix run 1..n times, from clean and from already generated trees, with packages alone and together",
  "Tests run the generator once over a committed tree.",
  [CG+"codegen.go",CG+"generate.go",CG+"package.go"],[("import ordering",CG+"package.go"),("stale file removal",CG+"codegen.go")],["bytes of the generated files"])
p("G07","Only the selected sources are processed, only the documented files written",
  "The generator processes exactly the packages and files matched by the configured source patterns (directory, file, glob, recursive) minus the database packages and generated files, and creates or overwrites only the configured output files in those packages and the configured database and operator packages. Every other file, including hand-written files in the same directories, is left untouched.",
  ["configurations","inputs"],"every source pattern of the stated grammar x a small tree of packages, files and sub-packages, alone and in pairs",
  "Tests use one fixed directory tree and one pattern.",
  [CG+"codegen.go",CG+"path_matcher.go"],[("path matchers",CG+"path_matcher.go"),("source resolution",CG+"codegen.go")],["files on disk before and after codegen.Generate"])
p("G08","Names follow the configured convention and explicit tags win",
  "Column names default to the field name rendered in the configured naming convention (snake, camel or pascal case) and table names to the struct name likewise; a name in the tag or a declared table name is used verbatim and wins over the convention. The same names are used consistently in every generated method and statement, quoted when quoting is enabled.",
  ["inputs","configurations"],"every identifier over the stated alphabet up to the stated length x convention, and tag names x quoting x dialect",
  "Unit tests convert a dozen names.",
  ["cmd/sqlgen/internal/strfmt/strfmt.go","cmd/sqlgen/internal/strfmt/convert.go",CG+"codegen.go",CP+"compiler.go"],
  [("conventions","cmd/sqlgen/internal/strfmt"),("rename wiring",CG+"codegen.go")],["generated TableName(), Columns(), column getters and statements"])
p("G09","Configured custom data types are applied everywhere",
  "A data type configured for a Go type replaces how values of that type are written and read, and SQL expressions configured for it wrap the placeholder in inserts, updates and conditions and the column in selects, for all fields of that type and no others. Arguments stay bound in placeholder order.",
  ["configurations","programs"],"every subset of {scanner, valuer, sql scanner, sql valuer} x field kinds x statement kinds x dialect",
  "One golden example per driver-specific type; statements are never executed.",
  [CG+"generate.go",CG+"codegen.go",CG+"expr.go",DB],[("data type table",CG+"codegen.go"),("expression expansion",CG+"expr.go")],["generated code behaviour against a recording driver"])
p("G10","A failing generation does no damage",
  "If generation fails for any reason (source that is not Go, an invalid model, an unknown type, a file that cannot be written; the go mod tidy run after it aside), an error is returned and every file that existed before, including previously generated output, still has its previous content. Fixing the cause and running again produces the same output as a clean run.",
  ["fault_sequences","histories"],"every failure cause x every position among several packages x previously generated or clean tree",
  "Tests never run a failing generation.",
  [CG+"codegen.go",CG+"generate.go"],[("write ordering",CG+"codegen.go:renderTemplate, parseGoPackage")],["files on disk before and after a failing codegen.Generate"])
p("G11","Exactly the declared struct types become models",
  "Every exported package-level struct type, and every one defined from a struct of another package, that the package's Go files (test files and files excluded by build constraints aside) declare and that has at least one column becomes a model; aliases, generic types, unexported types, types declared within functions, types of other kinds and structs without columns do not. The doc comment of a type may exclude it with +sql:ignore, or with +sql:readonly leave out the methods that write; several annotations count together and annotations anywhere else have no effect. What is generated for a model does not depend on which other types the package declares, on their order or on the file they are in.",
  ["declarations","histories"],"every form of declaration x annotation x place of the annotation, every ordered pair of representative declarations, in one file or two",
  "Each golden package declares a few structs in one file; no test pairs declarations or puts annotations elsewhere.",
  [CG+"parser.go",CG+"generate.go",CG+"codegen.go"],[("declarations",CG+"parser.go"),("annotations",CG+"parser.go")],["methods found in the generated file per declared type"])
p("C01","Configuration is found, merged and defaulted predictably",
  "The configuration file is the one named on the command line, or else the first of sqlgen.yml, .sqlgen.yml, .sqlgen.yaml and sqlgen.yaml in the current directory; every option set in it is used exactly as written, every option left out takes its documented default, and the source given on the command line wins over the file. Unknown drivers, malformed files and invalid values are reported as errors, and the file written by init means what was answered.",
  ["configurations"],"every subset of options present in the file x command-line overrides x file name and directory placement",
  "Tests load one complete file.",
  [CG+"config.go","cmd/sqlgen/generate.go","cmd/sqlgen/cmd.go"],[("discovery",CG+"config.go"),("merge",CG+"config.go:Merge")],["codegen config functions and the sqlgen command run in scratch directories"])
if __name__=="__main__":
    import os
    out=os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))),"properties.jsonl")
    with open(out,"w") as f:
        for x in P: f.write(json.dumps(x,ensure_ascii=False)+"\n")
    for x in P:
        assert len(x["title"])<=80,(x["id"],len(x["title"]))
        n=x["statement"].count(". ")+1
        assert n<=3,(x["id"],n)
