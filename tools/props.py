#!/usr/bin/env python3
"""Writes /verif/properties.jsonl."""
import json
P=[]
def p(id,title,statement,over,qtext,why,files,mech,state=None,observe=None):
    assert len(title)<=80,(id,len(title))
    d=dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=qtext),why_tests_cant=why,
        anchors=dict(files=files,mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=observe or [],hook_needed=None))
    if state: d['anchors']['state']=[dict(name=a,meaning=b,where=c) for a,b,c in state]
    P.append(d)
ENC='sequel/encoding/'; SQT='sequel/sqltype/'; PG='sequel/driver/postgres/pgtype/'
G='cmd/sqlgen/codegen/generate.go'; CG='cmd/sqlgen/codegen/codegen.go'; CFG='cmd/sqlgen/codegen/config.go'
PR='cmd/sqlgen/internal/compiler/parser.go'; CO='cmd/sqlgen/internal/compiler/compiler.go'
DB='cmd/sqlgen/codegen/templates/db.go.tpl'; OP='cmd/sqlgen/codegen/templates/operator.go.tpl'
DI='cmd/sqlgen/codegen/dialect/'

p('P01','Scanning an integer column stores exactly the database value or reports an error',
 'When a database value is scanned into an integer field, or into an element of an integer list field, of any width and signedness, the stored Go value equals the database value. A value that does not fit the destination type, or is not a base-10 integer, is reported as an error and is never truncated, wrapped around or reinterpreted.',
 ['inputs'],'every int64, decimal text or array literal a driver can hand over, times every integer destination width and signedness',
 'The tests scan a handful of small values; the failing inputs are the ones outside the destination range, for each of some forty (destination type, source kind) pairs.',
 [ENC+'int.go',ENC+'uint.go',SQT+'int_slice.go',SQT+'uint_slice.go',PG+'int_array.go',PG+'array.go'],
 [('bit-size argument of the decimal parsers','sequel/encoding/int.go, uint.go'),('range check before the narrowing conversion of an int64','sequel/encoding/int.go, uint.go'),('element parser of array literals','sequel/sqltype/int_slice.go, uint_slice.go, sequel/driver/postgres/pgtype/int_array.go')],
 observe=['the destination after the scanner returns','the returned error'])
p('P02','Scanning SQL NULL always clears the destination',
 'When the database returns NULL, every scanner the generated code can use resets its destination to the zero value of its type - nil for pointers and lists, zero in every element for fixed-size arrays - and reports success. A reused struct therefore never keeps the value of the previous row.',
 ['inputs','histories'],'every destination type and every previous content of the destination',
 'Tests scan NULL into freshly declared, already zero destinations; the property is about destinations that hold a previous value.',
 [ENC,SQT,PG],[('nil case of every scanner','sequel/encoding/*.go, sequel/sqltype/*.go, sequel/driver/postgres/pgtype/*.go')],observe=['the destination after a scan of NULL'])
p('P03','Scanned values never share memory with buffers owned by the database driver',
 'A value stored by a scanner stays unchanged when the driver later reuses or overwrites the buffer it passed in. Every byte-carrying value that outlives the call is copied.',
 ['histories','inputs'],'every later reuse of the driver buffer, for every scanner and every source representation',
 'Tests never overwrite the source buffer after a scan; the defect only shows on the next row fetched by a driver that reuses its read buffer.',
 [ENC,SQT,PG],[('copy of byte slices before they are stored','sequel/encoding/string.go, sequel/driver/postgres/pgtype/string_array.go, byte_array.go'),('zero-copy string views used only for parsing','sequel/encoding/*.go, sequel/sqltype/*.go')],observe=['the stored value after the source buffer is modified'])
p('P04','A scan either succeeds completely or leaves the destination as it was',
 'When a scanner reports success it has stored the scanned value in the destination; when it reports an error it has not modified the destination. There is no silent success that leaves an old value (or part of one) in place, and no partially written destination behind an error.',
 ['inputs'],'every source value, well formed or malformed, and every destination type',
 'Tests assert the happy path on fresh destinations; malformed elements in the middle of a value and short values into used destinations are not sampled.',
 [ENC,SQT,PG],[('validate or build aside, then assign once','sequel/encoding/*.go, sequel/sqltype/*.go, sequel/driver/postgres/pgtype/*.go')],observe=['returned error together with the destination'])
p('P05','Each scanner accepts every driver form of its column type and rejects others',
 'A scanner accepts every representation in which supported drivers deliver its column type: the driver-native value where there is one and its byte-string form, whatever the protocol, and for text, list, JSON and time columns also a plain string. A value of any other kind is rejected with an error rather than accepted, ignored, or turned into a panic.',
 ['inputs'],'every scanner times every dynamic type a driver may deliver',
 'Each test covers one or two representations per scanner; text and bytes depend on driver and protocol, which the tests do not vary.',
 [ENC,SQT,PG],[('type switch over the source value','sequel/encoding/*.go, sequel/sqltype/*.go, sequel/driver/postgres/pgtype/*.go')],observe=['error result of the scanner'])
p('P06','List columns are written in a form that reads back element for element',
 'The text written for a list value uses exactly the brackets, delimiter, quoting, escaping and element spelling that the matching reader understands, for both the JSON-style and the Postgres array form. Quote and backslash characters inside elements are always escaped, a nil list is written as NULL and an empty list as an empty literal.',
 ['inputs'],'every list value, including elements containing quotes, backslashes, delimiters and brackets',
 'Round trips over arbitrary element content are sampled with a few benign strings.',
 [SQT,PG],[('value writers','sequel/sqltype/*_slice.go, sequel/driver/postgres/pgtype/*_array.go'),('array literal parser','sequel/sqltype/string_slice.go, sequel/driver/postgres/pgtype/array.go')],observe=['text produced by the value side','result of scanning that text'])
p('P07','Generated read and write expressions compile and agree for supported Go types',
 'For every Go type in a dialect\'s type table, the expression the generator emits to write a field and the one it emits to read it compile for that field type, for its pointer form and for named types derived from it. The kind of value written is one the read side accepts in the same form (a list text by the reader of that form), and the write expression keeps every value of the type: it contains no conversion that wraps, narrows or reinterprets. A type with database/sql or text methods of its own is written and read through them.',
 ['programs','configurations'],'every entry of the three type tables, plain, pointer and named',
 'Golden tests cover the field types that occur in the sample models, per dialect mostly MySQL; an entry never exercised can be wrong without any test failing.',
 [DI+'mysql/column_type.go',DI+'postgres/column_type.go',DI+'sqlite/column_type.go',G],[('type tables','cmd/sqlgen/codegen/dialect/*/column_type.go'),('expression templates','cmd/sqlgen/codegen/expr.go')],observe=['generated source type-checks'])
p('P08','Pooled statement buffers are never shared, leaked dirty, or used after release',
 'A buffer taken from a shared pool is given back at most once, is not touched after it was given back, and is completely emptied before it can be handed out again. Statement text or arguments of one operation can therefore never appear in another operation, in any interleaving.',
 ['schedules','histories'],'every path (including error paths) through every function that takes a pooled buffer, under any interleaving of callers',
 'Pool corruption needs two concurrent users of the same buffer; sequential tests reuse buffers cleanly.',
 ['sequel/strpool/pool.go',DB,G,ENC+'marshaler.go'],[('acquire/release pairing','templates/db.go.tpl, codegen/generate.go, sequel/encoding/marshaler.go'),('reset on release','sequel/strpool/pool.go, templates/db.go.tpl')],observe=['text and arguments of the statement sent'])
p('P09','Generated statements bind exactly the values their placeholders stand for',
 'In every SQL statement the generator writes into a model (find, insert, update by key), the number of placeholders equals the number of bound values. The n-th placeholder belongs to the column whose value is bound n-th, and numbered placeholders run 1, 2, 3 ... without gap or repetition.',
 ['programs','configurations'],'every struct layout (read-only columns, auto-increment key, single or composite key, custom table name) in every dialect',
 'Goldens pin a few struct shapes per dialect; mismatches appear only for particular combinations of read-only, auto-increment and key columns.',
 [G],[('statement builders','codegen/generate.go')],observe=['generated statement methods'])
p('P10','Column names, values, destinations and placeholders of a model line up',
 'The lists a generated model exposes correspond position by position: column names with scan destinations, insertable column names with values and with insert placeholders, and each key with its position. Each comes from the same columns in the same order.',
 ['programs'],'every struct layout',
 'Goldens pin a few struct shapes; a shift in one list is visible only for layouts that exercise the shifted part.',
 [G,CO],[('list builders','codegen/generate.go'),('insertable column filter','internal/compiler/compiler.go')],observe=['generated list methods'])
p('P11','Generated writes never touch read-only or auto-increment columns or the key',
 'Generated inserts and value lists never contain read-only columns or the auto-increment key, and generated updates never assign read-only columns or any key column. Generated lookups and updates by key are constrained by the whole key: the auto-increment column, the single key column, or every column of a composite key.',
 ['programs'],'every struct layout',
 'The combinations (read-only with composite key, auto-increment with further keys) are not in the goldens.',
 [G,CO,PR],[('column filters','internal/compiler/compiler.go'),('statement builders','codegen/generate.go')],observe=['generated statement methods'])
p('P12','Table and column names reach generated SQL validated and properly quoted',
 'Names taken from struct tags are accepted only if they are plain identifiers, and are otherwise rejected with an error. Every table or column name in a generated statement passes through the dialect\'s identifier quoting, and names exposed to the query helpers follow the configured quoting uniformly.',
 ['programs','inputs','configurations'],'every struct tag and every dialect',
 'Tests use well-formed, unquoted names in default configuration.',
 [G,PR,CO,DI+'mysql/mysql.go',DI+'postgres/postgres.go',DI+'sqlite/sqlite.go'],[('name validation','internal/compiler/parser.go, compiler.go'),('identifier quoting','codegen/generate.go, dialect/*/*.go')],observe=['generated SQL text','generator error'])
p('P13','Generation is deterministic',
 'Running the generator twice on the same sources and configuration produces byte-identical files. No output depends on map iteration order, time, randomness, concurrency or environment.',
 ['programs','schedules'],'every run over the same input',
 'A golden test compares one run; order effects of map iteration appear only on some runs and only with several entries.',
 [G,CG,PR,CO,'cmd/sqlgen/codegen/package.go'],[('sorted structs and fields, insertion-ordered import list','internal/compiler/parser.go, codegen/package.go')],observe=['bytes of generated files'])
p('P14','Default SQL column types can hold every value of the Go type',
 'The default SQL type of an integer, boolean or floating point field is wide enough for every value of its Go type, in every dialect, and a pointer to it maps to the same type. Every basic Go type has a mapping in every dialect, and unsigned fields never map to a type that loses their upper half. The same holds for the elements of list columns in dialects that have array types.',
 ['configurations','inputs'],'every basic Go type times every dialect',
 'The tables are not tested entry by entry, and no test has a database with extreme values.',
 [DI+'mysql/column_type.go',DI+'postgres/column_type.go',DI+'sqlite/column_type.go'],[('column type tables','dialect/*/column_type.go')],observe=['data type chosen for a column'])
p('P15','Every configuration option the user sets survives loading and merging',
 'A value the user sets in the configuration is the value the generator uses: loading, defaulting and merging neither drop it nor replace it with a default. Options left out get their documented defaults.',
 ['configurations'],'every option and every combination of set and unset options',
 'One test merges a few options; options forgotten in the merge are silently ignored.',
 [CFG],[('load, merge, default','codegen/config.go')],observe=['generator behaviour under the option'])
p('P16','Generator failures reach the user',
 'When parsing, building, formatting or writing any output fails, the run reports an error and the command exits with a non-zero status. No error on the way is dropped or replaced by success.',
 ['programs','fault_sequences'],'every failing step of the generator and the command line',
 'Tests run successful generations; failures (I/O, invalid templates, invalid tags) are not injected.',
 [G,CG,'cmd/sqlgen/codegen/init.go','cmd/sqlgen/cmd.go','cmd/sqlgen/generate.go','cmd/sqlgen/init.go',CFG],[('error returns','codegen/*.go, cmd/sqlgen/*.go')],observe=['error result','exit status'])
p('P17','A failing run never truncates a file; only the generator\'s own files change',
 'The generator deletes or writes only its own configured output files. An output file is opened for writing only once its complete content has been produced and formatted, so a failing run does not leave an empty or half-written file.',
 ['crash_points','programs'],'every failure point of a run',
 'Tests run on valid inputs; a truncated file needs a failure between opening and writing.',
 [G,CG,'cmd/sqlgen/codegen/init.go'],[('render to memory, format, then write','codegen/generate.go, codegen/init.go')],observe=['files on disk after a failed run'])
p('P18','The generated database helpers compile in every dialect',
 'For every dialect, the database helper and operator files the generator emits parse, type-check, and use only imports they declare. The interface definitions embedded in the generator agree with those of the runtime library the generated code is compiled against.',
 ['configurations'],'every dialect',
 'Template branches are ordinary text to the Go compiler: they are only checked when that dialect is generated and compiled.',
 [DB,OP,'cmd/sqlgen/codegen/sequel.go.tpl','sequel/sequel.go'],[('templates','codegen/templates/*.tpl'),('embedded interface definitions','codegen/sequel.go.tpl')],observe=['go build of the generated package'])
p('P19','Every exported struct field becomes exactly one column, in declaration order',
 'Every exported field that is not excluded by its tag becomes exactly one column, in declaration order with embedded structs expanded in place; unexported and excluded fields never do. Two fields with the same column name, or two auto-increment keys, are an error, and options and annotations apply only to the field or struct they are written on.',
 ['programs'],'every struct declaration, including embedding depth, multi-name fields and annotations',
 'Goldens contain shallow embeddings and few annotations.',
 [PR,CO],[('struct walker','internal/compiler/parser.go')],observe=['generated column list'])
p('P20','Query helpers release every result set and report errors met while reading it',
 'Every result set opened by a generated database helper is closed on every path, including scan errors and early exit. An error that ended the iteration early is returned to the caller instead of a short result that looks complete.',
 ['fault_sequences','histories'],'every path through each helper and a connection failure at any row',
 'The helpers are only tested against live databases (not in the suite), never with a connection that fails mid-result.',
 [DB],[('deferred or explicit close and error check after the loop','templates/db.go.tpl')],observe=['helper result when row iteration fails'])
p('P21','Query helpers never report success when the database reported an error',
 'Every error a database call, row scan, key assignment or result inspection yields inside a generated helper is returned to the caller on every path. No helper returns success after one of them failed, and a helper that reports an error does not report the failed operation\'s result as valid.',
 ['fault_sequences'],'every database call in every helper and every dialect failing',
 'No test injects driver errors.',
 [DB],[('error checks','templates/db.go.tpl')],observe=['error result of the helper'])
p('P22','Query helpers bind exactly the values their placeholders stand for',
 'In every statement a database helper composes (insert, upsert, find, update, delete, lock, paginate), the number of placeholders equals the number of bound values, placeholders and values are in the same column order, and numbered placeholders run 1, 2, 3 ... without gap or repetition. This holds for any number of rows, columns and key columns.',
 ['inputs','programs'],'every model shape (single, composite, auto-increment key), row count and dialect',
 'Suite tests need a live database; mismatches occur only in particular branches and key shapes.',
 [DB],[('statement composition','templates/db.go.tpl')],observe=['query and argument list passed to the driver'])
p('P23','User values are always bound as parameters, never spliced into SQL',
 'Values supplied by the caller - field values, keys, filter operands, cursor values - reach the database only as bound arguments. The text of a statement consists of constants, identifiers, placeholders and numbers computed by the helper itself.',
 ['inputs'],'every value a caller can pass to any helper or operator',
 'Injection needs hostile values; tests use benign ones and mostly compare rendered text.',
 [DB,OP,G],[('placeholders via the statement writer','templates/db.go.tpl, templates/operator.go.tpl')],observe=['statement text passed to the driver'])
p('P24','By-key helpers always constrain the statement to the record\'s whole key',
 'Find, update, delete and lock by key always send a statement whose WHERE clause compares every key column with that record\'s key value, and updates assign each remaining column its own value. There is no path on which such a statement is sent without a WHERE clause or with only part of a composite key.',
 ['programs','inputs'],'every key shape and dialect',
 'Only a live database would reveal affected extra rows; the suite has none.',
 [DB],[('by-key statements','templates/db.go.tpl')],observe=['statement text and arguments'])
p('P25','Each filter operator renders its own SQL operator with converted, bound operands',
 'Every comparison, set and ordering helper renders the SQL operator it is named after, on every kind of column, applied to the given column and operands in the given order. Operands pass through the column\'s own conversion when it has one and are bound in the order in which they appear; combined filters stay grouped by parentheses.',
 ['inputs','programs'],'every operator, column kind and operand',
 'Operators are generic text templates with one branch per column kind; tests touch few of the branches.',
 [OP,'sequel/clause.go'],[('operator functions','templates/operator.go.tpl')],observe=['statement text and arguments'])
p('P26','Every database call uses the caller\'s context and handle',
 'Every statement a helper sends is issued through the context and the database or transaction handle given by the caller. No helper substitutes a background context, a non-context call or another handle, and no helper stores them beyond the call.',
 ['histories','schedules'],'every call in every helper and dialect',
 'Cancellation and transaction isolation are not tested; a substituted context behaves identically in happy-path tests.',
 [DB],[('context parameters','templates/db.go.tpl')],observe=['driver calls'])
p('P27','Query helpers do not modify data the caller passed in',
 'Helpers never write into slices supplied by the caller (records to insert, omitted columns, options, filter operands), other than scanning returned columns back into the records as documented, and never write through lists a model may own. Repeating a call with the same arguments therefore sends the same statement.',
 ['histories'],'every helper, every caller-provided slice with any spare capacity, any repetition',
 'Aliasing writes only show when the backing array has spare capacity or is reused.',
 [DB,OP],[('copying before append/delete','templates/db.go.tpl')],observe=['caller data after the call','second call with the same data'])
p('P28','The setup command never overwrites a configuration without confirmation',
 'Initialising a project leaves an existing configuration file untouched unless the user forces it, and writes nothing unless the user confirmed. Failures and the exit status are reported.',
 ['histories','inputs'],'every prior state of the directory and every answer sequence',
 'The interactive command has no tests.',
 ['cmd/sqlgen/init.go','cmd/sqlgen/codegen/init.go'],[('existence check and confirmation before writing','cmd/sqlgen/init.go')],observe=['configuration file after the command'])
p('P29','Runtime library and generated helpers are safe for concurrent use',
 'The runtime library and the generated helpers keep no mutable state shared between calls other than synchronised pools. Any number of goroutines may use them on different records at the same time without data races.',
 ['schedules'],'every interleaving of calls from several goroutines',
 'The suite does not run helpers concurrently under the race detector.',
 ['sequel',DB,OP],[('no package-level mutable state','sequel/**, templates/*.tpl')],observe=['race detector'])
p('P33','Statements built from options contain every clause the caller set',
 'Select, update, delete and paginate statements built from an options value contain each option the caller set, whole and in SQL order: the named table, the column list, SET assignments, WHERE, GROUP BY, ORDER BY with its direction, LIMIT and OFFSET. A clause the caller did not set is absent. The filter of a pager is parenthesised and combined with the cursor by AND, and page size and locking options reach the statement.',
 ['inputs','programs'],'every combination of options, every model shape and dialect',
 'Suite tests of these statements need a live database; combinations of options are hardly sampled.',
 [DB],[('statement builders','templates/db.go.tpl')],observe=['query and argument list passed to the driver'])
p('P34','Upserts update only the columns they should and honour their options',
 'An upsert assigns, on conflict, only the non-key columns that the caller did not omit, each to the value it was to be inserted with. The ignore, override, omit and conflict-target options select the corresponding clause, for every key shape and dialect that supports upserts.',
 ['inputs','programs'],'every model shape, option combination and dialect',
 'Needs a live database; the branches for options and key shapes are not sampled.',
 [DB],[('upsert statement','templates/db.go.tpl')],observe=['query and argument list passed to the driver'])
p('P35','Scanned booleans, floats, texts, bytes and times are the database\'s values',
 'When a scanner reports success, the field holds the value the database delivered: texts and bytes unchanged, whole and in order (a boolean, number or time read into a text as its usual decimal or ISO text); booleans with the same truth, a number being true exactly when it is not zero; floating point numbers the parsed or converted value at the precision of the field; times the same instant, read year first and in UTC when the text has no zone, an integer being Unix seconds; JSON the whole document. A type with its own decoding method is given the value itself, or its text, and its error is returned.',
 ['inputs','programs'],'every destination type, driver form and value',
 'Tests sample a few values per scanner; a lossy step shows only for particular values (large numbers, precise floats, fractions of a second, bytes with the high bit set).',
 [ENC+'bool.go',ENC+'float.go',ENC+'string.go',ENC+'time.go',ENC+'text.go',ENC+'json.go',ENC+'byte_array.go',ENC+'rune_array.go',ENC+'pointer.go','sequel/types/binary.go'],[('Scan methods','sequel/encoding')],observe=['the destination after Scan'])
p('P36','Every exported model in the configured sources is generated, and nothing else',
 'Each configured source (directory, file, wildcard, recursive wildcard) is resolved to the directories and files it names, whatever characters their paths are made of. A source that does not exist, a directory without models and the directories of the generated helpers are passed over without affecting the others. In a matching, not generated file, every exported struct declared at package level, and every exported type defined as a struct of an imported package, gets its methods; aliases, generic types, types local to functions and unexported types do not. All models of a package appear in its one generated file.',
 ['inputs','programs'],'every source list, directory layout and set of declarations',
 'Tests generate a few fixed directories with plain declarations; a skipped source, file or declaration is silent: the command succeeds and the code is missing.',
 ['cmd/sqlgen/codegen/codegen.go','cmd/sqlgen/codegen/path_matcher.go','cmd/sqlgen/codegen/generate.go','cmd/sqlgen/internal/compiler/parser.go','cmd/sqlgen/internal/fileutil/fileutil.go'],[('loops over sources and directories','cmd/sqlgen/codegen/codegen.go'),('loop over declarations','cmd/sqlgen/internal/compiler/parser.go')],observe=['generated files and the types that have methods in them'])
# not claimed
p('P30','Numbers and times survive a round trip through the database unchanged',
 'A floating point or time value written through the generated code and read back compares equal to the original, up to the precision of the column.',
 ['inputs'],'every float and time value, column precision and driver',
 'Needs every value and the rounding of the database.',
 [ENC+'float.go',ENC+'time.go'],[('formatting and parsing','sequel/encoding/float.go, time.go')])
p('P31','Pagination visits every matching row exactly once',
 'Walking pages forward or backward visits every matching row exactly once when the data does not change, whatever the ordering columns and page size.',
 ['histories','inputs'],'every table content, ordering and page size',
 'Needs the semantics of the database over arbitrary data.',
 [DB],[('cursor predicate','templates/db.go.tpl')])
p('P32','Naming conventions map identifiers to stable, distinct column names',
 'Each naming convention maps every Go identifier to the documented spelling, and is stable under repetition.',
 ['inputs'],'every identifier',
 'A few identifiers are sampled.',
 ['cmd/sqlgen/internal/strfmt/strfmt.go'],[('case conversion','internal/strfmt/strfmt.go')])
with open('/verif/properties.jsonl','w') as f:
    for d in P: f.write(json.dumps(d,ensure_ascii=False)+'\n')
print(len(P))
