TECH2={
'P06':('abstract interpretation of the list writers over all lists, of the quoting functions over all texts and of the splitting functions over the language the writers produce','Lists and texts are words of a grammar with a finite set of positions kept per state, so loops close at a fixpoint. strconv, encoding/hex and bytes/strings functions are modelled by their documentation; arithmetic of buffer sizes for byte arrays is not checked.'),
'P07':('partial evaluation of the expressions the generator writes for every entry and form, type-checked as witness programs; value kinds and conversions compared over types and SSA','Every entry of the three tables, plain, pointer, named, imported, alias and element forms; what a database makes of a value of the right kind is that of P14.'),
'P14':('partial evaluation of the dialect type tables and of the type look-up, compared with the value ranges of the Go types','Every entry of the three tables under every condition on the column; ranges of SQL types are a table in the checker; two documented known findings (sqlite has no unsigned 64 bit type).'),
'P08':('path-sensitive typestate analysis over SSA with interprocedural release summaries','Objects reached through interfaces or user callbacks (filter closures) are assumed not to be retained by them.'),
'P20':('path-sensitive typestate analysis of result sets over SSA of the expanded templates','All paths of all helpers, per dialect; what database/sql does inside Close and Err is trusted.'),
'P21':('path-sensitive error-flow analysis over SSA of the expanded templates, with summaries for helper functions','Every error-returning call in a helper; errors of hash/strings builders that cannot fail are exempt.'),
'P26':('provenance (value-origin) analysis of contexts and database handles over SSA','Every call on database/sql types in the helpers; dynamic calls through user callbacks are outside.'),
'P27':('interprocedural ownership analysis over SSA of the expanded templates','Model methods are assumed to return lists the model may own; writes inside model methods and user options are outside.'),
'P29':('effect analysis of package-level state over SSA','Synchronised pools are trusted; state behind user-supplied models is outside.'),
'P22':('abstract interpretation of the expanded helpers into statement documents, checked by a tokenizer over abstract text','Model methods are assumed to agree with each other on the number and order of columns; loops are summarised by one symbolic element.'),
'P23':('abstract interpretation of the expanded helpers with provenance of every piece of statement text','Identifiers returned by model methods and raw SQL supplied through sequel clause types are trusted by definition.'),
'P24':('abstract interpretation of by-key helpers per key shape and path','Every path of every by-key helper; key columns and key values are taken from the model methods of the same record.'),
'P25':('abstract interpretation of operators and clause types into statement documents','Every operator and every column kind interface; user-supplied clause implementations are outside.'),
'P33':('abstract interpretation of option-driven statement builders, one obligation per option and path','Every combination of options as path conditions; loops are summarised by one symbolic element.'),
'P35':('abstract interpretation of every scanner constructor and its Scan method; the term stored on each successful path has to keep the driver value','Positions within fixed-size lists are compared where the index is affine; parsing functions of the standard library are trusted to be exact.'),
'P36':('abstract interpretation of one iteration of each loop from sources to models (inductive step), and inspection of the regular expressions built for wildcards','Paths are compared as terms over the source; go/packages, WalkDir and the regexp engine are trusted. A single * within a directory part is outside.'),
'P34':('abstract interpretation of the upsert builders per key shape and option, with value provenance','Per dialect; the meaning of the SQL clause is the documented one of each database.'),
'P09':('abstract interpretation of the code generator into abstract Go text, whose SQL literals are tokenized over symbolic column lists','All tables: loops over columns are summarised by one symbolic column; five dialect/quoting/receiver configurations.'),
'P10':('abstract interpretation of the code generator, comparing the list expressions it writes element by element','As for P09, plus the inductive step of the parser that numbers columns.'),
'P11':('abstract interpretation of the code generator and of the column filters of the table, with path conditions per column','All tables; the parser facts about keys are those of P19.'),
'P12':('abstract interpretation of the code generator and of dialect quoting, with provenance of tag names in the parser','Identifiers that contain the quote character cannot pass the tag pattern, so escaping is not required.'),
'P19':('abstract interpretation of one step of each parser loop from an arbitrary state (inductive step), over the syntax tree of go/ast','Three documented known findings (embedded types that are no plain struct); go/packages and go/ast are trusted.'),
'P15':('abstract interpretation of loading, merging, command-line and generation code, one obligation per configuration option','Options alone, in pairs and all together over default, empty and full bases; five documented known findings (options nothing reads).'),
'P16':('path-sensitive error-flow analysis over SSA of the command, generator and parser, with summaries for helpers and error collectors','Every call with an error result in the command, generator and parser; errors inside go/packages and x/tools are trusted to be returned.'),
'P28':('abstract interpretation of the set-up command per path, plus error-flow analysis','All answers of the prompts as path conditions; the terminal library is trusted.'),
'P17':('provenance analysis of file paths and contents over SSA, per call path, with dominance of the formatting step','All file-system calls of the command, generator and parser; failures of the operating system in the middle of one write are outside.'),
'P13':('effect analysis of map iterations plus taint analysis of volatile values over SSA','Every function that can run below Generate; determinism of go/packages, text/template and goimports is trusted.'),
'P18':('type checking of the expanded templates, abstract interpretation of the rendering function, and structural comparison of interfaces','Per dialect, all templates; text/template itself is run by the analyser as a macro expander, with the functions proved equal to the ones of the generator.'),
}
