import json
P=[]
def p(id,title,statement,over,qtext,why,files,mech,state=None,observe=None,hook=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    a["observe_at"]=observe or ["library: Idl::convert / convert_str_named JSON output"]
    a["hook_needed"]=hook
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":qtext},"why_tests_cant":why,"anchors":a})
R="src/reader.rs";C="src/compiler.rs";J="src/model/json.rs";S="src/model/schema.rs";I="src/import.rs";V="src/resolve.rs";M="src/main.rs";D="src/doc_comments.rs"
p("C01","Every definition and reference denotes the right full name",
 "A type declared in IDL has the full name given by its identifier's dotted prefix if it has one, otherwise by its own @namespace annotation, otherwise by the namespace in force (the protocol's, or the file's `namespace` line); an undotted reference means the type of that simple name in the namespace in force where it stands (the enclosing record's inside a record), and a dotted reference is itself the full name. In every emitted document, read by the Avro specification's namespace-inheritance rules, each definition and each reference denotes exactly that full name, for types with and without a namespace, local or imported.",
 ["programs"],"all IDL programs: every combination of protocol/file namespace, dotted identifiers, @namespace (also empty), same- and cross-namespace references, references nested in arrays, maps, unions, parameters, results, throws, and imported types",
 "the tests compare a few dozen golden files; the number of combinations of namespace source, position of the reference and nesting of the output context is far larger, and shortening one name wrongly yields output that is still well-formed JSON",
 [R,J,S,I],[("compute_namespace / reference splitting",R),("schema_ref_name, named_type_preamble, enclosing-namespace threading",J),("make_full_name/split_full_name",S)],
 [("enclosing namespace","namespace in force while walking and while emitting",R+", "+J)])
p("C02","Emitted documents define each named type once, before any use by name",
 "In every protocol or schema document that is emitted, each named type is defined exactly once, in place at its first mention in reading order, and is mentioned only by name after that. No document uses a name that it does not define, except a name whose definition encloses the use.",
 ["programs"],"all programs, including recursive and mutually recursive types, forward references, types shared by several declarations, messages, and imported files",
 "which mention comes first depends on declaration order, forward references, recursion and imports together; golden files sample a handful of orders",
 [J,C],[("known_names threading and lookup inlining in schema_to_json/protocol_to_json",J),("build_lookup/collect_named_types",J)],
 [("known_names","full names already written to the document",J)])
p("C03","No type is lost, invented or reordered",
 "An emitted protocol contains a definition of every named type declared in the input and in every file it reaches through imports, and of no other type. Its list of types keeps the order in which declarations and imports appear in the source, an import contributing its types at the position of the import statement, and omits only types already defined inside an earlier one.",
 ["programs"],"all import graphs and interleavings of imports and declarations (IDL, protocol and schema imports; nested named types in imported JSON)",
 "interleavings of imports and declarations over several files are combinatorial; tests fix a few",
 [C,R,I,J],[("process_decl_items in source order",C),("flatten_and_register depth-first",I),("types array filtering",J)],
 [("registry","named types in registration order",V)])
p("C04","Undefined names are rejected and reported; forward references are not",
 "Compilation succeeds only if every type name mentioned anywhere (fields, array items, map values, union members, parameters, results, throws clauses, the top-level schema, imported JSON files) is declared in the input or its imports, in whatever order. Otherwise it fails, and the error names every undefined type exactly once, located at its earliest mention in the IDL source when it has one there.",
 ["programs"],"all positions a name can be mentioned in, all declaration orders, any number of undefined names, in main and imported files",
 "each test covers one position or one pair; the walk must reach every position in every kind of file and keep the earliest location for names used in several messages",
 [C,V],[("validate_all_references, collect_unresolved_refs",C+", "+V)],None,
 ["library: Err report, its labels and related diagnostics"])
p("C05","A full name is defined at most once",
 "Declaring in IDL a full name that an earlier declaration or import already defined is an error, whether the clash is within one file, through dotted names or @namespace, or across files; distinct namespaces never clash. A definition repeated inside imported JSON files is ignored in favour of the first one seen.",
 ["programs"],"all pairs of declaration forms, namespaces and import orders",
 "tests check one direct duplicate; clashes through different spellings of the same full name, and orders of JSON and IDL imports, are not enumerated",
 [V,C,I],[("SchemaRegistry::register",V),("flatten_and_register ignoring duplicates",I)],
 [("registry","full name -> definition",V)])
p("C06","Avro's structural rules are enforced on IDL declarations",
 "A type name that is not a legal Avro name or is a built-in type name, a repeated field, parameter or enum symbol, an enum default outside its symbols, a union directly inside a union, a union repeating a kind of unnamed type or a full name, `null?`, a decimal with zero precision or scale above precision, a fixed size, precision or scale that is negative or does not fit 32 unsigned bits, and a one-way message with a result are all rejected. Declarations that obey these rules are accepted.",
 ["programs"],"all IDL declarations built from the grammar",
 "each rule has one or two negative tests; rules interact with logical types, annotations, namespaces and nesting (for example duplicates hidden behind annotations or behind different spellings of a name)",
 [R,V],[("walk_record, walk_enum, walk_fixed, walk_union_type, walk_message, walk_primitive_type",R),("validate_schema_name",V),("union_type_key",S)],None,
 ["library: Ok/Err of convert and extract"])
p("C07","Field defaults are checked against the field type and preserved",
 "A record field's default is accepted exactly when it is a value of the field's type: the right JSON kind, integers within range, array and map elements recursively, for enums, fixed and bytes any string, for a record an object giving a valid value for every field that has no default of its own, and for a union a value of any branch; a value is never objected to on account of a named type declared only later. An accepted default appears unchanged in the output, and a field written `T?` is emitted as null-or-T with null first unless its default is a non-null value, in which case T comes first.",
 ["programs"],"all types of bounded nesting and all JSON values of bounded nesting, with named types declared before, after, or being the field's own record, and imported ones",
 "the product of types and values is large and recursive; tests sample a few dozen pairs",
 [S,R,C],[("is_valid_default / validate_record_field_defaults / resolve_for_validation",S),("walk_variable, fix_optional_schema",R)])
p("C08","Imports resolve beside the importing file, then in import directories in order",
 "An import path is looked up first in the directory of the file containing the import statement, then in each configured import directory in the order given, and the first existing file is used; this holds for every nested file as for the main one. If none exists, compilation fails with an error at the import statement.",
 ["programs","configurations"],"all directory layouts, import-directory lists and chains of nested imports, with several candidates of the same relative path",
 "the tests use one or two directories; precedence errors appear only with several candidates at several nesting depths",
 [I,C],[("ImportContext::resolve_import",I),("import_dir passed to nested process_decl_items",C)])
p("C09","Each file is imported once, and import cycles terminate",
 "However many times and through whatever chain, kind of import, relative spelling or symbolic link a file is reached, it contributes its contents once, at the first place reached in depth-first source order; the main file never contributes twice. Import graphs with cycles or shared files therefore compile and terminate.",
 ["programs"],"all import graphs over a few files: self imports, cycles, diamonds, different spellings of one path",
 "tests contain one cycle and one diamond; the order of contributions under arbitrary graphs is not sampled",
 [I,C],[("mark_imported on canonical paths",I),("resolve_single_import",C)],
 [("read_locations","canonical paths already imported",I)])
p("C10","Messages are emitted faithfully and merged with the importer winning",
 "A compiled protocol has exactly the messages it declares plus those of every protocol it imports, each with its declared documentation, annotations, parameters in order (with names, types, defaults and their attributes), result, declared errors, and one-way mark. When names collide, a file's own message wins over those it imports, and of two imported ones the later import wins; schemas and IDL files that are not protocols contribute no messages.",
 ["programs"],"all message shapes and all import graphs of IDL and JSON protocols with colliding message names",
 "collisions over nested imports are not tested; only a few message shapes are",
 [C,R,J,I],[("walk_message",R),("message merging in parse_and_resolve / resolve_single_import",C),("message_to_json",J),("json_to_message",I)],
 [("messages","message name -> signature, accumulated over imports",C)])
p("C11","Importing .avsc and .avpr files preserves the schemas in them",
 "A schema or protocol file imported as JSON, with or without comments, contributes types that mean what the file says under the Avro specification: the same full names (a dotted name overrides a namespace attribute), field names, types, order, defaults, aliases, documentation, sizes, symbols, logical types and custom attributes, however deeply named types are nested and wherever a type is mentioned by name. Files that are not valid JSON or not schemas are rejected.",
 ["programs","inputs"],"all JSON schemas and protocols of bounded nesting",
 "import tests cover individual constructs; combinations of namespace attributes, dotted names, nesting and attributes are not sampled",
 [I],[("json_to_schema, parse_record/enum/fixed, parse_annotated_primitive, json_to_message",I),("flatten_schema",I)])
p("C12","Compiler output survives re-import with the same types and messages",
 "If a protocol document emitted by the tool is imported into an otherwise empty protocol with the same name, namespace, documentation and annotations, compiling that protocol yields the same types and messages; likewise the schema of any extracted type, when imported, extracts to the same schema.",
 ["programs"],"all programs that compile",
 "no test feeds output back; the property ties emission and import together over every schema shape",
 [J,I,C],[("emission",J),("JSON import",I)],None,["library: convert output of P, then of a wrapper importing it"])
p("C13","Schema extraction yields one self-contained schema per type",
 "Extracting schemas from an input yields, in declaration and import order, one document per named type, labelled with the type's simple name, each complete on its own and defining the same types as compiling the protocol does. Extracting from a directory equals extracting from each .avdl file under it on its own, recursively in file-name order, and concatenating.",
 ["programs","configurations"],"all programs and all directory trees of .avdl and other files",
 "tests extract a few files and one directory; self-containment and independence must hold for any type graph",
 [C,J],[("extract_impl, extract_directory",C)],None,["library: Idl2Schemata::extract output"])
p("C14","Annotations end up exactly where they were written",
 "Every annotation appears, with its value unchanged and the last of duplicates winning, as an attribute of exactly the protocol, type, field, parameter, type expression or message it was written on; @namespace, @aliases and @order take their special meaning only where Avro gives them one (order case-insensitive, ascending omitted, aliases shortened only when they share the type's namespace). Annotations that would overwrite a structural attribute, have an invalid special value, or stand on a type reference are rejected; on `T?` they go to T, and on other unions they are dropped with a warning.",
 ["programs"],"all annotation names (reserved, special, custom) at all annotatable positions with all JSON value shapes",
 "position x name x value is a large product with different rules per position; tests sample single cells",
 [R,J],[("walk_schema_properties and the per-context reserved sets",R),("apply_properties, is_type_reference",R),("finish_named_type, alias_ref_name, field_to_json",J)])
p("C15","Logical types are produced exactly when name, base type and parameters fit",
 "The logical type keywords and decimal(p[,s]) emit the documented base type and logical type; @logicalType on a type, and logicalType in imported JSON, is kept as written together with all other attributes, and never changes the base type that was written. Type identity in unions follows the base type.",
 ["programs"],"all base types x logical type names x parameter annotations x nesting, in IDL and imported JSON",
 "tests pair each logical type with its correct base type; mismatching bases, missing or odd parameters, and imported JSON combinations are barely sampled",
 [R,S,I,J],[("walk_primitive_type, try_promote_logical_type",R),("parse_logical_type",S),("parse_annotated_primitive",I)])
p("C16","Doc comments attach to what they precede or are reported, exactly once",
 "A documentation comment documents the declaration, field or parameter that follows it with only whitespace and ordinary comments between, a field's comment applying to each of its variables that lacks one of its own; its text is the comment without delimiters, surrounding blanks, consistent star margin or common indentation. Every other documentation comment is reported by exactly one warning at its position and documents nothing.",
 ["programs","inputs"],"all placements of documentation, empty, block and line comments between any tokens, and all short comment texts over letters, blanks, stars and line breaks",
 "placement between arbitrary tokens and the margin-stripping rules over arbitrary texts are only sampled",
 [D,R],[("extract_doc_comment, strip_indents",D),("collect_orphaned_doc_comment_warnings",R)],
 [("consumed doc tokens","doc comments attached so far",R)],["library: doc attributes and warnings"])
p("C17","Literals denote the values the Java-style notation gives them",
 "Integer literals (decimal, hexadecimal, octal, signs, L suffix), floating-point literals (decimal and hexadecimal, exponents, suffixes, NaN, infinities) and string literals (named, octal and Unicode escapes, including surrogate pairs) appear in the output with exactly the value the notation denotes. Integer literals outside 64-bit signed range are rejected rather than altered.",
 ["inputs"],"all literals of bounded length over the literal alphabets, including the boundaries of 32 and 64 bits",
 "tests pick single literals; boundary and notation combinations are not enumerated",
 [R],[("parse_integer_literal, parse_floating_point_literal, unescape_java",R)])
p("C18","Layout does not change meaning",
 "Two sources that differ only in whitespace, line breaks, ordinary comments, backquotes around identifiers, or text after an end-of-file control character compile to the same result.",
 ["programs"],"all programs and all ways of laying out the same tokens",
 "every test has one layout",
 [R,D],[("lexer/parser and SUB handling in parse_idl_named",R),("identifier_text",R)],None,["library: JSON output under several layouts of one program"])
p("C19","Calls on a reused compiler are independent; warnings belong to the last call",
 "The result of a compile or extract call depends only on the configured import directories, the source and the files read, never on earlier calls on the same object, successful or not. After a failed call, draining yields exactly the warnings that call had collected before failing (including, for a directory, those of files already processed), once; after a successful call they are in its result and draining yields nothing from earlier calls.",
 ["histories"],"all sequences of calls (file, string, directory; success, parse failure, import failure, unresolved name, unreadable file, rejected form) and drains on one object",
 "tests make one or two calls per object; leaks need a particular history",
 [C],[("IdlCompiler::compile, compile_file, extract_directory, drain_warnings",C)],
 [("accumulated warnings","warnings of the most recent failed call",C)],["library: call results and drain_warnings over histories"])
p("C20","Compilation is deterministic",
 "Compiling the same source with the same files and import directories always gives the same result: byte-identical documents on success, and on failure the same error at the same location with the same list of further errors; warnings are the same and in the same order.",
 ["programs","schedules"],"all programs, over repeated runs in separate processes (hash seeds differ per run)",
 "tests run once and compare single results; order dependence on hashing shows only in some runs and only with several messages, annotations or errors",
 [C,J,R],[("sorted JSON maps; dedupe and sort of unresolved references",C),("iteration over hash maps of messages and properties",J)])
p("C21","The command line writes complete output on success and nothing on failure",
 "`avdl idl` and `avdl idl2schemata` exit zero exactly when compilation succeeded and the output was written; a failure reports an error on standard error, exits non-zero, and creates or changes no output file for compilation errors. On success output goes to the named file (or standard output for idl without one or with `-`; one file per extracted type, named after it, in the output directory created if needed), contains exactly the compiled document, and standard output carries nothing else; warnings go to standard error in both cases, and reading the source from standard input gives the same result as from a file in the current directory.",
 ["configurations","fault_sequences"],"all combinations of subcommand, input (file, stdin, missing, failing, warning), output target (stdout, file, existing file, missing directory, directory, file in the way), and import directories",
 "CLI tests cover single combinations",
 [M,C],[("run_idl, run_idl2schemata, write_output",M)],None,["CLI: exit status, stdout, stderr, files written"])
p("C22","Protocol, schema and bare files are accepted exactly where they mean something",
 "A protocol file compiles to a protocol document; a file with a `schema` line compiles to that schema with every named type it uses defined inside it; a file with neither is rejected for compilation but its types, local and imported, can be extracted. The namespace line of a file without protocol applies to its own declarations and main schema only, never to files importing it.",
 ["programs"],"all combinations of file form, namespace line, main schema shape, declarations and imports, through both entry points, as main or imported file",
 "tests cover each form once or twice, not their combinations with imports and references",
 [R,C],[("walk_idl_file",R),("convert_impl, extract_impl",C)])
p("C23","Errors point at the offending place in the right file",
 "When a program violates one rule, the error's source excerpt is the file that contains the offence, imported or not, and its position is the offending element: the illegal or repeated name or the declaration that introduces it, the bad default value or annotation, the unresolved name, the failing import statement, the offending union member or literal.",
 ["programs"],"all single faults at all positions in main and imported files, under arbitrary preceding text",
 "tests snapshot a few errors at fixed positions",
 [R,C,"src/error.rs"],[("make_diagnostic, span tracking on declarations, fields and references",R),("ParseDiagnostic construction",C)],None,["library: labels and source of the Err report"])
p("C24","No input makes the compiler crash or hang",
 "For every input text, valid or not, and every set of imported files, a call returns, within time proportionate to the input, a document or an error; it never panics, aborts or loops. In particular, malformed source around any token, with any Unicode text, is reported as an error or a warning.",
 ["inputs"],"token-level and character-level mutations (deletion, duplication, swap, insertion of any token or non-ASCII text, truncation) of arbitrary programs",
 "error-recovery and error-refinement code runs only on malformed input, of which tests have a few dozen examples",
 [R,"src/suggest.rs",I],[("refine_errors_with_source and detect_* (byte offsets into source)",R),("levenshtein",  "src/suggest.rs")],None,["library: every call returns Ok or Err"])
p("C25","Exactly the texts of the Avro IDL grammar parse, and mean what it says",
 "A source text is accepted as syntax exactly when it can be derived from the Avro IDL grammar; any other text is rejected with an error that lies in that text. An accepted text means what the structure the grammar gives it says: each annotation, doc comment, default, `?`, dimension, name and keyword used as a name applies to the construct in whose place it stands.",
 ["inputs"],"all texts of tokens near valid ones: tokens or phrases removed, repeated, exchanged, replaced or inserted at every position, texts cut off at every position, keywords used as names",
 "the parser is generated and error recovery patches trees; tests hold a few dozen malformed inputs and golden files only sample which annotations and keywords go where",
 [R,"src/generated/idlparser.rs"],[("parse_idl_named: error listener, recovery, walk of the parse tree",R),("the generated recognizer and its error recovery","src/generated/idlparser.rs")],None,["library: Ok/Err of convert_str_named, its document and the labels of its report"])
p("C26","Imported JSON text is read as the value it denotes, or rejected",
 "An imported .avsc or .avpr text, with `//` and `/* */` comments and any white space JSON allows between its tokens, means the value JSON gives it: every string with its escapes, every number, nested arrays and objects. A text that is not JSON in this sense is rejected with an error, and nothing between or inside strings is taken for a comment or changed.",
 ["inputs"],"all texts near valid schema and protocol files: characters removed, repeated, exchanged, replaced or inserted at every position, cut off at every position, all short sequences of tokens, all string and number spellings",
 "tests hold a handful of comment layouts and no malformed or odd JSON text",
 [I,J],[("parse_json_with_comments",I)],None,["library: Ok/Err of a compilation importing the text, and its document"])
p("C27","What an error suggests is what may have been meant",
 "When an undefined type name that IDL mentions is within one edit (two, if both names have more than four characters) of a built-in type, of a defined type's simple name or of its full name, its report suggests a built-in type or the full name of a defined type such that no other is nearer. When nothing is so near, it suggests nothing. For `void` and `decimal`, which are no types by themselves, it says how they are used instead.",
 ["inputs"],"all undefined names and sets of defined names, in any namespaces, whether they come from the file itself or from imports",
 "tests hold a handful of misspelt names with one candidate each",
 [C,"src/suggest.rs"],[("suggest_similar_name, validate_all_references",C),("levenshtein, max_edit_distance","src/suggest.rs")],None,["library: help of every diagnostic of the Err report"])
open('/verif/properties.jsonl','w').write(''.join(json.dumps(x)+'\n' for x in P))
import jsonschema
sch=json.load(open('/root/.vp/PROPERTIES.schema.json'))
for x in P:
    jsonschema.validate(x,sch)
    n=x["statement"].count('. ')+1
    if n>3: print("too many sentences",x["id"],n)
print(len(P))
