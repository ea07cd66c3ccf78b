#!/usr/bin/env python3
"""Writes /verif/properties.jsonl.  The list below is the source of record."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe=None, state=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe: a["observe_at"] = observe
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})

# ---------------------------------------------------------------- concurrency
p("C01", "The source-position tables are safe for concurrent use",
  "Any number of goroutines may add files, add or replace or merge line tables, and query positions on one shared file set and its files without data races and without deadlock. Every operation takes the lock that protects the shared table it reads or writes for the whole of that access and releases it on every way out, including panics it documents. No table that a lock protects is handed out to a caller after the lock is released.",
  ["schedules"], "all interleavings of the exported operations of the file set and file types",
  "The tests exercise one schedule and never run under contention; a missing or misplaced lock shows only in a particular interleaving.",
  ["textpos/textpos_from_go_token.go"],
  [("per-set mutex around base/files/last", "FileSet methods"), ("per-file mutex around lines/infos", "File methods")])
p("C02", "The Go import set is safe for concurrent use and never double-books a name",
  "Any number of goroutines may register and look up imports on one shared import set without data races and without deadlock. The decision that a package name is free and the insertion that claims it happen in one uninterrupted critical section, so two different import paths never end up under the same non-blank name. Lookups hand out copies, never the set's own records.",
  ["schedules", "histories"], "all interleavings of registrations and lookups",
  "The concurrency contract is documented but the tests are sequential.",
  ["codegen/codegen_imports.go"],
  [("lock held by lockedVersion() until unlock()", "Imports.Register/RegisterAliased/registerUnaliased/Find*"), ("copy on the way out", "importDef.asImport")])
p("C03", "CSV row decoding can be set up and used from many goroutines",
  "Registering row types, constructing file parsers and decoding rows or cells may happen concurrently in any number of goroutines without data races and without deadlock: all package-level registries are read and written only under their lock, and a registered parser is complete before it becomes visible to other goroutines and is never modified afterwards.",
  ["schedules"], "all interleavings of registration, parser construction and decoding",
  "Tests register and decode from one goroutine.",
  ["csvcoder/csvcoder_row.go", "csvcoder/csvcoder_cell.go"],
  [("registry mutexes", "registry.registeredRowTypesLock, defaultRegistryMapMutex")])

# ---------------------------------------------------------------- service
p("S01", "The service reaches files only through its host's handlers",
  "Whatever request is sent, the inference and code-generation service and every library it is built on read and write files only through the reader and writer functions its host supplied. They never open files, start processes, use the network, exit the process, read environment or flags, or print to standard output on their own (diagnostic log lines apart).",
  ["inputs", "configurations"], "all requests, all call paths from the service and the conversion libraries",
  "Tests inject no-op handlers and would not notice an additional direct file access or process exit on an untested path.",
  ["service/service.go", "service/service_infer.go", "service/service_generate_code.go", "csvtoproto", "recordinfer", "csvinfer"],
  [("injected readFile/writeFile", "service.New")])
p("S02", "Generated files stay inside the workspace",
  "For every request, each file the service writes lies inside the workspace directory of that request (or the default workspace): an absolute output directory or name, an empty output name, or one that climbs out of the workspace is refused and nothing is written for it.",
  ["inputs"], "all combinations of workspace, output directory and output file name",
  "Tests use two benign paths.",
  ["service/service_generate_code.go"],
  [("output path validation", "pathFromParts")])
p("S03", "A code-generation answer tells exactly what was written",
  "Every output file reported in a successful code-generation response was written through the host's writer with exactly the reported contents at exactly the reported place under the workspace, and every file written is reported. A request that is refused as invalid writes nothing. If any write fails the call fails and no success is reported.",
  ["inputs", "fault_sequences"], "all requests and all outcomes of the host's writer",
  "Tests ignore the contents written and never make the writer fail.",
  ["service/service_generate_code.go"],
  [("write then report", "GenerateCode")])
p("S04", "Every failed call answers with a status code, never with a partial answer",
  "Each inference or code-generation call answers either with a response and no error, or with no response and a gRPC status error; a missing file and a forbidden file are reported as not-found and permission-denied. A failure reported by the host's reader or writer is never answered as a success.",
  ["inputs", "fault_sequences"], "all requests and all errors of the host's file handlers",
  "The tests only check one error case and never its code.",
  ["service/service_infer.go", "service/service_generate_code.go"],
  [("grpc.Errorf at every error return", "Infer, GenerateCode, fileErrToStatusErr")])

# ---------------------------------------------------------------- errors / effects / resources
p("E01", "No failure is swallowed by the libraries",
  "In every library package, when an operation that can fail reports a failure, the failure reaches the caller: its error is returned (possibly wrapped), handed to the caller's callback, or turned into a documented alternative. No library call reports success, returns a nil error, or continues as if nothing happened after a step it depends on has failed.",
  ["inputs", "fault_sequences"], "all call sites of fallible operations, all failing outcomes",
  "Tests inject almost no faults; a dropped error is invisible until the step fails.",
  ["csvcoder", "textcoder", "csvtoproto", "csvtoprotoparse", "recordinfer", "csvinfer", "xmlinfer", "protocp", "rdf", "sexpr", "wirepath", "service", "codegen", "textpos"],
  [("explicit error returns", "every package")])
p("E02", "A command that fails exits with a failure status",
  "For each command-line program, if any step it performs fails (reading inputs, parsing, generating, writing, running a tool, serving), the program prints the error and ends with a non-zero exit status; it never ends successfully after a failed step.",
  ["inputs", "fault_sequences"], "all programs under cmd, releasing, playground and the test-case generator; all failing steps",
  "The commands have no tests.",
  ["cmd/xtoproto/xtoproto.go", "cmd/xtoproto_web/xtoproto_web.go", "releasing/make_release/make_release.go", "playground/playground.go", "rdf/rdfxml/generate_test_cases/generate_test_cases.go"],
  [("run() error + glog.Exitf/os.Exit(1) in main", "each main package")])
p("E03", "Libraries leave the process alone",
  "Apart from the command programs and diagnostic log lines, no package ends the process, writes to standard output or standard error, changes process-wide state such as the working directory, environment or default handlers, or starts goroutines that outlive a call.",
  ["inputs", "configurations"], "all call paths from exported library functions",
  "A stray exit or print on a rare path is not sampled by tests.",
  ["csvcoder", "textcoder", "csvtoproto", "csvtoprotoparse", "recordinfer", "csvinfer", "xmlinfer", "protocp", "rdf", "sexpr", "wirepath", "service", "codegen", "textpos"],
  [("no os/log/flag effects", "library packages")])
p("E04", "End of input means success only at a record boundary",
  "A reader reports a clean end of input only when the input ended between records: an input that ends inside a CSV header, an XML element, an RDF description, or an s-expression list, string or comment is reported as an error different from the clean end-of-input marker, and the documents read so far are not passed off as a complete result.",
  ["inputs", "fault_sequences"], "every truncation point of every input",
  "Tests feed complete inputs and a handful of malformed ones.",
  ["sexpr/sexpr.go", "csvcoder/csvcoder_file.go", "rdf/rdfxml/rdfxml.go", "xmlinfer/xmlinfer.go", "protocp/protocp.go"],
  [("io.EOF handled only at top level", "ReadForm, FileParser.Read/ReadAll, readTriples, Infer, Copy")])
p("F01", "Files opened by the code are always released",
  "Every file or response body that the libraries and commands open is closed exactly on every way out of the operation that opened it, including failures, unless ownership is handed to the caller. When the file was written to, a failure to close it is reported as a failure.",
  ["inputs", "fault_sequences"], "all exits of every operation that opens a file or body",
  "Leaks on error paths are invisible to tests.",
  ["protocp/protocp.go", "cmd/xtoproto_web/xtoproto_web.go", "rdf/rdfxml/generate_test_cases/generate_test_cases.go", "releasing/make_release/make_release.go"],
  [("deferred close with error capture", "CopyFile")])
p("P01", "A record copy feeds every destination every record, in order, then finishes",
  "Copying a record stream delivers each record read, in reading order and exactly once, to the destination (and to every destination of a composite one), and reports the first failure. Destinations are finished only after the input has ended cleanly, never after a failed read or a failed delivery, and a composite destination finishes every one of its destinations.",
  ["inputs", "fault_sequences"], "all record streams, all failures of reader and destinations",
  "There are no tests for the copier.",
  ["protocp/protocp.go", "protocp/protocp_writers.go"],
  [("read loop", "Copier.Copy"), ("fan-out", "compositeRecordWriter.addRow/finalize")])

# ---------------------------------------------------------------- determinism
p("D01", "The same input always yields the same output",
  "Inferred mappings, generated .proto and Go code, parsed triples and error messages are a function of the inputs and options alone. No output depends on hash-map iteration order, on the clock, on randomness, on addresses, or on scheduling.",
  ["inputs", "schedules", "histories"], "all inputs; all iteration orders the runtime may choose",
  "Go randomises map order per run; tests with one key or a sorted comparison do not see it.",
  ["recordinfer/recordinfer.go", "xmlinfer/xmlinfer.go", "csvtoproto/csvtoproto.go", "csvcoder", "rdf"],
  [("collect keys then sort", "statisticalComment, topNExamplesComment, inferredMessages, sortImports, parseHeader")])

# ---------------------------------------------------------------- panic freedom
p("N01", "No wire path or message makes the wire-path package crash",
  "Parsing any string as a wire path, printing any path, and evaluating any path against any message returns a value or an error; it never panics, also for unknown field numbers, negative or too large list offsets, and map keys of the wrong kind.",
  ["inputs"], "all strings, all path values, all messages",
  "Tests evaluate paths that fit their message.",
  ["wirepath/wirepath.go", "wirepath/wirepath_from_string.go", "wirepath/wirepath_protostrings.go"],
  [("kind and bound checks", "getValue, parsePathElem")])
p("N02", "No RDF document, N-Triples line or IRI string makes the RDF packages crash",
  "Parsing or checking any text as an IRI, N-Triples line or RDF/XML document, and resolving or normalising any IRI, ends with a result or an error and never with a panic.",
  ["inputs"], "all strings and XML token streams",
  "Tests run the W3C suite, not arbitrary inputs.",
  ["rdf/iri", "rdf/ntriples", "rdf/rdfxml"],
  [("submatch, index and nil checks", "parse functions")])
p("N03", "No input text makes the s-expression reader crash",
  "Reading forms from any text ends with a form or an error and never with a panic, also for unterminated lists, strings and comments and for unbalanced delimiters (nesting within what memory and stack hold).",
  ["inputs"], "all texts",
  "Tests read a dozen well-formed snippets.",
  ["sexpr"],
  [("bounds checks", "FormReader, strSourceFile")])
p("N04", "No data file makes inference or code generation crash",
  "Inferring a definition from any CSV text, any record rows or any XML token stream, and generating code from any mapping, ends with a result or an error and never with a panic.",
  ["inputs"], "all CSV and XML inputs and all mappings",
  "Tests use small regular inputs.",
  ["recordinfer", "csvinfer", "xmlinfer", "csvtoproto", "service"],
  [("guards before indexing and dereferencing", "all")])
p("N05", "No CSV row or text value makes decoding crash",
  "Decoding any row or text value into a destination of a registered type, and every conversion helper the generated code calls, ends with a value or an error and never with a panic, also for short rows, missing columns and malformed cells.",
  ["inputs"], "all rows, header orders and cell texts",
  "Tests use rectangular rows.",
  ["csvcoder", "textcoder", "csvtoprotoparse"],
  [("bounds and validity checks", "inferRegisteredType, builtins")])

# ---------------------------------------------------------------- values
p("L01", "Values yielded one after another are independent of each other",
  "Records, triples, forms, columns and parsers produced in a sequence never share a variable: a value handed out in one step keeps its content when later steps run, and each stored callback works on the element it was created for.",
  ["inputs", "histories"], "all sequences of results kept by a caller",
  "Go before 1.22 semantics shares loop variables; a test that inspects one element, or each before the next, passes.",
  ["rdf/rdfxml/rdfxml.go", "csvcoder/csvcoder_row.go", "textcoder/textcoder_builtins.go", "recordinfer/recordinfer_timestamps.go"],
  [("per-iteration copies", "a := a")])
p("T01", "Numeric text is decoded exactly or refused",
  "Decoding a text into an integer or floating point destination stores the value the text denotes, or fails: a value outside the destination's range is refused and never wrapped, truncated or saturated, for every width, signedness and named type built on them, by the text coder and by the helpers the generated converters call.",
  ["inputs"], "all texts, all basic numeric kinds",
  "Tests cover a few in-range values per kind.",
  ["textcoder/textcoder_builtins.go", "csvtoprotoparse/csvtoprotoparse.go"],
  [("bit size given to the parser equals the width stored", "RegisterBasicTypes, ParseInt32, ...")])
p("T02", "A failed decode leaves the destination untouched",
  "When decoding a text into a destination fails, the destination still holds what it held before, for every basic kind and every named type built on one.",
  ["inputs"], "all malformed texts, all basic kinds",
  "Tests check the error, not the destination.",
  ["textcoder/textcoder_builtins.go", "textcoder/textcoder.go"],
  [("assign only after the error check", "decoders")])
p("T03", "The caller's context reaches every callee",
  "An operation that is given a context passes that same context, or one derived from it, to everything it calls on the caller's behalf: custom coders see the caller's text-coding context, and file handlers, readers, writers and servers see the caller's request context.",
  ["inputs", "histories"], "all operations that take a context",
  "Tests pass background contexts only.",
  ["textcoder/textcoder.go", "protocp/protocp.go", "protocp/protocp_writers.go", "service"],
  [("ctx parameter forwarded", "UnmarshalContext, MarshalContext, DecodeText, Copy, Infer, GenerateCode")])
p("T04", "Every basic kind can be both decoded and encoded",
  "Every basic boolean, integer, floating-point and string kind, and every named type built on one, has both a decoder and an encoder, and the two work on that very type. Registering a coder checks the whole signature of the supplied functions, so a registered coder can always be called without a type mismatch.",
  ["inputs", "configurations"], "all basic kinds and all registrable functions",
  "Tests register a few signatures and round-trip a few kinds.",
  ["textcoder/textcoder.go", "textcoder/textcoder_builtins.go"],
  [("table of built-in coders", "RegisterBasicTypes"), ("signature checks", "createEncoderFn, createDecoderFn, checkSignature")])

# ---------------------------------------------------------------- RDF
p("R01", "Only strings that match the IRI grammar are accepted as IRIs",
  "Parsing accepts a string as an IRI or IRI reference only if the whole string, from first to last character, matches the reference grammar of RFC 3987: no part of it is left unchecked, and no character outside the grammar's character classes is let through in any component.",
  ["inputs"], "all strings",
  "Tests list some valid and invalid IRIs.",
  ["rdf/iri/iri.go"],
  [("component regular expressions, anchored at both ends", "Parse and its package-level patterns")])
p("R02", "Reference resolution takes each component from the right place",
  "Resolving a reference against a base follows RFC 3986 section 5.2.2: for each of the cases (reference has a scheme, an authority, a path, a query, or none of them) the scheme, the whole authority (user info, host and port), path, query and fragment of the result come from the reference or the base as that algorithm prescribes, the fragment always from the reference.",
  ["inputs"], "all base and reference IRIs, by presence of each component",
  "Tests use the RFC's examples, which have no port or user info.",
  ["rdf/iri/iri_resolve.go"],
  [("five-way case split", "resolveReference")])
p("R03", "Only lines that match the N-Triples grammar are accepted",
  "Parsing a line accepts it only if every term (IRI reference, blank node label, quoted literal, language tag, datatype) and the closing dot and trailing comment match the W3C N-Triples token grammar, with nothing left over; terms match from their first to their last character.",
  ["inputs"], "all strings",
  "Tests list some lines.",
  ["rdf/ntriples/ntriples.go"],
  [("token regular expressions anchored at the start and remainder checks", "ParseLine, parseSubject, parseObject, parseIRIRef, parseBlankNode, ParseLiteral")])
p("R04", "Printed N-Triples literals can be read back",
  "For every literal, the printed form is a legal N-Triples literal that denotes the same lexical form: every character that may not appear raw in a quoted literal is escaped when printing, and the escapes written are exactly ones that reading maps back to the same character.",
  ["inputs"], "all lexical forms",
  "Tests print a few ASCII strings.",
  ["rdf/ntriples/ntriples.go"],
  [("escape table", "canonicalStringLiteral / LiteralString"), ("unescape table", "parseStringLiteral")])
p("R05", "RDF/XML scopes and generated identifiers",
  "xml:base and xml:lang apply to exactly the element that carries them and its content: each is in effect from the element's start to its end and the previous value is restored on every way out. Blank node identifiers made up by the parser never coincide with each other or with node identifiers used in the document, and the same rdf:ID under the same base is refused when used twice.",
  ["inputs"], "all documents and nestings",
  "Tests run the W3C suite which nests shallowly and never uses colliding names.",
  ["rdf/rdfxml/rdfxml.go"],
  [("base and language stacks", "handleGenericStartElem"), ("identifier bookkeeping", "generateBlankNodeIDWithHint, declareID")])
p("R06", "Misused RDF terms and stray content are refused",
  "An RDF/XML document that uses a reserved RDF name where the specification forbids it (as a node element, property element or property attribute), combines mutually exclusive attributes, or has text or elements where none are allowed is refused with an error; nothing in a document is silently skipped apart from white space, comments and processing instructions.",
  ["inputs"], "all documents",
  "The W3C negative tests sample some misuses.",
  ["rdf/rdfxml/rdfxml.go"],
  [("forbidden-name tables", "coreSyntaxTerms, oldTerms, checkNodeElementURI, checkPropertyElementURI, isPropertyAttr"), ("default error arms", "token switches")])

p("R07", "Every RDF/XML element yields its statements",
  "Every property element of an accepted RDF/XML document yields exactly one statement about the node element it stands in, whatever its children and attributes are; property attributes and typed node elements yield theirs about the same node. rdf:li elements are numbered from 1 upward within each node element, rdf:ID on a property element adds the four statements that reify exactly its statement, a Collection yields one linked list with all its members in their order that ends in rdf:nil, and a node without a name is one that no other element refers to.",
  ["inputs"], "all documents and all combinations of attributes",
  "The W3C suite samples single combinations; lists there have at most three members and reification is tried on few kinds of property element.",
  ["rdf/rdfxml/rdfxml.go"],
  [("statement emission", "readNodeElemUsingSubject, readPropertyElemInternal"), ("reification", "emitReifiedTriple"), ("collections", "readSequencePropertyElem")])

# ---------------------------------------------------------------- wire path
p("W01", "Every kind of wire-path element can be written, read and followed",
  "Each kind of path element (field number, list offset, and a map key of every key type the protobuf language allows) that can be represented can also be printed, and evaluated against a message, and each textual spelling selects the element of exactly that kind; no kind is silently treated as another or dropped.",
  ["inputs", "configurations"], "all element kinds, all map key types",
  "Tests use field numbers, offsets and string or int keys.",
  ["wirepath/wirepath.go", "wirepath/wirepath_from_string.go", "proto/wirepath/wirepath.proto"],
  [("per-kind switches", "setSlotBasedOnMapKeyLiteral, slotMapKeyValue, extractPrettyPathElem, extractSlotMapKeyKind")])
p("W02", "Following a path never changes the message",
  "Evaluating a path against a message, whether it succeeds or fails, only reads the message, and paths are immutable values: neither printing nor evaluating changes a path, and a path made from a wire message does not change when the caller later changes that message.",
  ["inputs", "histories"], "all paths and messages",
  "Tests do not compare the message before and after.",
  ["wirepath/wirepath.go"],
  [("read-only reflection calls", "getValue"), ("defensive copies", "FromProto, Proto")])
p("W03", "A parsed path keeps every component",
  "Parsing a path of any length yields the chain of all its components in the order they are written, and printing or evaluating a path of any length uses all of them.",
  ["inputs"], "paths of every length",
  "Tests parse short paths.",
  ["wirepath/wirepath_from_string.go"],
  [("linking of successive elements", "ParseString"), ("loop over the chain", "debugString, getValue")])

# ---------------------------------------------------------------- sexpr
p("X01", "The s-expression reader loses no character",
  "Every character the reader consumes ends up in exactly one of: the value of a form, a delimiter, white space, or a comment, or causes an error; no character of a symbol, number or string is dropped, duplicated, or replaced.",
  ["inputs"], "all texts",
  "Tests have no symbols with a slash or backslash.",
  ["sexpr/sexpr.go"],
  [("rune by rune reader", "readNumberSymbolOrComment, readString, readWhitespace, readPossibleComment")])

# ---------------------------------------------------------------- generator and inference
p("G01", "Every type that can be inferred can also be generated",
  "Each field type the inference can choose is accepted by both halves of the code generator (the record struct and the conversion to the message), and each type the generator accepts in one half it accepts in the other, with conversion helpers that exist and return what the generated field needs. A type the generator does not support is refused with an error and never generates broken code.",
  ["inputs", "configurations"], "all field types and parsing options",
  "Tests generate code for a few types and compare text; the generated code for others is never compiled.",
  ["csvtoproto/csvtoproto_go_codegen.go", "recordinfer", "csvtoprotoparse/csvtoprotoparse.go"],
  [("two type tables", "getFieldTypeCode, getGoToProtoFieldExpression")])
p("G02", "Text taken from data is quoted before it becomes code",
  "Column names, comments, layouts, time zones and other free text from the mapping appear in the generated .proto and Go code only inside properly quoted string literals or as comment lines that cannot end early; only names and types chosen as identifiers appear bare.",
  ["inputs"], "all mappings with arbitrary text",
  "Tests use plain names.",
  ["csvtoproto/csvtoproto.go", "csvtoproto/csvtoproto_go_codegen.go", "recordinfer/recordinfer.go"],
  [("%q formatting and comment prefixing", "protoCode, formatProtoComment, makeStructCode, getFieldTypeCode")])
p("I01", "An inferred column type fits every sample value",
  "Inference gives a column a type other than text only when every sample value of that column was checked against that type and parsed; one value that does not parse excludes the type, wherever it is in the data, and no row or value is left out of the check.",
  ["inputs"], "all tables",
  "Tests use a few rows.",
  ["recordinfer/recordinfer.go", "xmlinfer/xmlinfer_string_fields.go"],
  [("candidate elimination loop", "inferType, inferFieldTypeFromExampleStrings")])

p("I02", "Inferred fields have legal, distinct names and numbers",
  "Whatever the columns, elements and attributes of the data are called, every field and message of an inferred definition has a name that Protocol Buffers accept as an identifier, no two fields of one message have the same name or the same number, and every number is positive; a column that is mapped to a field is named by its place, counted from 0. Where the data's own name cannot be used, another is made from it or inference answers with an error; it never yields a definition that does not compile for such a reason.",
  ["inputs"], "all column, element and attribute names, and any number of them",
  "Tests use a few names that are identifiers already and differ from each other.",
  ["recordinfer/recordinfer.go", "csvinfer/csvinfer.go", "xmlinfer/xmlinfer.go"],
  [("names and numbers of columns", "RecordBasedInferrer.Build, columnNameToFieldName, unusedFieldName"),
   ("names of elements and attributes", "xmlinfer message builder")])

p("V01", "Every CSV cell reaches the field its column is named for",
  "Decoding a CSV row into a registered struct sets each public field that has no csv-skip tag from the cell of that row that stands under the header cell that is, character for character, the field's csv tag (or, without one, the field's name), whatever the order of the columns and however many others there are. The text handed to the field's decoder is the cell as it was read. Every such field is set and no other; a file without a required column, or a row without the cell, is refused with an error rather than accepted with a field left out.",
  ["inputs"], "all row types, headers and rows",
  "Tests use a few structs whose columns are present and mostly in order.",
  ["csvcoder/csvcoder_row.go", "csvcoder/csvcoder_file.go"],
  [("fields of a row type", "inferRegisteredType"), ("columns of a header", "NewHeader, Header.ColumnIndex"), ("decoding of a row", "structParser.ParseCSVRow")])

p("G03", "Every mapped column has its field in the generated code",
  "For every mapping, each column that is not marked as ignored, and only those, has one field in the generated definition, with the mapping's own name, number and type for that column, and is read into one field of the generated record, which is bound to exactly the column's name, and converted into the message's field. No column is left out because of its place, its type, its name or the columns before it; the extra field definitions and every import a field needs are in the definition too. Where code cannot be generated for a column, generation fails as a whole.",
  ["inputs"], "all mappings",
  "Tests use mappings of a few columns, none of them ignored.",
  ["csvtoproto/csvtoproto.go", "csvtoproto/csvtoproto_go_codegen.go"],
  [("fields of the definition", "codeGenerator.protoCode"), ("fields of the record and the message", "codeGenerator.makeStructCode")])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for x in P: f.write(json.dumps(x, ensure_ascii=False) + "\n")
print(len(P), "properties")
