T_CALL = "who-may-reference rule over the type-checked program and its call graph"
CHECKS = {
 "C01": ("interprocedural static lockset analysis over SSA", "Every access to a lock-protected field or table on every path of every function is examined; assumes the lock-to-field association inferred from the package's own majority and frozen in the analyzer, and that locks are only taken through sync.Mutex/RWMutex methods."),
 "C02": ("interprocedural static lockset analysis and check-then-act critical-section analysis over SSA", "As C01; decides that the free-name test and the insertion share one critical section and that lookups return copies."),
 "C03": ("interprocedural static lockset analysis and publish-then-freeze escape analysis over SSA", "As C01 for the package registries; decides that objects published in a registry are not written afterwards."),
 "S01": (T_CALL, "Complete for references in repository code reachable from the service; trusts that third-party and standard packages outside the effect list do no I/O of their own."),
 "E03": (T_CALL, "Complete for references in library packages; trusts the same effect list as S01."),
 "L01": ("alias and escape analysis of loop-carried variables over SSA", "Every loop in every library function is examined for variables, buffers and record objects that are kept by one step and written by a later one; values kept by foreign code are those of the callbacks and containers the analyzer can see."),
 "T01": ("value-provenance dataflow over SSA with resolved constants", "Every registered numeric decoder and exported parsing helper: the stored value is traced to one strconv parse of the given text with the width, base and signedness of its destination and no conversion in between; trusts strconv."),
 "T02": ("path-sensitive write-before-failure analysis over SSA", "Every store through a destination in the text coder, on all paths; user-supplied decoders are outside."),
 "T03": ("interprocedural context-provenance dataflow over SSA", "Every context handed to a call anywhere in the repository's own code, on all paths; contexts stored in user objects are outside."),
 "T04": ("table-agreement and signature-check dominance analysis over SSA and the type checker", "All registrations, the kind table and all reflective calls; the check that guards a reflective call must compare kind, variadicity, counts and every argument and result type."),
 "E01": ("path-sensitive error-flow analysis over SSA", "Every call that can fail in every library function, on every path assuming the error is not nil; calls documented never to fail (in-memory writers, deferred read-only Close) are listed in the analyzer with the reason."),
 "E02": ("path-sensitive error-flow and exit-status analysis over SSA", "Every call that can fail in every command, on every path assuming the error is not nil, must end in a non-zero exit."),
 "S02": ("path-provenance and guard analysis over SSA", "Every call of the host's writer reachable from a request handler, on all paths through helpers; trusts path.Join and path.Clean, symbolic links are the host's business."),
 "S03": ("write/report pairing by value provenance over SSA", "Every write and every reported file of a handler: same contents, same place, field of its kind, nothing refused after a write; the host's writer is trusted to write what it is given."),
 "S04": ("error-shape and guard-provenance analysis over SSA", "Every return of every request handler, through helpers; the code of each status leaf is matched with the guards that lead to it."),
 "F01": ("path-sensitive resource typestate analysis over SSA", "Every call in libraries and commands, on both platforms, that returns a file, a closable stream or an HTTP response; all ways through the opening function with helpers and deferred functions inline; ownership handed to a caller or stored outside ends the obligation."),
 "P01": ("path-sensitive typestate analysis of the copy protocol over SSA", "Every exported operation of protocp that reads records, on every way, with readers and writers of any kind; loops over members are checked to visit the whole list; the readers' own behaviour is E04's."),
 "X01": ("path-sensitive typestate analysis of consumed characters over SSA", "Every way through every reading function of the s-expression reader, for every character; characters that are not valid UTF-8 are taken as the replacement character by the decoding library and are outside."),
 "E04": ("path-sensitive end-of-input typestate analysis over SSA", "Every read of every reader (CSV, XML, RDF/XML, N-Triples, s-expressions), with the outcomes success, end of input and failure; trusts that encoding/csv and encoding/xml report truncated rows and unbalanced elements as they document."),
 "D01": ("order-taint and nondeterminism-source analysis over SSA with symbolic evaluation of comparison functions", "Every map or otherwise unordered iteration, every clock/random/address source and every formatted value in the libraries and commands (the development web server's file listing excepted); values of interface type supplied by callers are assumed to format themselves deterministically."),
 "R01": ("regular-language inclusion of the accepted texts, derived by path-sensitive dataflow over SSA", "Every exported IRI checker, on all paths: the set of texts that can be accepted, as a regular language over all characters, lies within RFC 3987's IRI-reference; facts are taken from regular expressions, comparisons, trimming, splitting and slicing, anything else counts as telling nothing."),
 "R03": ("regular-language inclusion of the accepted texts, derived by path-sensitive dataflow over SSA", "As R01 for every exported N-Triples term and line checker, plus the loop over lines; every line is checked or the failure reported."),
"R02": ("path-sensitive dataflow over SSA, by classes of references", "From the two texts to the result for every pair of classes of base and reference (authority and its parts, path empty, rooted or rootless, query and fragment absent, empty or present); the result is compared symbolically with RFC 3986 5.2.2. Loops are cut to which components a text is computed from, so removal of dot segments itself is not decided."),
     "R04": ("path-sensitive dataflow over SSA by character classes, with loop-invariant turns", "Printing: one turn of the loop over the characters is followed for each class of characters the code can tell apart, from an invariant state; reading: one turn per written form. Texts are valid UTF-8; a loop in a shape the analysis does not recognise is reported in the evidence as not decided."),
"R05": ("path-sensitive typestate and provenance analysis over SSA, by kinds of element and classes of tokens", "That scopes are in effect and restored, and identifiers checked and apart: the parser is followed through every sequence of kinds of token (white space, text, comment, start and end of an element, end of input, failure) for every name an element can have among those the code tells apart, with up to two kinds of attribute at a time; child elements are taken by the contract of the function that reads them, and receivers of statements go on. Trusts encoding/xml to balance elements and ResolveReference (see R02)."),
"R06": ("path-sensitive typestate and provenance analysis over SSA, by kinds of element and classes of tokens", "That nothing forbidden is accepted and nothing skipped: the parser is followed through every sequence of kinds of token (white space, text, comment, start and end of an element, end of input, failure) for every name an element can have among those the code tells apart, with up to two kinds of attribute at a time; child elements are taken by the contract of the function that reads them, and receivers of statements go on. Trusts encoding/xml to balance elements and ResolveReference (see R02)."),
"R07": ("path-sensitive typestate and provenance analysis over SSA, by kinds of element and classes of tokens", "That the statements emitted are those the element stands for: the parser is followed through every sequence of kinds of token (white space, text, comment, start and end of an element, end of input, failure) for every name an element can have among those the code tells apart, with up to two kinds of attribute at a time; child elements are taken by the contract of the function that reads them, and receivers of statements go on. Trusts encoding/xml to balance elements and ResolveReference (see R02)."),
"G01": ("abstract interpretation of the generators over SSA to string grammars, and type-checking of the texts derived from them", "The generator is interpreted with conditional constants for every column type it knows, inference knows or Protocol Buffers has, for mappings of any length; the grammar of what it can produce is derived in every alternative once and with one and two turns of every loop, parsed and type-checked against the real helper packages and a message with fields of the type. The generated code is never run; names, packages and types chosen as identifiers are taken to be valid and distinct ones."),
"G02": ("abstract interpretation of the generators over SSA to string grammars, and lexical states of every text placed in them", "Every text that comes from the mapping or the data, in every place of the generated Go code and definitions, for all alternatives and repetitions; fields that hold names and types chosen as such may stand bare."),
"G03": ("must-execute and value-flow analysis over SSA", "Each loop over the columns or field definitions goes from the first to the last and adds something for each on every turn, unless the column is ignored or what would be added is itself empty; each part of a definition is a plain copy of the part of that name, and the tag's text of the column's name. How the pieces are put together into text is G01's and G02's. The Go name of a message's field is taken to be its name in camel case."),
"I01": ("path-sensitive dataflow over SSA with quantified collections", "Each collection of samples is analysed with one distinguished element that stands for any: at the choice of a type that element was parsed by the strconv or time function the type is read with, in a width and base it fits; every row, attribute value, element and piece of text that is read reaches the collection; every collection reaches the choice whole. The text of the layout and time zone is compared, what time.Parse and strconv accept is trusted."),
"I02": ("character-set abstract interpretation and check-then-claim analysis over SSA", "Each text that becomes a name is described by the characters it may hold and begin with, through regular expressions, replacements, prefixes and tests; a name is distinct if it was looked up in a set it is then added to on every path, and the set lives as long as the message. The characters ToLower and strcase make are modelled; that the descriptor builder refuses two fields of one name is trusted. Names that differ but have the same JSON name, and the reserved number ranges, are outside."),
"V01": ("value-flow and must-execute analysis over SSA", "The text that reaches each decoder is traced back to the cell, its place to the lookup in the header, and the looked-up name and the destination to the same struct field; the loops over fields, decoders and header cells are checked to leave no turn out but for the documented reasons. Which of two equal header cells counts is open; what reflect and encoding/csv do is trusted."),
 "N01": ("interprocedural difference-bound, nilness and dynamic-type dataflow over SSA", "Every index, slice, assertion, dereference, call of an interface value, panic statement and protoreflect call with a precondition reachable from the package's exported functions; the kinds that typed accessors are defined for follow from W01's tables and are not decided again; memory and stack depth are assumed sufficient."),
 "N02": ("interprocedural difference-bound, nilness and dynamic-type dataflow over SSA", "Every such operation reachable from the exported functions of the IRI, N-Triples and RDF/XML packages, with facts of guards, lengths of matches and callers; functions whose name begins with Must and those documented to panic are outside, as are the lookup of a reserved code point in its constant table and the multiples of three in percent-encoded runs; stacks kept by the RDF/XML parser are popped only after R05's restored scopes; nil receivers of exported types are the caller's business."),
 "N03": ("interprocedural difference-bound, nilness and dynamic-type dataflow over SSA", "Every such operation reachable from the exported functions of the s-expression packages; memory and stack depth are assumed sufficient for the nesting of the text."),
 "N04": ("interprocedural difference-bound, nilness and dynamic-type dataflow over SSA", "Every such operation reachable from the exported functions of inference and generation; the limit on attempts to find a free import name, and nil arguments or callbacks handed in by callers, are outside."),
 "N05": ("interprocedural difference-bound, nilness and dynamic-type dataflow over SSA, with signature-check dominance for reflective calls", "Every such operation reachable from the exported functions of the CSV and text coders and the helpers of generated code, also for short rows and missing columns; reflection: the calls of registered functions and the use of their results (by the signature that was checked), element and field types (by the kind that was checked), and fields that are not exported. Destinations are pointers that are not nil; Set and Convert on values of the registered types, and user-supplied coders, are outside."),
 "W01": ("variant-specialised conditional constant propagation with provenance tags over SSA, and regular-language membership for escapes", "Every slot and element variant of the generated path message, in printing, parsing and evaluation, on all paths; spellings are recognised by string comparison; the protobuf runtime's reflection methods are trusted."),
 "W02": ("effect and freshness analysis over SSA", "Every reflection call and store in the functions reachable from the exported entry points; the value of Proto is documented as read-only and is trusted to be."),
 "W03": ("variant-specialised reachability and loop-carried chain-linking analysis over SSA", "Printing and evaluating are decided for paths of every length; parsing by the construction that links components; the split expression is checked on witnesses of every component kind."),
}
NA = {}
