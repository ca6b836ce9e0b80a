prop("P01", "SHACL validation never turns a failure into a verdict",
     "When an operation that SHACL validation depends on fails (reading the data, running a query, resolving a target, evaluating a nested shape), "
     "the validation reports an error. It never returns a report that treats the failed check as satisfied or violated, or that omits the affected nodes.",
     ["inputs", "fault_sequences"], "every shapes graph, every data graph, every operation of the validator that can fail, at every point where it can fail",
     "Tests run on stores that never fail; the failure outcome of each call site is never taken.",
     ["shacl/src/validator"], [("Result propagation", "shacl/src/validator/constraints/mod.rs, engine/validate.rs, engine/mod.rs")], ERR, ERRNOTE)
prop("P02", "ShEx validation never turns a failure into a verdict",
     "When an operation that ShEx validation depends on fails (reading neighbourhoods, resolving a shape label, building the typing), the validation reports an error for the run. "
     "A failed operation is never counted as conformance or non-conformance and no requested node/shape pair silently disappears from the result.",
     ["inputs", "fault_sequences"], "every schema, shape map and data source, every operation of the validator that can fail, at every point where it can fail",
     "Tests run on stores that never fail; the failure outcome of each call site is never taken.",
     ["shex_validation/src/engine.rs", "shex_validation/src/validator.rs"], [("Result propagation", "shex_validation/src/engine.rs")], ERR, ERRNOTE)
prop("P03", "A failed command or library operation is reported, never silently successful",
     "When any step of a (non-interactive) command or of a library operation fails, the operation returns an error and the process ends with a non-zero exit status. "
     "This includes failures to open, write or flush the output.",
     ["inputs", "fault_sequences", "configurations"], "every command, every option combination, every failing step, including I/O errors on the output",
     "Tests exercise the successful path; I/O faults and rarely used option combinations are not injected.",
     ["rudof_cli/src", "rudof_lib/src"], [("Result propagation up to main", "rudof_cli/src/main.rs"), ("builders' execute", "rudof_lib/src/api")], ERR, ERRNOTE)
prop("P04", "A failed MCP operation is reported as an error",
     "When an operation behind an MCP tool, prompt, resource or HTTP request fails, the client receives an error (a protocol error, a tool result carrying the error, or an HTTP error status); "
     "a failure is never presented as success.",
     ["inputs", "fault_sequences"], "every request, every tool, every operation behind it that can fail",
     "Tests call the tools with well-formed input on stores that work.",
     ["rudof_mcp/src"], [("Result propagation and error tool results", "rudof_mcp/src/service")], ERR, ERRNOTE)
prop("P35", "Reading or querying RDF data never silently yields partial data",
     "When reading RDF in strict mode, querying a store or accessing a SPARQL endpoint fails part-way, the caller gets an error. "
     "The caller never receives an empty or truncated graph, triple list or solution sequence that looks complete.",
     ["inputs", "fault_sequences"], "every document, endpoint and query, every point of failure",
     "Tests do not inject endpoint failures or failures half-way through a stream.",
     ["rudof_rdf/src/rdf_impl/oxigraph", "rudof_rdf/src/rdf_core", "sparql_service/src"],
     [("Result propagation", "rudof_rdf/src/rdf_impl/oxigraph/in_memory.rs, endpoint.rs")], ERR, ERRNOTE)
prop("P36", "Malformed schemas are reported, never silently reduced",
     "When a part of a SHACL shapes graph, ShEx schema, shape map, DCTAP profile or property-graph schema cannot be read, compiled or converted, the operation reports an error. "
     "It never drops the offending part and continues with a weaker schema.",
     ["inputs", "programs"], "every schema document, every malformed part of it",
     "Tests mostly read well-formed schemas; the error outcome of most conversion steps is never taken.",
     ["shacl/src/rdf", "shacl/src/ir", "shex_ast/src", "dctap/src", "pgschema/src", "shapes_converter/src"],
     [("Result propagation", "shacl/src/rdf/parsers, shex_ast/src/ir/ast2ir.rs")], ERR, ERRNOTE)

TAB = "abstract interpretation of the type-checked MIR into a decision table: stable operations are named atoms, every path's assumptions and result are compared with the row the definition demands"
TABNOTE = "rows are exhaustive over the named observations (conformance of inner shapes, kind, ordering, membership, counts); list sizes are bounded as stated in the evidence"
prop("P14", "SHACL sh:and, sh:or, sh:xone, sh:not, sh:node, sh:qualifiedValueShape semantics",
     "In both validation engines, a focus node has a result for sh:and (or, xone, not, node, qualified min/max count) exactly when the SHACL definition says so, given which member shapes each value node conforms to. "
     "There is one result per offending (focus node, value node), for qualified counts one per focus node. It names the focus node, value, constraint component, path, shape and severity.",
     ["inputs", "programs"], "every shapes graph and data graph: every combination of conformance of the member shapes and every bound",
     "Tests use a few combinations of member shapes; mixtures of several values, several focus nodes and sibling shapes are rare.",
     ["shacl/src/validator/constraints/core/logical", "shacl/src/validator/constraints/core/shape_based"],
     [("truth tables", "shacl/src/validator/constraints/core/logical, core/shape_based")], TAB, TABNOTE)
prop("P15", "SHACL value constraints decide as defined, in both validation engines",
     "For every kind of value node (IRI, blank node, literal), the native and the SPARQL engine report a violation of a core value constraint exactly when SHACL defines one. "
     "This covers sh:nodeKind, sh:datatype, sh:class, sh:min/maxCount, sh:min/maxLength, sh:pattern, sh:min/maxInclusive/Exclusive, sh:in, sh:hasValue, sh:languageIn, sh:uniqueLang, "
     "sh:equals, sh:disjoint, sh:lessThan, sh:lessThanOrEquals and sh:closed.",
     ["inputs", "configurations"], "every value node, constraint parameter and store content, both engines",
     "Tests pick a few values per component; most combinations of value kind, comparability, engine and component are never taken.",
     ["shacl/src/validator/constraints/core"], [("component validators", "shacl/src/validator/constraints/core"), ("SPARQL texts", "shacl/src/validator/constraints")], TAB, TABNOTE)
prop("P18", "SHACL shapes are applied to exactly their target nodes and value nodes",
     "In both validation engines, a shape is evaluated on the union of its targets: sh:targetNode, sh:targetClass and implicit class targets including instances of all transitive subclasses, sh:targetSubjectsOf and sh:targetObjectsOf. "
     "A deactivated shape has no results. Otherwise the results of a shape are those of its own constraints, its nested property shapes and its reifier shapes on each focus node's value nodes, "
     "whether or not the pair was validated before.",
     ["inputs", "programs", "configurations", "histories"], "every shapes graph, data graph and engine; every order in which (node, shape) pairs are validated and cached",
     "Tests rarely use deep class hierarchies, several targets on a shape, or shapes referenced repeatedly so that the cache matters.",
     ["shacl/src/validator/engine", "shacl/src/validator/cache"],
     [("targets", "shacl/src/validator/engine"), ("validate", "shacl/src/validator/engine/validate.rs"), ("cache", "shacl/src/validator/cache")], TAB, TABNOTE)
prop("P17", "SHACL reports are exactly the results of the shapes, in every output",
     "A validation validates every shape that has targets exactly once and reports all of their results. The report conforms exactly when it has no results. "
     "Its RDF form is a sh:ValidationReport with one sh:ValidationResult per result, which carries the focus node, component, severity, path, value, source shape and message of that result; "
     "reading such a graph back gives the same results. The text outputs state the same verdict, counts and rows.",
     ["inputs", "programs", "configurations"], "every report: every combination of results, severities and optional parts, every shapes graph",
     "Tests compare the verdict or the number of results on samples, rarely the fields of each result or its RDF form.",
     ["shacl/src/validator/report", "shacl/src/validator/processor.rs", "rudof_lib/src/display", "rudof_lib/src/api/shacl"],
     [("report", "shacl/src/validator/report"), ("processor", "shacl/src/validator/processor.rs"), ("table", "rudof_lib/src/display/table.rs")], TAB, TABNOTE)
prop("P16", "A SHACL shapes graph compiles to exactly the shapes it declares",
     "Reading and compiling a shapes graph gives exactly the shapes SHACL defines (typed shapes, shapes with targets, values and list members of shape-expecting parameters). "
     "Each has exactly the path, targets, constraints with their parameters, nested shapes, severity, activation, closedness, allowed properties and texts declared for it. "
     "A recursive schema is rejected, a non-recursive one is not, and shapes are ordered after the shapes they refer to.",
     ["inputs", "programs"], "every shapes graph: every constraint component, kind of value, reference structure and combination of declarations",
     "Tests read a few dozen shapes graphs and look at the verdict; rarely used parameters, value kinds and reference structures never occur.",
     ["shacl/src/rdf", "shacl/src/ast", "shacl/src/ir", "rudof_rdf/src/rdf_core/parser"],
     [("shape parsers", "shacl/src/rdf/parsers, rudof_rdf/src/rdf_core/parser/rdf_node_parser"), ("compilation", "shacl/src/ir"), ("dependency graph", "shacl/src/ir/dg")],
     "abstract interpretation of the type-checked MIR of the parser and the compiler over named finite graphs (IRIs and blank nodes are distinct atoms); the resulting schema value is compared with the declarations",
     "graphs enumerate every component, value kind and reference structure once or twice; interactions of more declarations than that rest on the parsers being compositional")

COMP = "abstract interpretation of the type-checked MIR one constructor at a time: the parts are opaque names whose results are given, so that the table of each constructor is the induction step for every expression; bounds and counts are propagated as constants over a grid"
prop("P22", "Triple expressions accept exactly the bags of triples their cardinalities allow",
     "The matcher of regular bag expressions accepts a bag exactly when it belongs to the language of the expression: symbols within their cardinality, all conjuncts together, one disjunct, or as many rounds of a group as its cardinality allows. "
     "This holds for both algorithms, intervals and derivatives. Matching a list of values yields exactly the assignments of every value to a component of its key whose conditions all match and whose bag is accepted, with all the references still pending. "
     "The feasibility test never rules out a bag that would be accepted.",
     ["inputs", "programs"], "every closed expression (open matching, which rudof does not use, excluded), bag, assignment and outcome of the conditions",
     "Tests try a few expressions and bags; nested groups with bounds, repeated symbols and several candidates per value are hardly sampled.",
     ["rbe/src"], [("bag expressions", "rbe/src/rbe.rs, rbe/src/rbe_struct.rs"), ("candidates", "rbe/src/rbe_table.rs"), ("refutation", "rbe/src/feasibility.rs")], COMP,
     "exhaustive per constructor for any result of the parts; cardinalities over {0,1,2,3,unbounded}, bags up to 4+4, up to 3 values and components")

prop("P19", "ShEx shape expressions conform as defined",
     "A node conforms to a ShEx reference, AND, OR, NOT, node constraint or shape exactly when the ShEx semantics says so, given the verdicts of its parts; a labelled abstract or extended shape is tried through its descendants. "
     "For a shape without extends, over local data: the triples of its neighbourhood are the node's outgoing and incoming arcs on the predicates it mentions; arcs on other predicates are ignored unless the shape is CLOSED; "
     "a triple that matches no constraint is allowed only if its predicate is EXTRA; and the matching of the rest must satisfy the triple expression with every reference holding in the typing.",
     ["inputs", "programs"], "every schema and data graph, every combination of verdicts of the parts; semantic actions, external shapes and extends excluded",
     "Tests use a few combinations; CLOSED, EXTRA, inverse arcs and failing references together are rare.",
     ["shex_validation/src/engine.rs", "shex_ast/src/ir/shape.rs"], [("shape expressions", "shex_validation/src/engine.rs"), ("arcs", "rudof_rdf/src/rdf_impl")], COMP,
     "exhaustive per constructor for any verdict of the parts; up to 3 members, 3 triples and 3 constraints")
prop("P20", "A ShEx schema with recursion through negation is rejected, any other is not",
     "A shape depends positively on the shapes it refers to, and negatively on those it refers to under an odd number of negations or through a constraint on an EXTRA predicate. "
     "Exactly the schemas with a negative dependency on a cycle are reported as such: no validator is made for them, and no strict load accepts them, unless the check is switched off. A compiled cache keeps that mark.",
     ["inputs", "programs", "configurations"], "every schema without extends: every dependency structure, every nesting of AND, OR, NOT, references and EXTRA",
     "Tests contain a handful of recursive schemas; longer cycles and nested negations are not sampled.",
     ["shex_ast/src/ir", "shex_validation/src/validator.rs"], [("dependency graph", "shex_ast/src/ir/dependency_graph.rs, shape_expr.rs, shape.rs"), ("enforcement", "shex_validation/src/validator.rs")], COMP,
     "exhaustive per constructor; graphs of up to 3 shapes and 4 dependencies for the cycle test")
prop("P21", "ShEx recursion: no verdict rests on an undischarged assumption",
     "Before a node/shape pair is decided, every pair it depends on is decided, except those already being proved, which are assumed to hold. The verdict is taken with exactly the assumed pairs and those that passed. "
     "A verdict that still rests on an assumption is never remembered for later. Every pair requested in the shape map gets exactly one reported verdict, for that node and shape, whatever was decided before it.",
     ["inputs", "programs", "histories"], "every shape map, schema without extends, data graph and order in which the pairs are decided",
     "Tests contain few recursive data graphs and rarely ask for several pairs that depend on each other.",
     ["shex_validation/src/engine.rs", "shex_validation/src/validator.rs"], [("prove", "shex_validation/src/engine.rs"), ("results", "shex_validation/src/validator.rs")], COMP,
     "exhaustive for any result of the inner proofs; up to 3 pairs and dependencies")
prop("P23", "Literals have the value, order, datatype and identity that RDF and XSD give them",
     "A literal with a numeric, boolean or dateTime datatype is ill-formed exactly when its lexical form is outside the lexical space or the range of that datatype. Two numbers compare by value whatever their datatypes; NaN, ill-formed literals and "
     "values of different kinds are not comparable; literals of an unknown datatype compare only with their own. Reading a literal from the data, writing it back, or asking for its lexical form, datatype, language, length or digits gives what it was made of.",
     ["inputs"], "every literal of the 16 numeric types, boolean, dateTime, strings, language strings and unknown datatypes",
     "Tests sample a few literals per type; boundaries of the ranges and pairs of different types are not covered.",
     ["rudof_rdf/src/rdf_core/term/literal", "rudof_rdf/src/rdf_core/term/triple.rs"], [("literals", "rudof_rdf/src/rdf_core/term/literal")], TAB,
     "exhaustive over datatypes and pairs of datatypes; a grid of boundary values and lexical forms per datatype; parsing of decimals, floats and dates by the libraries is trusted")
prop("P29", "A property path reaches exactly the nodes it denotes",
     "From any node, a SHACL property path reaches exactly the nodes the path relates to it: predicates, sequences, alternatives, inverses (of any path) and the three repetitions, nested in any way, over cyclic data, blank nodes and literals; "
     "each node is reached once and the evaluation has an outcome. Over an endpoint or the data merged with endpoints it is the same relation over all their triples, and an error when an endpoint fails. "
     "The text of a path put into a SPARQL constraint denotes that path.",
     ["inputs"], "every path and data graph, every start node",
     "Tests use one or two short paths; nested repetitions, inverses of complex paths and cycles are not sampled.",
     ["rudof_rdf/src/rdf_core/neighs_rdf.rs", "shacl/src/validator/constraints/sparql/mod.rs"], [("path evaluation", "rudof_rdf/src/rdf_core/neighs_rdf.rs"), ("paths in SPARQL", "shacl/src/validator/constraints/sparql/mod.rs")], COMP,
     "every path up to depth 2 over three predicates and selected deeper ones, over a graph with cycles, a self-loop, a blank node and literals; blank nodes over endpoints excluded")
prop("P38", "ShEx node constraints and value sets accept exactly the terms they describe",
     "A condition on the kind, datatype, length, value, digits or pattern of a node holds exactly when that node is such (a datatype only for a well-formed literal, a bound only for a number). A value set holds for a node exactly when one of its values does: "
     "that IRI or literal, an IRI, literal or language string with that stem and none of the exclusions, a language string of that language.",
     ["inputs", "programs"], "every condition, every kind of value of a value set, every kind of term",
     "Tests combine few kinds of terms with each condition, and hardly any exclusions.",
     ["shex_ast/src/ast/cond_kind.rs", "shex_ast/src/ir/value_set_value.rs", "shex_ast/src/ir/value_set.rs"], [("conditions", "shex_ast/src/ast/cond_kind.rs"), ("values", "shex_ast/src/ir/value_set_value.rs")], TAB,
     "exhaustive per condition and kind of value; a grid of lengths, bounds, stems, tags and up to 2 exclusions")

prop("P08", "A request from a foreign web origin or of an unknown MCP version is refused",
     "The HTTP server of the MCP service only lets a request reach the service when it has no Origin header, or one whose host is `localhost` or an address inside the allowed networks (the loopback networks unless others are given), "
     "and no MCP-Protocol-Version header or one of the three supported versions. Any other request is answered with 403 or 400. Only the host of the origin counts, never its port, path, query or user information. A malformed network is an error at start.",
     ["inputs", "configurations"], "every list of networks, Origin and MCP-Protocol-Version header, route of the server",
     "Tests call the origin predicate on a few well-formed origins; malformed ones and the assembly of the router are not tested.",
     ["rudof_mcp/src/server/streamable_http"], [("guards", "rudof_mcp/src/server/streamable_http/middleware.rs"), ("router", "rudof_mcp/src/server/streamable_http/http_server.rs")],
     "constant propagation through the type-checked MIR of the guards over a grid of headers and networks; the router value served by run_mcp_http is interpreted into its routes and the layers around each",
     "a grid of 259 origins, 6 network lists and 10 versions; exhaustive over the routes; axum, rmcp and IP parsing are trusted")

prop("P10", "Every view of the data is exactly the loaded graph",
     "Whether the data is a graph in memory, a SPARQL endpoint or their union, every look-up of triples, arcs, subjects, objects or instances yields exactly the triples that match, and an error while an endpoint fails; an endpoint's cache never changes an answer. "
     "Reading a document adds exactly its triples; a syntax error is an error in strict mode and skips the statement in lax mode. Loading merges into or replaces the data as asked, keeping every source. Adding or removing a triple changes exactly that one. "
     "SPARQL queries are put unchanged to that same graph and to the endpoints in use, whose answers are joined.",
     ["inputs", "histories", "configurations"], "every graph, query pattern, document, RDF format, reader mode, list of sources, and history of loads, look-ups and changes",
     "Tests load one document once and look up a few patterns; endpoints, unions, caches and reloads are hardly tested.",
     ["rudof_rdf/src/rdf_impl", "rudof_rdf/src/rdf_core/neighs_rdf.rs", "sparql_service/src/srdf_data", "rudof_lib/src/api/data"], [("graph", "rudof_rdf/src/rdf_impl/oxigraph/in_memory.rs"), ("endpoint", "rudof_rdf/src/rdf_impl/oxigraph/endpoint.rs"), ("union", "sparql_service/src/srdf_data/rdf_data.rs"), ("load", "rudof_lib/src/api/data/implementations/load_data.rs")],
     "abstract interpretation of the access functions over finite graphs of named terms; the store cache is an inductive invariant of every mutating method, the endpoint cache a fixpoint over its reachable contents",
     "a grid of patterns over three small graphs; parsers, HTTP and the SPARQL evaluator are trusted; blank nodes in endpoint queries, labels of blank nodes across documents and DESCRIBE are excluded")

prop("P37", "A ShEx schema is compiled to what its text says",
     "The schema the engine runs says what the ShExC or ShExJ syntax tree says: every value, stem, exclusion, facet, node kind and datatype of a node constraint; every predicate, direction, value and cardinality of a triple expression; groups, "
     "references, AND, OR, NOT, CLOSED, EXTRA, EXTENDS and ABSTRACT; the shapes of every imported document, without its start. A schema with a reference to nothing, an undeclared prefix, a negative or cyclic construct or a label declared twice is rejected.",
     ["inputs", "programs"], "every schema and import closure; annotations and semantic actions of groups and shapes excluded",
     "Tests compile a few schemas; exclusions, nested groups, references and errors inside other constructs are not sampled.",
     ["shex_ast/src/ir", "rbe/src/rbe_table.rs"], [("compiler", "shex_ast/src/ir/ast2ir.rs"), ("components", "rbe/src/rbe_table.rs")],
     "abstract interpretation of the compiler's type-checked MIR over syntax trees with opaque literals; the compiled value is read back and compared with the meaning of the tree, one grid row per construct and context",
     "every variant of the syntax tree in every kind of context (two levels: larger trees by induction); lists of up to 4; reading ShExC and ShExJ is not covered")
prop("P24", "Prefixed names and relative IRIs denote what prefixes and base declare",
     "A prefixed name denotes the declared namespace followed by the local name, and is an error when its prefix is not declared. Every IRI of a ShExC schema or of a node or shape selector, wherever it stands, is resolved with the base and the prefixes in force at that place "
     "(a directive replaces those before it, relative ones are resolved against the base so far), and nothing else changes. Where an IRI is displayed with a prefix map, the text is a valid name that denotes this IRI, with the longest declared namespace, or the IRI in angle brackets.",
     ["inputs", "programs"], "every prefix map, name and syntax tree; recognising names in the characters of a document excluded",
     "Tests use one base and namespaces that end in / or #; redeclared prefixes, relative directives, IRIs in rarer constructs and local names that need escapes are not sampled.",
     ["prefixmap/src", "shex_ast/src/ast", "shex_ast/src/shapemap", "shex_ast/src/compact/shex_parser.rs"], [("prefix map", "prefixmap/src/prefix_map.rs"), ("dereferencing", "prefixmap/src/iri"), ("parser", "shex_ast/src/compact/shex_parser.rs")],
     "abstract interpretation of the type-checked MIR of the prefix map, of every implementation of DerefIri on values generated from its type, and of the ShExC parser over sequences of statements; compared with concatenation and RFC 3986 resolution",
     "every variant of the syntax tree with each kind of reference in each place (two levels: larger trees by induction); the IRI library is trusted; excluded: lexing, other formats, resolution of imports")
CPROP = ("constant propagation through the type-checked MIR of the handlers over a grid of inputs, with the library's operations recorded instead of run; "
         "the recorded sequence of operations and values is compared with the documentation's table")
prop("P12", "A command line asks the library for what it names, with the values given",
     "Each subcommand of the command line runs the command of its name. It asks the library, in order, for the operations that its documentation names, each with exactly the values of the given options (or the documented defaults), whatever other options are present, "
     "and for no other; inputs that exclude each other or are missing are an error. --output-file names the file written, which is replaced only with --force-overwrite; --config-file names the configuration; --backend selects memory, QLever or an endpoint.",
     ["inputs", "configurations"], "every subcommand and combination of options that the parser accepts",
     "Tests run a few subcommands with one or two options each; most options and combinations are never given.",
     ["rudof_cli/src"], [("commands", "rudof_cli/src/commands"), ("parser", "rudof_cli/src/cli/parser"), ("builders", "rudof_lib/src/api")], CPROP,
     "per option every variant, alone, missing, with all others and in pairs; excluded: compare --target-folder, validate --max-steps, pgschema --base/--show-time/--show-schema, colours, and what the library's operations do with a value")
prop("P40", "A shell line does what it says and leaves the rest of the session as it was",
     "In the interactive shell every line is obeyed in turn. A subcommand runs as on the command line, on the session's state; loading new data replaces the loaded data unless --merge is given; -o FILE redirects the output of that one command, and a refused file changes nothing. "
     "`reset` clears exactly the named parts of the session, or all of them; `endpoint`, `prefixes` and `config set` change exactly the setting they name, and inspecting changes nothing. A failing line changes no setting and does not end the session.",
     ["inputs", "histories"], "every line and sequence of lines, every state of the session",
     "Tests parse single lines; the effect of a line on the rest of the session, failing commands and the lines after them are not tested.",
     ["rudof_cli/src/shell"], [("repl", "rudof_cli/src/shell/repl.rs")], CPROP,
     "a grid of lines over one session with every part filled; each step of the loop by induction; history, completion and the text of messages excluded; a load that fails after it was accepted may leave the session without data")
prop("P06", "The MCP service saves complete states only, and a restart restores the last one",
     "Wherever the process or the machine stops, the MCP service's state file is the complete old or the complete new state, also while sessions save at the same time. A save that fails is an error and leaves the old state; one that succeeds has replaced it. "
     "What is saved is the given document or all of the session's data as N-Triples, with its number of triples; nothing if there is no state directory. A start loads exactly the saved document, and starts also when the state file is missing, unreadable, malformed, or cannot be loaded.",
     ["crash_points", "schedules", "histories"], "every stop, failing operation and interleaving of two saves of one process; the file system is modelled: rename is atomic, synced content survives",
     "Tests save and load a state once, on a file system that neither fails nor stops, from one session.",
     ["rudof_mcp/src/service/state.rs", "rudof_mcp/src/service/mcp_service.rs"], [("state", "rudof_mcp/src/service")], CPROP,
     "the effects of one save on its files, every stop between two of them, every failing one, all interleavings of two saves; serde_json, the N-Triples library and the file system are trusted")
prop("P41", "An MCP tool asks the library for what the call says and returns what it answers",
     "Each tool of the MCP service asks the library, in order and under the session's lock, for the operations of its documentation with exactly the values given in the call or the documented defaults. The answer carries the library's output, complete and with its real size, format, and counts; "
     "a text preview is a beginning of it. A request that the documentation excludes (unknown format, mode or kind of query) is answered by an error and asks nothing of the library; a failing operation makes the call fail. Data loaded by a tool is saved before it answers.",
     ["inputs", "histories", "schedules"], "every tool, request, library output and failure; natural-language queries excluded",
     "Tests call tools with one or two requests, on small outputs, and hardly make an operation fail.",
     ["rudof_mcp/src/service/tools"], [("tools", "rudof_mcp/src/service/tools")], CPROP,
     "per parameter every accepted value and refused ones, alone and with all others; outputs empty, short, long, not UTF-8; drawn trees up to depth 3; the transport is trusted")
