ORACLE = {
    "*": "the definition in the statement, written out as a table or a set-semantic function in the check; it is independent of the code's structure.",
    "P01": "the typestate rule: on every path on which a fallible operation has failed, the function's outcome carries that failure. Exceptions are listed by exact key with their reason.",
    "P08": "the MCP transport rule (Origin absent or allowed, Host allowed), written out over a grid of origins, hosts and configurations.",
    "P10": "the graph as a set of triples; every look-up is the selection by its pattern, every union the union of the parts.",
    "P16": "the SHACL definitions of shapes and parameters applied to the graph of the row.",
    "P20": "the dependency definition of the ShEx specification, evaluated on the expression.",
    "P22": "the language of the expression as a set of bags, by the definition of its constructors.",
    "P29": "the relation a path denotes, computed by composition and closure of finite relations.",
    "P24": "concatenation, RFC 3986 section 5.2 and the grammar of PN_LOCAL, written in p24.py; a tree is expected to change in its references only.",
    "P37": "the meaning of the syntax tree (`spec` in p37.py), computed without looking at the compiler.",
}
ORACLE["P12"] = "a table written from docs/src/cli_usage and the help texts: per subcommand the operations and which option gives which parameter (`s_*` in p12.py)."
ORACLE["P40"] = "docs/src/cli_usage/shell.md: per line the words given to the parser, the operations, and the parts of the session that may differ afterwards."
ORACLE["P06"] = "an abstract file system: names, files, and which content is on the disk; `rename` is atomic, unsynced content may be lost, a dropped buffer may be lost."
ORACLE["P41"] = "the documentation of the tools and of their request fields (`spec` in p41.py); for trees, the tree that was drawn."
for _k in ("P02", "P03", "P04", "P35", "P36"):
    ORACLE[_k] = ORACLE["P01"]
EXCL = {
    "P01": "tracing and log output (treated as disabled); panics (an abort is no verdict).",
    "P04": "a failed save of the session state after a successful load is best effort and only logged.",
    "P08": "upper-case hosts, bracketed `[localhost]`, numeric encodings of addresses, IPv4-mapped addresses, invalid ports, fragments after the host: the rule leaves them open.",
    "P10": "collisions of blank-node labels between merged documents; blank nodes in endpoint queries; the remainder of outgoing_arcs_from_list on endpoints; the base IRI outside Turtle; DESCRIBE; a failing endpoint in all_triples (recorded under P03).",
    "P16": "ill-formed values of optional parameters without influence on validation (sh:order, sh:group, texts).",
    "P19": "extends (partition semantics), semantic actions of shapes and groups, CLOSED with an EXTRA predicate that the expression does not mention.",
    "P22": "open matching (`open = true`), which rudof does not use.",
    "P23": "hash consistency, xsd:integer beyond i128, mixed-type equality beyond the range of Decimal, the order of language strings, non-canonical booleans; doubles beyond 15 digits are a known finding.",
    "P29": "blank nodes of the data over endpoints (they cannot be named in a query).",
    "P12": "what a library operation does with a value it is given; compare --target-folder, validate --max-steps, pgschema --base/--show-time/--show-schema and show_colors, which no operation uses.",
    "P40": "completion, history, banner, wording of messages; data lost by a load that was accepted and then failed.",
    "P06": "synchronising the directory, saves of several processes, temporary files that stay behind after a crash, data of a state that cannot be loaded completely.",
    "P41": "natural-language queries (sampling), external resolvers (they accumulate across calls), the reading of input specifications, wording of messages, the rmcp transport.",
    "P24": "recognising names and escapes in the characters of a document; other formats (Turtle, SPARQL and JSON-LD are read by libraries); fetching imports; what `extend` and `join` do.",
    "P37": "annotations, semantic actions of groups and shapes, reading ShExC and ShExJ; prefix and base resolution are named operations here.",
}
SEEDS = '''
| planted change | property | caught by |
|---|---|---|
| P01-target-objects-error | P01 | P01 |
| P02-dependency-lookup | P02 | P02 |
| P03-second-pg-source | P03 | P03 |
| P04-resolver-spec | P04 | P04 |
| P08-host-suffix | P08 | P08 |
| P10-named-graph | P10 | P10 |
| P14-single-disjoint-sibling | P14 | P14 |
| P15-class-in-sparql | P15 | P15 |
| P06-same-count | P06 | P06 |
| P06-backup-first | P06 | P06 |
| P12-base-of-the-shapes | P12 | P12 |
| P40-silent-after-failure | P40 | P40 |
| P41-base-of-the-shapes | P41 | P41 |
| P41-preview-in-bytes | P41 | P41 |
| P16-fourth-member | P16 | P16 |
| P17-long-alternative | P17 | P17 |
| P19-inverse-of-literal | P19 | P19 |
| P20-inner-self-negation | P20 | P20 |
| P21-memo-after-sibling | P21 | P21 |
| P22-empty-rounds | P22 | P22 |
| P23-long-range | P23 | P23 |
| P29-cycle-through-start | P29 | P29 |
| P35-nquads-stop-at-error | P35 | P35 |
| P37-duplicate-label | P37 | P37 |
| P24-extra-without-base | P24 | P24 |
| P24-first-declaration | P24 | P24 |
| P24-fragment-of-base | P24 | P24 |
| P38-second-exclusion | P38 | P38 |

Besides these, batches of 20 to 40 single edits per area (mutations of the anchored functions, and refactorings of them that keep the behaviour) were run
against the checks of the area; misses led to new rows (for example: a second exclusion, a third member, two endpoints, a conjunction with an or inside, an absent
prefix), alarms on refactorings to the corrections listed below.
'''
FA = '''
* P08: `str::parse::<IpAddr>` instead of `FromStr::from_str`, collecting before filtering and reordered guards were alarms; both forms now have the same transfer function.
* P10: two blank nodes with the same label in two merged documents were judged as the same node; the row was removed (the statement leaves labels open).
* P15, P38: the order of language strings and non-canonical booleans were judged by an order the specifications do not define; rows removed.
* P16: a malformed optional text (sh:order) was demanded to be an error; SHACL does not say so; no longer judged.
* P20: a dependency recorded twice, or an additional positive edge parallel to a negative one, was an alarm; the graphs are compared as sets of signed pairs.
* P21: the order in which dependencies are proved was part of the comparison; now only their set.
* P29: `slice::reverse` had no transfer function, so that a correct inversion of a sequence was an alarm; sequences are now reversed, sorted and deduplicated exactly.
* Engine: no-op statements, extracted helpers, loops rewritten as iterator chains (and back), reordered arms and renamed private functions were each run as refactoring batches; anchors are found by type and role rather than by name wherever the name is private.
'''
