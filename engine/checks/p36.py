from vf import errrule
TITLE = "Malformed schemas are reported, never silently reduced to what could be read"


def run(c):
    errrule.run_rule(
        c, "shacl-front", "every failing operation while reading, compiling or writing a SHACL shapes graph makes the enclosing function report an error",
        r"^shacl/src/(rdf|ir|ast|error|types)", 140, "calls returning Result in the SHACL front end")
    errrule.run_rule(
        c, "shex-front", "every failing operation while compiling ShEx schemas and shape maps makes the enclosing function report an error; parser backtracking (nom) is not a failure",
        r"^shex_ast/src/", 300, "calls returning Result in the ShEx front end", ignore_err=("petgraph::algo::Cycle",),
        exempt=[(r"apply_map_actions .*PrefixMap::resolve$", "the code of a Map action need not be a prefixed name")])
    errrule.run_rule(
        c, "other-front", "every failing operation of the DCTAP, PG-schema, RDF-config, service-description and conversion front ends makes the enclosing function report an error",
        r"^(dctap|pgschema|rdf_config|mie|prefixmap|shapes_converter|shapes_comparator)/src/", 330, "calls returning Result in the other front ends",
        exempt=[(r"get_node_edge_by_label .*get_node_by_label$", "a node and then an edge of that label is looked up; missing both is reported"),
                (r"Tap2ShExConfig::resolve_iri .*resolve_prefix_local$", "an unknown empty prefix falls back to the base IRI")])
